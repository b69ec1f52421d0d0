(set-logic ALL)
(define-sort Ref () Int)
(define-sort Fn () Int)
(declare-sort Str 0)
(declare-sort F64 0)
(declare-sort Any 0)
(declare-sort JM 0)
(declare-datatypes ((Slice 0)) (((mkslice (row. Int) (off. Int) (len. Int) (cap. Int)))))
(define-fun nilslice () Slice (mkslice 0 0 0 0))
(define-fun wfslice ((x Slice) (a Int)) Bool (and (<= 0 (row. x)) (< (row. x) a) (<= 0 (off. x)) (<= 0 (len. x)) (<= (len. x) (cap. x)) (=> (= (row. x) 0) (= x nilslice))))
(declare-fun idx (Int Int) Int)
(assert (forall ((o Int) (i Int)) (! (= (idx o i) (+ o i)) :pattern ((idx o i)))))
(declare-fun tag (Any) Int)
(declare-const anil Any)
(assert (= (tag anil) 0))
(assert (forall ((x Any)) (! (and (<= 0 (tag x)) (=> (= (tag x) 0) (= x anil))) :pattern ((tag x)))))
; strings: byte sequences
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-const str!empty Str)
(declare-fun scat (Str Str) Str)
(declare-fun ssub (Str Int Int) Str)
(declare-fun slt (Str Str) Bool)
(declare-fun bstr ((Array Int Int) Int Int) Str)
(declare-fun sbytes (Str) (Array Int Int))
(declare-fun rune2s (Int) Str)
(declare-fun i2f (Int) F64)
(declare-fun flt (F64 F64) Bool)
(declare-fun sdrop (Str Str) Str)
(declare-fun schop (Str Str) Str)
(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (=> (= (slen s) 0) (= s str!empty))) :pattern ((slen s)))))
(assert (= (slen str!empty) 0))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str)) (! (= (scat a str!empty) a) :pattern ((scat a str!empty)))))
(assert (forall ((a Str)) (! (= (scat str!empty a) a) :pattern ((scat str!empty a)))))
(assert (forall ((a Str) (b Str) (d Str)) (! (= (scat (scat a b) d) (scat a (scat b d))) :pattern ((scat (scat a b) d)))))
(assert (forall ((a Str) (b Str)) (! (and (= (sdrop a (scat a b)) b) (= (schop b (scat a b)) a)) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (i Int)) (! (=> (and (<= 0 i) (< i (+ (slen a) (slen b)))) (= (sat (scat a b) i) (ite (< i (slen a)) (sat a i) (sat b (- i (slen a)))))) :pattern ((sat (scat a b) i)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (j Int)) (! (=> (= j (slen s)) (= (ssub s 0 j) s)) :pattern ((ssub s 0 j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((a Str) (b Str)) (! (and (not (and (slt a b) (slt b a))) (or (slt a b) (slt b a) (= a b)) (=> (= a b) (not (slt a b)))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (d Str)) (! (=> (and (slt a b) (slt b d)) (slt a d)) :pattern ((slt a b) (slt b d)))))
(assert (forall ((r (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bstr r o n)) n)) :pattern ((bstr r o n)))))
(assert (forall ((r (Array Int Int)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n) (<= 0 (select r (idx o i))) (<= (select r (idx o i)) 255)) (= (sat (bstr r o n) i) (select r (idx o i)))) :pattern ((sat (bstr r o n) i)))))
(assert (forall ((s Str)) (! (= (bstr (sbytes s) 0 (slen s)) s) :pattern ((sbytes s)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (<= 0 i) (< i (slen s))) (= (select (sbytes s) i) (sat s i))) :pattern ((select (sbytes s) i)))))
; JSON objects: finite maps from strings to values
(declare-fun jdom (JM) (Array Str Bool))
(declare-fun jval (JM) (Array Str Any))
(declare-fun jset (JM Str Any) JM)
(declare-fun jdel (JM Str) JM)
(declare-fun jcard (JM) Int)
(declare-const jempty JM)
(declare-const jmnil JM)
(declare-fun jget (JM Str) Any)
(assert (distinct jempty jmnil))
(assert (= (jdom jempty) ((as const (Array Str Bool)) false)))
(assert (and (= (jval jempty) ((as const (Array Str Any)) anil)) (= (jval jmnil) ((as const (Array Str Any)) anil))))
(assert (= (jdom jmnil) ((as const (Array Str Bool)) false)))
(assert (forall ((m JM) (k Str)) (! (= (jget m k) (ite (select (jdom m) k) (select (jval m) k) anil)) :pattern ((jget m k)) :pattern ((select (jval m) k)))))
(assert (forall ((m JM) (k Str) (v Any)) (! (and (= (jdom (jset m k v)) (store (jdom m) k true)) (= (jval (jset m k v)) (store (jval m) k v)) (not (= (jset m k v) jmnil))) :pattern ((jset m k v)))))
(assert (forall ((m JM) (k Str)) (! (and (= (jdom (jdel m k)) (store (jdom m) k false)) (= (jval (jdel m k)) (store (jval m) k anil))) :pattern ((jdel m k)))))
(declare-fun jwit (JM) Str)
(assert (forall ((m JM)) (! (and (<= 0 (jcard m)) (=> (not (= (jcard m) 0)) (select (jdom m) (jwit m))) (=> (= (jcard m) 0) (= (jdom m) ((as const (Array Str Bool)) false)))) :pattern ((jcard m)))))
