; go/types as a fixed world of types
(declare-fun tyunder (Any) Any)
(declare-fun tyelem (Any) Any)
(declare-fun tyident (Any Any) Bool)
(declare-fun tylen (Any) Int)
; finite sequences of types
(declare-sort Types 0)
(declare-const ynil Types)
(declare-fun ysnoc (Types Any) Types)
(declare-fun ylen (Types) Int)
(declare-fun yat (Types Int) Any)
(declare-fun yseq ((Array Int Any) Int Int) Types)
(declare-fun yhas (Types Any) Bool)
(declare-fun yidx (Types Any) Int)
(assert (= (ylen ynil) 0))
(assert (forall ((p Types)) (! (and (<= 0 (ylen p)) (=> (= (ylen p) 0) (= p ynil))) :pattern ((ylen p)))))
(assert (forall ((p Types) (k Any)) (! (= (ylen (ysnoc p k)) (+ (ylen p) 1)) :pattern ((ysnoc p k)))))
(assert (forall ((p Types) (k Any) (i Int)) (! (=> (and (<= 0 i) (<= i (ylen p))) (= (yat (ysnoc p k) i) (ite (= i (ylen p)) k (yat p i)))) :pattern ((yat (ysnoc p k) i)))))
(assert (forall ((r (Array Int Any)) (o Int) (n Int)) (! (=> (<= 0 n) (= (ylen (yseq r o n)) n)) :pattern ((yseq r o n)))))
(assert (forall ((r (Array Int Any)) (o Int)) (! (= (yseq r o 0) ynil) :pattern ((yseq r o 0)))))
(assert (forall ((r (Array Int Any)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (yat (yseq r o n) i) (select r (idx o i)))) :pattern ((yseq r o n) (select r (idx o i))) :pattern ((yat (yseq r o n) i)))))
(declare-fun ywit ((Array Int Any) (Array Int Any) Int Int) Int)
(assert (forall ((r (Array Int Any)) (q (Array Int Any)) (o Int) (n Int)) (! (or (= (yseq r o n) (yseq q o n)) (and (<= 0 (ywit r q o n)) (< (ywit r q o n) n) (not (= (select r (idx o (ywit r q o n))) (select q (idx o (ywit r q o n))))))) :pattern ((yseq r o n) (yseq q o n)))))
; a type is on a path when an identical one is
(assert (forall ((p Types) (t Any) (i Int)) (! (=> (and (<= 0 i) (< i (ylen p)) (tyident (yat p i) t)) (yhas p t)) :pattern ((yhas p t) (yat p i)))))
(assert (forall ((p Types) (t Any)) (! (=> (yhas p t) (and (<= 0 (yidx p t)) (< (yidx p t) (ylen p)) (tyident (yat p (yidx p t)) t))) :pattern ((yhas p t)))))
; a type is identical to itself
(assert (forall ((t Any)) (! (tyident t t) :pattern ((tyident t t)))))
; type tags: 7 struct, 8 pointer
(declare-fun tykind (Any) Int)
; maps keyed by types
(declare-sort TM 0)
(declare-fun tmget (TM Any) Any)
; fields: a struct type's i-th, its raw tag, its name and type, whether exported and embedded
(declare-fun tynf (Any) Int)
(declare-fun tyfield (Any Int) Ref)
(declare-fun tyraw (Any Int) Str)
(declare-fun vname (Ref) Str)
(declare-fun vtype (Ref) Any)
(declare-fun vexp (Ref) Bool)
(declare-fun vemb (Ref) Bool)
(declare-fun expname (Str) Bool)
(assert (forall ((t Any)) (! (<= 0 (tynf t)) :pattern ((tynf t)))))
; what a raw tag says
(define-fun rjon ((r Str)) Bool (and (not (= r {{}})) (tghas r {{json}}) (not (= (tpname (tgval r {{json}})) {{-}}))))
(define-fun ron ((r Str)) Bool (and (not (= r {{}})) (tghas r {{oapi}}) (not (= (tpname (tgval r {{oapi}})) {{-}}))))
(define-fun rig ((r Str)) Bool (and (not (= r {{}})) (or (and (tghas r {{json}}) (not (rjon r))) (and (tghas r {{oapi}}) (not (ron r))))))
(define-fun rbopt ((s Str)) Bool (or (= s {{}}) (pbool s)))
(define-fun rhas ((r Str) (k Str)) Bool (and (ron r) (tphas (tgval r {{oapi}}) k)))
(define-fun rtext ((r Str) (k Str)) Str (ite (rhas r k) (tpopt (tgval r {{oapi}}) k) {{}}))
(define-fun rbool ((r Str) (k Str)) Bool (and (rhas r k) (rbopt (tpopt (tgval r {{oapi}}) k))))
(define-fun rname ((r Str)) Str (ite (and (ron r) (not (= (tpname (tgval r {{oapi}})) {{}}))) (tpname (tgval r {{oapi}})) (ite (rjon r) (tpname (tgval r {{json}})) {{}})))
(define-fun rinlset ((r Str)) Bool (or (rhas r {{inline}}) (and (rjon r) (tphas (tgval r {{json}}) {{inline}}))))
(define-fun rinl ((r Str)) Bool (ite (rhas r {{inline}}) (rbopt (tpopt (tgval r {{oapi}}) {{inline}})) (rbopt (tpopt (tgval r {{json}}) {{inline}}))))
; the struct a field may be replaced by, and whether it is
(define-fun tyst ((f Ref)) Any (ite (= (tag (tyunder (vtype f))) 8) (tyunder (tyelem (tyunder (vtype f)))) (tyunder (vtype f))))
(define-fun tyinl ((f Ref) (r Str)) Bool (and (= (tag (tyst f)) 7) (ite (rinlset r) (rinl r) (vemb f))))
; sequences of fields with their tags
(declare-sort Flds 0)
(declare-const fnil Flds)
(declare-fun fone (Ref Str) Flds)
(declare-fun fcat (Flds Flds) Flds)
(declare-fun flen (Flds) Int)
(declare-fun ffld (Flds Int) Ref)
(declare-fun ftag (Flds Int) Str)
(assert (= (flen fnil) 0))
(assert (forall ((a Flds)) (! (<= 0 (flen a)) :pattern ((flen a)))))
(assert (forall ((f Ref) (r Str)) (! (and (= (flen (fone f r)) 1) (= (ffld (fone f r) 0) f) (= (ftag (fone f r) 0) r)) :pattern ((fone f r)))))
(assert (forall ((a Flds) (b Flds)) (! (= (flen (fcat a b)) (+ (flen a) (flen b))) :pattern ((fcat a b)))))
(assert (forall ((a Flds) (b Flds) (i Int)) (! (=> (and (<= 0 i) (< i (+ (flen a) (flen b)))) (= (ffld (fcat a b) i) (ite (< i (flen a)) (ffld a i) (ffld b (- i (flen a)))))) :pattern ((ffld (fcat a b) i)))))
(assert (forall ((a Flds) (b Flds) (i Int)) (! (=> (and (<= 0 i) (< i (+ (flen a) (flen b)))) (= (ftag (fcat a b) i) (ite (< i (flen a)) (ftag a i) (ftag b (- i (flen a)))))) :pattern ((ftag (fcat a b) i)))))
; the fields a struct shows, on a path of structs it is inside of
(declare-fun cfs (Any Types) Flds)
(declare-fun cfl (Any Types Int) Flds)
(declare-fun cf1 (Any Types Int) Flds)
(assert (forall ((s Any) (p Types)) (! (= (cfs s p) (ite (yhas p s) fnil (cfl s (ysnoc p s) (tynf s)))) :pattern ((cfs s p)))))
(assert (forall ((s Any) (p Types)) (! (= (cfl s p 0) fnil) :pattern ((cfl s p 0)))))
(assert (forall ((s Any) (p Types) (n Int)) (! (=> (<= 0 n) (= (cfl s p (+ n 1)) (fcat (cfl s p n) (cf1 s p n)))) :pattern ((cfl s p n) (tyfield s n)))))
(assert (forall ((s Any) (p Types) (n Int)) (! (= (cf1 s p n) (ite (or (rig (tyraw s n)) (not (vexp (tyfield s n)))) fnil (ite (tyinl (tyfield s n) (tyraw s n)) (cfs (tyst (tyfield s n)) p) (fone (tyfield s n) (tyraw s n))))) :pattern ((cf1 s p n)))))
; names of the properties, and those required, in order
(define-fun fnm ((a Flds) (i Int)) Str (ite (= (rname (ftag a i)) {{}}) (vname (ffld a i)) (rname (ftag a i))))
(declare-fun freq (Flds Int) Path)
(assert (forall ((a Flds)) (! (= (freq a 0) pnil) :pattern ((freq a 0)))))
(assert (forall ((a Flds) (n Int)) (! (=> (<= 0 n) (= (freq a (+ n 1)) (ite (rbool (ftag a n) {{required}}) (psnoc (freq a n) (fnm a n)) (freq a n)))) :pattern ((freq a n) (ftag a n)))))
; the last of the first n fields with a name
(declare-fun flast (Flds Int Str) Int)
(assert (forall ((a Flds) (x Str)) (! (= (flast a 0 x) (- 1)) :pattern ((flast a 0 x)))))
(assert (forall ((a Flds) (n Int) (x Str)) (! (=> (<= 0 n) (= (flast a (+ n 1) x) (ite (= (fnm a n) x) n (flast a n x)))) :pattern ((flast a (+ n 1) x)))))
; which types have elements
(declare-fun tyel (Any) Bool)
