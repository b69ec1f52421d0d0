; the elements of a sequence, whether each comes once, and the sorted sequence of a set
(declare-fun pset (Path) (Array Str Bool))
(declare-fun puniq (Path) Bool)
(declare-fun skeys ((Array Str Bool)) Path)
(assert (= (pset pnil) ((as const (Array Str Bool)) false)))
(assert (puniq pnil))
(assert (forall ((q Path) (k Str)) (! (= (pset (psnoc q k)) (store (pset q) k true)) :pattern ((pset (psnoc q k))))))
(assert (forall ((q Path) (k Str)) (! (= (puniq (psnoc q k)) (and (puniq q) (not (select (pset q) k)))) :pattern ((puniq (psnoc q k))))))
; what is in the sorted sequence of a set is in the set
(assert (forall ((S (Array Str Bool)) (i Int)) (! (=> (and (<= 0 i) (< i (plen (skeys S)))) (select S (pat (skeys S) i))) :pattern ((pat (skeys S) i)))))
; where an element of a sequence is
(declare-fun pidx (Path Str) Int)
;lemma seq_index
(assert (forall ((p Path) (k Str)) (! (=> (select (pset p) k) (and (<= 0 (pidx p k)) (< (pidx p k) (plen p)) (= (pat p (pidx p k)) k))) :pattern ((pidx p k)) :pattern ((select (pset p) k)))))
;lemma seq_once
(assert (forall ((p Path) (i Int)) (! (=> (and (puniq p) (<= 0 i) (< i (plen p))) (= (pidx p (pat p i)) i)) :pattern ((puniq p) (pat p i)))))
;lemma seq_member
(assert (forall ((p Path) (i Int)) (! (=> (and (<= 0 i) (< i (plen p))) (select (pset p) (pat p i))) :pattern ((pset p) (pat p i)))))
;lemma seq_member_row
(assert (forall ((r (Array Int Str)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (select (pset (pseq r o n)) (select r (idx o i)))) :pattern ((pset (pseq r o n)) (select r (idx o i))))))
