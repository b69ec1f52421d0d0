; package p imports q; q can be reached from p; p can be reached from the roots outside the standard library
(declare-fun impo (Ref Ref) Bool)
(declare-fun rch (Ref Ref) Bool)
(declare-fun pstd (Ref) Bool)
(declare-fun nrch (Ref) Bool)
(assert (forall ((p Ref)) (! (rch p p) :pattern ((rch p p)))))
(assert (forall ((p Ref) (q Ref) (r Ref)) (! (=> (and (rch p q) (impo q r)) (rch p r)) :pattern ((rch p q) (impo q r)))))
(assert (forall ((p Ref) (q Ref)) (! (=> (and (nrch p) (impo p q) (not (pstd q)) (not (= q 0))) (nrch q)) :pattern ((nrch p) (impo p q)))))
; the text of an error, and of a format with one argument
(declare-fun etext (Any) Str)
(declare-fun sprintf1 (Str Any) Str)
