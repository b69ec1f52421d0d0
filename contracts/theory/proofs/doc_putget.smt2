; jat(jput(v, p, x), p) = x where a value can be set, by induction on p: the
; empty path, then from p to p k, for every value x
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2
(declare-const v Any)
(declare-const p Path)
(declare-const k Str)
(declare-const x Any)
(push) (assert (not (= (jat (jput v pnil x) pnil) x))) (check-sat) (pop)
(push)
(assert (forall ((y Any)) (! (=> (jcan v p) (= (jat (jput v p y) p) y)) :pattern ((jput v p y)))))
(assert (jcan v (psnoc p k)))
(assert (not (= (jat (jput v (psnoc p k) x) (psnoc p k)) x)))
(check-sat)
(pop)
