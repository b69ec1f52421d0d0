; nothing is at a path that does not exist
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2
(declare-const v Any)
(declare-const p Path)
(declare-const k Str)
(push) (assert (not (jhas v pnil))) (assert (not (= (jat v pnil) anil))) (check-sat) (pop)
(push)
(assert (=> (not (jhas v p)) (= (jat v p) anil)))
(assert (not (jhas v (psnoc p k))))
(assert (not (= (jat v (psnoc p k)) anil)))
(check-sat)
(pop)
