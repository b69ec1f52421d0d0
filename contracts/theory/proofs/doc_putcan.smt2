; where a value could be set it still can be, and it is there
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2 doc_putget
(declare-const v Any)
(declare-const p Path)
(declare-const k Str)
(declare-const x Any)
(push) (assert (not (and (jcan (jput v pnil x) pnil) (jhas (jput v pnil x) pnil) (jplain (jput v pnil x) pnil)))) (check-sat) (pop)
(push)
(assert (forall ((y Any)) (! (=> (jcan v p) (and (jcan (jput v p y) p) (jhas (jput v p y) p) (jplain (jput v p y) p))) :pattern ((jput v p y)))))
(assert (jcan v (psnoc p k)))
(assert (not (and (jcan (jput v (psnoc p k) x) (psnoc p k)) (jhas (jput v (psnoc p k) x) (psnoc p k)) (jplain (jput v (psnoc p k) x) (psnoc p k)))))
(check-sat)
(pop)
