; a path along which a value can be set, or that exists, passes no array
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2
(declare-const v Any)
(declare-const p Path)
(declare-const k Str)
(push) (assert (not (jplain v pnil))) (check-sat) (pop)
(push)
(assert (=> (or (jcan v p) (jhas v p)) (jplain v p)))
(assert (or (jcan v (psnoc p k)) (jhas v (psnoc p k))))
(assert (not (jplain v (psnoc p k))))
(check-sat)
(pop)
