; setting twice is setting once; objects are equal when they have the same
; keys and values (jset over jset)
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2 doc_putget
(declare-const v Any)
(declare-const p Path)
(declare-const k Str)
(declare-const x Any)
(declare-const y Any)
(assert (forall ((m JM) (k Str) (a Any) (b Any)) (! (= (jset (jset m k a) k b) (jset m k b)) :pattern ((jset (jset m k a) k b)))))
(push) (assert (not (= (jput (jput v pnil x) pnil y) (jput v pnil y)))) (check-sat) (pop)
(push)
(assert (forall ((a Any) (b Any)) (! (=> (jcan v p) (= (jput (jput v p a) p b) (jput v p b))) :pattern ((jput (jput v p a) p b)))))
(assert (jcan v (psnoc p k)))
(assert (not (= (jput (jput v (psnoc p k) x) (psnoc p k) y) (jput v (psnoc p k) y))))
(check-sat)
(pop)
