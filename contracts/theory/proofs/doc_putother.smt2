; setting at c k r leaves c k2 r2 as it is, for k2 other than k: induction on
; r, and inside it on r2
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
;include t10_path.smt2
;include t40_doc.smt2 doc_putget
(declare-const v Any)
(declare-const c Path)
(declare-const k Str)
(declare-const k2 Str)
(declare-const r Path)
(declare-const r2 Path)
(declare-const m Str)
(declare-const x Any)
(assert (not (= k k2)))
; r empty, r2 empty
(push)
(assert (jcan v (psnoc c k)))
(assert (not (= (jat (jput v (pcat (psnoc c k) pnil) x) (pcat (psnoc c k2) pnil)) (jat v (pcat (psnoc c k2) pnil)))))
(check-sat)
(pop)
; any r, from r2 to r2 m
(push)
(assert (= (jat (jput v (pcat (psnoc c k) r) x) (pcat (psnoc c k2) r2)) (jat v (pcat (psnoc c k2) r2))))
(assert (not (= (jat (jput v (pcat (psnoc c k) r) x) (pcat (psnoc c k2) (psnoc r2 m))) (jat v (pcat (psnoc c k2) (psnoc r2 m))))))
(check-sat)
(pop)
; from r to r m, for every value
(push)
(assert (forall ((y Any)) (! (=> (jcan v (pcat (psnoc c k) r)) (= (jat (jput v (pcat (psnoc c k) r) y) (pcat (psnoc c k2) r2)) (jat v (pcat (psnoc c k2) r2)))) :pattern ((jput v (pcat (psnoc c k) r) y)))))
(assert (jcan v (pcat (psnoc c k) (psnoc r m))))
(assert (not (= (jat (jput v (pcat (psnoc c k) (psnoc r m)) x) (pcat (psnoc c k2) r2)) (jat v (pcat (psnoc c k2) r2)))))
(check-sat)
(pop)
