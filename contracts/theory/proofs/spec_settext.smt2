; a text set at a place: texts afterwards are that one, or were there before
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
(assert (forall ((v Str)) (! (and (= (tag (box2 v)) 2) (= (unbox2 (box2 v)) v)) :pattern ((box2 v)))))
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t60_clone.smt2
;include t70_refs.smt2
(declare-const o Any)
(declare-const p Path)
(declare-const q Path)
(declare-const r Path)
(declare-const k Str)
(declare-const s Str)
(declare-const n Any)
(define-fun x () Any (jdec (jenc (jnorm (box2 s)))))
(assert (gset o p x n))
(assert (= (tag (gat n q)) 2))
(push) ; the place itself or below
(assert (pext p q))
(assert (or (= q pnil) (= q (psnoc r k))))
(assert (or (pext p r) (not (pext p r))))
(assert (not (= q p)))
(check-sat)
(pop)
(push)
(assert (= q p))
(assert (pext p q))
(assert (not (= (gat n q) x)))
(check-sat)
(pop)
(push) ; elsewhere
(assert (not (pext p q)))
(assert (not (= (gat n q) (ite (= q p) x (gat o q)))))
(assert (or (pext p p) (not (pext p p))))
(check-sat)
(pop)
