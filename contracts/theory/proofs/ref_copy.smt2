; a copy has no references the original has not
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t60_clone.smt2
;include t70_refs.smt2
(declare-const v Any)
(assert (and (jclean v) (not (xbad v))))
(push) (assert (not (jclean (jdec (jenc (jnorm v)))))) (check-sat) (pop)
(push) (assert (and (xbad (jdec (jenc (jnorm v)))) (= (gat (jdec (jenc (jnorm v))) pnil) (jdec (jenc (jnorm v)))) (= (gat v pnil) v))) (check-sat) (pop)
