; a value without references set in a document adds none
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t60_clone.smt2
;include t70_refs.smt2
(declare-const o Any)
(declare-const p Path)
(declare-const q Path)
(declare-const x Any)
(declare-const n Any)
(assert (and (gset o p x n) (jclean x) (not (xbad x))))
(push) (assert (not (jmono o n))) (check-sat) (pop)
(push) (assert (and (= p pnil) (xbad n) (= (gat n pnil) n))) (check-sat) (pop)
(push) (assert (and (= p pnil) (not (jclean n)) (= (gat n (psnoc (jcleanw n) {{$ref}})) (gat n (psnoc (jcleanw n) {{$ref}}))))) (check-sat) (pop)
(push) (assert (and (= p q) (xref n q))) (check-sat) (pop)
(push) (assert (and (= p (psnoc q {{$ref}})) (xref n q))) (check-sat) (pop)
(push) (assert (and (xbad n) (not (xbad o)) (= (gat n pnil) n) (= (gat o pnil) o) (= (gat x pnil) x) (not (pext p pnil)))) (check-sat) (pop)
(push) (assert (and (xbad n) (= (gat n pnil) n) (pext p pnil) (= (prest p pnil) (prest p pnil)) (not (= p pnil)))) (check-sat) (pop)
(push) (assert (and (xbad n) (= p pnil) (= (gat n pnil) n) (= (gat x pnil) x))) (check-sat) (pop)
