; merging an object into itself changes nothing
; values are finite: rk is the depth of an object, and the claim is proved of
; an object where it holds of all objects of less depth
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t50_merge.smt2
;include t60_clone.smt2
;include t65_mergedoc.smt2 
(declare-fun rk (JM) Int)
(assert (forall ((m JM) (k Str)) (! (=> (= (tag (jget m k)) 1) (< (rk (unbox1 (jget m k))) (rk m))) :pattern ((jget m k)))))
(declare-const f Fn)
(declare-const g Fn)
(declare-const d Any)
(declare-const s JM)
(declare-const z JM)
(assert (and (mpicks g) (mnofail g)))
(assert (forall ((z2 JM)) (! (=> (< (rk z2) (rk z)) (= (mrg g (box1 z2) z2) (box1 z2))) :pattern ((mrg g (box1 z2) z2)))))
(declare-const V JM)
(push) (assert (= (jdom z) ((as const (Array Str Bool)) false))) (assert (not (= (mrg g (box1 z) z) (box1 z)))) (check-sat) (pop)
(assert (not (= (jdom z) ((as const (Array Str Bool)) false))))
(assert (= (box1 V) (mrg g (box1 z) z)))
(declare-const k Str)
(assert (= k (jdiff (box1 V) (box1 z))))
(push) (assert (= z jmnil)) (check-sat) (pop)
(push) (assert (not (jsame (box1 V) (box1 z)))) (assert (not (= (select (jdom V) k) (select (jdom z) k)))) (check-sat) (pop)
(push) (assert (not (jsame (box1 V) (box1 z)))) (assert (= (box1 (unbox1 (jget z k))) (box1 (unbox1 (jget z k))))) (assert (not (= (jget V k) (jget z k)))) (check-sat) (pop)
(push) (assert (not (jsame (box1 V) (box1 z)))) (assert (= (select (jdom V) k) (select (jdom z) k))) (assert (= (jget V k) (jget z k))) (check-sat) (pop)
(push) (assert (jsame (box1 V) (box1 z))) (assert (not (= (box1 V) (box1 z)))) (check-sat) (pop)
