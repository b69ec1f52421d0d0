; merging the result over what it was merged into changes nothing
; values are finite: rk is the depth of an object, and the claim is proved of
; an object where it holds of all objects of less depth
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t50_merge.smt2
;include t60_clone.smt2
;include t65_mergedoc.smt2 merge_idem
(declare-fun rk (JM) Int)
(assert (forall ((m JM) (k Str)) (! (=> (= (tag (jget m k)) 1) (< (rk (unbox1 (jget m k))) (rk m))) :pattern ((jget m k)))))
(declare-const f Fn)
(declare-const g Fn)
(declare-const d Any)
(declare-const s JM)
(declare-const z JM)
(assert (and (mpicks f) (mpicks g) (mnofail g) (jdoc (box1 z)) (jdoc (box1 s)) (not (mfail f (box1 z) s))))
(assert (mtakes g))
(assert (forall ((z2 JM) (s2 JM)) (! (=> (and (< (rk s2) (rk s)) (jdoc (box1 z2)) (jdoc (box1 s2)) (not (mfail f (box1 z2) s2))) (= (mrg g (box1 z2) (unbox1 (mrg f (box1 z2) s2))) (mrg f (box1 z2) s2))) :pattern ((mrg f (box1 z2) s2)))))
(declare-const W JM)
(assert (= (box1 W) (mrg f (box1 z) s)))
(declare-const V JM)
(assert (= (box1 V) (mrg g (box1 z) W)))
(declare-const k Str)
(assert (= k (jdiff (box1 V) (box1 W))))
(push) (assert (not (= (tag (mrg f (box1 z) s)) 1))) (check-sat) (pop)
(push) (assert (not (= (tag (mrg g (box1 z) W)) 1))) (check-sat) (pop)
(push) (assert (not (= (select (jdom V) k) (select (jdom W) k)))) (check-sat) (pop)
(push) (assert (not (select (jdom z) k))) (assert (not (= (jget V k) (jget W k)))) (check-sat) (pop)
(assert (select (jdom z) k))
(push) (assert (not (select (jdom s) k))) (assert (not (= (jget V k) (jget W k)))) (check-sat) (pop)
(assert (select (jdom s) k))
(declare-const zk Any)
(declare-const sk Any)
(assert (and (= zk (jget z k)) (= sk (jget s k))))
(push) (assert (and (= (tag zk) 1) (= (tag sk) 1))) (assert (= (mrg f zk (unbox1 sk)) (mrg f zk (unbox1 sk)))) (assert (not (= (jget V k) (jget W k)))) (check-sat) (pop)
(push) (assert (not (and (= (tag zk) 1) (= (tag sk) 1)))) (assert (= (mpol f zk sk) (mpol f zk sk))) (assert (not (= (jget V k) (jget W k)))) (check-sat) (pop)
; so they agree where they would differ
