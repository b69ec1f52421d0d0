; a policy which never fails makes no merge fail
; values are finite: rk is the depth of an object, and the claim is proved of
; an object where it holds of all objects of less depth
; boxes, as the generator declares them
(declare-fun box1 (JM) Any)
(declare-fun unbox1 (Any) JM)
(assert (forall ((v JM)) (! (and (= (tag (box1 v)) 1) (= (unbox1 (box1 v)) v)) :pattern ((box1 v)))))
(assert (forall ((x Any)) (! (=> (= (tag x) 1) (= (box1 (unbox1 x)) x)) :pattern ((unbox1 x)))))
(declare-fun box2 (Str) Any)
(declare-fun unbox2 (Any) Str)
;include t10_path.smt2
;include t20_text.smt2
;include t30_url.smt2
;include t40_doc.smt2
;include t50_merge.smt2
;include t60_clone.smt2
;include t65_mergedoc.smt2 
(declare-fun rk (JM) Int)
(assert (forall ((m JM) (k Str)) (! (=> (= (tag (jget m k)) 1) (< (rk (unbox1 (jget m k))) (rk m))) :pattern ((jget m k)))))
(declare-const f Fn)
(declare-const g Fn)
(declare-const d Any)
(declare-const s JM)
(assert (mnofail f))
(assert (forall ((d2 Any) (s2 JM)) (! (=> (< (rk s2) (rk s)) (not (mfail f d2 s2))) :pattern ((mfail f d2 s2)))))
(push) (assert (mfail f d s)) (assert (= (mperr f (jstep d (mwit f d s)) (jget s (mwit f d s))) (mperr f (jstep d (mwit f d s)) (jget s (mwit f d s))))) (check-sat) (pop)
