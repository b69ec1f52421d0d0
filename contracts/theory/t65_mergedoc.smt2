; policies which choose one of the two values or fail, and policies which never fail
(declare-fun mpicks (Fn) Bool)
(declare-fun mpicksa (Fn) Any)
(declare-fun mpicksb (Fn) Any)
(assert (forall ((f Fn) (a Any) (b Any)) (! (=> (and (mpicks f) (not (mperr f a b))) (or (= (mpol f a b) a) (= (mpol f a b) b))) :pattern ((mpicks f) (mpol f a b)))))
(assert (forall ((f Fn)) (! (let ((a (mpicksa f)) (b (mpicksb f))) (=> (or (mperr f a b) (= (mpol f a b) a) (= (mpol f a b) b)) (mpicks f))) :pattern ((mpicks f)))))
(declare-fun mnofail (Fn) Bool)
(declare-fun mnofaila (Fn) Any)
(declare-fun mnofailb (Fn) Any)
(assert (forall ((f Fn) (a Any) (b Any)) (! (=> (mnofail f) (not (mperr f a b))) :pattern ((mnofail f) (mperr f a b)))))
(assert (forall ((f Fn)) (! (=> (not (mperr f (mnofaila f) (mnofailb f))) (mnofail f)) :pattern ((mnofail f)))))
(declare-fun mtakes (Fn) Bool) ; takes the source
(declare-fun mtakesa (Fn) Any)
(declare-fun mtakesb (Fn) Any)
(assert (forall ((f Fn) (a Any) (b Any)) (! (=> (mtakes f) (= (mpol f a b) b)) :pattern ((mtakes f) (mpol f a b)))))
(assert (forall ((f Fn)) (! (=> (= (mpol f (mtakesa f) (mtakesb f)) (mtakesb f)) (mtakes f)) :pattern ((mtakes f)))))
;lemma merge_nofail
(assert (forall ((f Fn) (d Any) (s JM)) (! (=> (mnofail f) (not (mfail f d s))) :pattern ((mnofail f) (mfail f d s)))))
;lemma merge_empty
(assert (forall ((f Fn) (s JM)) (! (and (not (mfail f (box1 jempty) s)) (=> (not (= s jmnil)) (= (mrg f (box1 jempty) s) (box1 s)))) :pattern ((mrg f (box1 jempty) s)) :pattern ((mfail f (box1 jempty) s)))))
;lemma merge_doc
(assert (forall ((f Fn) (d Any) (s JM)) (! (=> (and (mpicks f) (jdoc d) (jdoc (box1 s)) (not (mfail f d s))) (jdoc (mrg f d s))) :pattern ((mpicks f) (jdoc (mrg f d s))))))
;lemma merge_idem
(assert (forall ((g Fn) (z JM)) (! (=> (and (mpicks g) (mnofail g)) (= (mrg g (box1 z) z) (box1 z))) :pattern ((mrg g (box1 z) z)))))
;lemma merge_again
(assert (forall ((g Fn) (f Fn) (z JM) (y JM)) (! (=> (and (mpicks f) (mpicks g) (mnofail g) (not (mfail f (box1 z) y)) (jdoc (box1 z)) (jdoc (box1 y)) (mtakes g)) (= (mrg g (box1 z) (unbox1 (mrg f (box1 z) y))) (mrg f (box1 z) y))) :pattern ((mrg g (box1 z) (unbox1 (mrg f (box1 z) y)))))))
