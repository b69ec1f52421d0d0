; merging: mpol(f, d, s) is what policy f makes of a collision
(declare-fun mpol (Fn Any Any) Any)
(declare-fun mperr (Fn Any Any) Bool)
(declare-fun mrg (Fn Any JM) Any)
(declare-fun mfail (Fn Any JM) Bool)
(declare-fun mwit (Fn Any JM) Str)
(declare-fun jwitd (JM) Str)
(declare-fun jsame (Any Any) Bool)
(declare-fun jdiff (Any Any) Str)
(define-fun jdomv ((v Any) (k Str)) Bool (and (= (tag v) 1) (select (jdom (unbox1 v)) k)))
(define-fun mval ((f Fn) (a Any) (b Any)) Any (ite (and (= (tag a) 1) (= (tag b) 1)) (mrg f a (unbox1 b)) (mpol f a b)))
(define-fun mbad ((f Fn) (a Any) (b Any)) Bool (ite (and (= (tag a) 1) (= (tag b) 1)) (mfail f a (unbox1 b)) (mperr f a b)))
(define-fun mkey ((f Fn) (d Any) (s JM) (k Str)) Any (ite (select (jdom s) k) (ite (jdomv d k) (mval f (jstep d k) (jget s k)) (jget s k)) (jstep d k)))
(assert (forall ((f Fn) (d Any) (s JM)) (! (=> (= (jdom s) ((as const (Array Str Bool)) false)) (= (mrg f d s) d)) :pattern ((mrg f d s)))))
(assert (forall ((f Fn) (d Any) (s JM)) (! (=> (not (= (jdom s) ((as const (Array Str Bool)) false))) (and (= (tag (mrg f d s)) 1) (not (= (unbox1 (mrg f d s)) jmnil)))) :pattern ((mrg f d s)))))
(assert (forall ((f Fn) (d Any) (s JM) (k Str)) (! (=> (not (= (jdom s) ((as const (Array Str Bool)) false))) (and (= (select (jdom (unbox1 (mrg f d s))) k) (or (select (jdom s) k) (jdomv d k))) (= (jget (unbox1 (mrg f d s)) k) (mkey f d s k)))) :pattern ((jget (unbox1 (mrg f d s)) k)) :pattern ((select (jdom (unbox1 (mrg f d s))) k)))))
(assert (forall ((f Fn) (d Any) (s JM) (k Str)) (! (=> (and (not (mfail f d s)) (select (jdom s) k) (jdomv d k)) (not (mbad f (jstep d k) (jget s k)))) :pattern ((mfail f d s) (select (jdom s) k)))))
(assert (forall ((f Fn) (d Any) (s JM)) (! (=> (mfail f d s) (let ((k (mwit f d s))) (and (select (jdom s) k) (jdomv d k) (mbad f (jstep d k) (jget s k))))) :pattern ((mfail f d s)))))
; objects with the same keys and values are the same
(assert (forall ((a Any) (b Any)) (! (and (= (jsame a b) (= a b)) (=> (and (not (= a b)) (= (tag a) 1) (= (tag b) 1) (not (= (unbox1 a) jmnil)) (not (= (unbox1 b) jmnil))) (or (not (= (select (jdom (unbox1 a)) (jdiff a b)) (select (jdom (unbox1 b)) (jdiff a b)))) (not (= (jget (unbox1 a) (jdiff a b)) (jget (unbox1 b) (jdiff a b))))))) :pattern ((jsame a b)))))
