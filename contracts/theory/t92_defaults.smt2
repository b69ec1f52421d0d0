; the operation a default stands for, and a value with the defaults of a list filled in, in its order
(declare-fun dop (Ref Str) Any)
(declare-fun dfold (Fn Path Ref Str Str Path Any) Any)
(assert (forall ((f Fn) (M Path) (o Ref) (m Str) (p Str) (v Any)) (! (= (dfold f M o m p pnil v) v) :pattern ((dfold f M o m p pnil v)))))
(assert (forall ((f Fn) (M Path) (o Ref) (m Str) (p Str) (q Path) (k Str) (v Any)) (! (= (dfold f M o m p (psnoc q k) v) (ite (routem M k m p) (mrg f (dfold f M o m p q v) (unbox1 (dop o k))) (dfold f M o m p q v))) :pattern ((dfold f M o m p (psnoc q k) v)))))
