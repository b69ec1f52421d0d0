; what package reflect says of the values documents are made of
(declare-fun rvof (Any) Any)
(declare-fun rkind (Any) Int)
(declare-fun risnil (Any) Bool)
(assert (forall ((v Any)) (! (and (= (= (rkind v) 0) (= (tag v) 0)) (=> (= (tag v) 1) (= (rkind v) 21)) (=> (= (tag v) 2) (= (rkind v) 24)) (=> (= (tag v) 3) (= (rkind v) 23)) (=> (= (tag v) 4) (= (rkind v) 1)) (=> (= (tag v) 6) (= (rkind v) 14))) :pattern ((rkind v)))))
(assert (forall ((v Any)) (! (=> (= (tag v) 1) (= (risnil v) (= (unbox1 v) jmnil))) :pattern ((risnil v)))))
(assert (forall ((v Any)) (! (=> (jdoc v) (not (risnil v))) :pattern ((risnil v)))))
