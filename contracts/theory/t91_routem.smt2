; what Match answers, as a function of the methods there are, the pattern, the method and the path
(declare-fun mfo (Path Str) Int) ; the first method a pattern begins with, or -1
(define-fun mpr ((m Str) (p Str)) Bool (sprefix (slower p) (scat (slower m) {{:}})))
(assert (forall ((M Path) (p Str)) (! (and (<= (- 1) (mfo M p)) (< (mfo M p) (plen M)) (=> (<= 0 (mfo M p)) (mpr (pat M (mfo M p)) p))) :pattern ((mfo M p)))))
(assert (forall ((M Path) (p Str) (j Int)) (! (=> (and (<= 0 j) (< j (plen M)) (or (< (mfo M p) 0) (< j (mfo M p)))) (not (mpr (pat M j) p))) :pattern ((mfo M p) (pat M j)))))
(declare-fun routem (Path Str Str Str) Bool)
(assert (forall ((M Path) (p Str) (m Str) (s Str)) (! (= (routem M p m s) (let ((x (pat M (mfo M p)))) (ite (< (mfo M p) 0) (fits p s) (and (or (= m {{}}) (= (slower x) {{}}) (sfold (slower x) m)) (fits (ssub p (+ (slen x) 1) (slen p)) s))))) :pattern ((routem M p m s)))))
