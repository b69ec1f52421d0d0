; regular expressions: the source one was compiled from, quoting, what a source matches
(declare-fun rsrc (Ref) Str)
(declare-fun rok (Str) Bool)
(declare-fun rquote (Str) Str)
(declare-fun rmatchs (Str Str) Bool)
(declare-fun rfn (Str Str) Int)
(declare-fun rfi (Str Str Int) Int)
(declare-fun rfj (Str Str Int) Int)
(declare-fun slower (Str) Str)
(declare-fun sfold (Str Str) Bool)
; the variables and wildcards of a pattern, and where the text before them starts
(define-fun vsrc () Str {{(\{[a-z][a-zA-Z0-9]+?\}|\*)}})
(define-fun vn ((p Str)) Int (rfn vsrc p))
(define-fun vlast ((p Str) (k Int)) Int (ite (= k 0) 0 (rfj vsrc p (- k 1))))
(assert (forall ((p Str) (k Int)) (! (=> (and (<= 0 k) (< k (rfn vsrc p))) (and (<= (vlast p k) (rfi vsrc p k)) (< (rfi vsrc p k) (rfj vsrc p k)) (<= (rfj vsrc p k) (slen p)) (or (and (= (sat p (rfi vsrc p k)) 42) (= (rfj vsrc p k) (+ 1 (rfi vsrc p k)))) (and (= (sat p (rfi vsrc p k)) 123) (= (sat p (- (rfj vsrc p k) 1)) 125))))) :pattern ((rfi vsrc p k)))))
(assert (forall ((p Str)) (! (<= 0 (rfn vsrc p)) :pattern ((rfn vsrc p)))))
; the pieces the pattern stands for
(declare-fun pparts (Str Int) Path)
(assert (forall ((p Str)) (! (= (pparts p 0) pnil) :pattern ((pparts p 0)))))
(assert (forall ((p Str) (k Int)) (! (=> (<= 0 k) (= (pparts p (+ k 1)) (psnoc (psnoc (pparts p k) (rquote (ssub p (vlast p k) (rfi vsrc p k)))) (ite (= (sat p (rfi vsrc p k)) 123) {{([^/]+)}} {{(.*)}})))) :pattern ((pparts p k) (rfi vsrc p k)))))
(declare-fun pall (Str) Path)
(assert (forall ((p Str)) (! (= (pall p) (psnoc (pparts p (vn p)) (rquote (ssub p (vlast p (vn p)) (slen p))))) :pattern ((pall p)))))
; what pieces match: each a part of the text, in order, and nothing left over
(declare-fun rl (Path Str) Bool)
(assert (forall ((s Str)) (! (= (rl pnil s) (= s {{}})) :pattern ((rl pnil s)))))
(assert (forall ((q Path) (t Str) (s Str)) (! (= (rl (psnoc q (rquote t)) s) (exists ((a Str)) (and (= s (scat a t)) (rl q a)))) :pattern ((rl (psnoc q (rquote t)) s)))))
(assert (forall ((q Path) (s Str)) (! (= (rl (psnoc q {{([^/]+)}}) s) (exists ((a Str) (b Str)) (and (= s (scat a b)) (< 0 (slen b)) (forall ((i Int)) (=> (and (<= 0 i) (< i (slen b))) (not (= (sat b i) 47)))) (rl q a)))) :pattern ((rl (psnoc q {{([^/]+)}}) s)))))
(assert (forall ((q Path) (s Str)) (! (= (rl (psnoc q {{(.*)}}) s) (exists ((a Str) (b Str)) (and (= s (scat a b)) (rl q a)))) :pattern ((rl (psnoc q {{(.*)}}) s)))))
(declare-fun fits (Str Str) Bool)
; what fits means; unfolded only where it is asked for, since the proof of Match does not look inside
(declare-fun fitsdef (Str Str) Bool)
(assert (forall ((p Str) (s Str)) (! (= (fits p s) (rl (pall p) s)) :pattern ((fitsdef p s)))))
; a source made of such pieces between anchors, with . matching newlines too
(declare-fun rpat (Str) Str)
(assert (forall ((p Str)) (! (= (rpat p) (scat (scat {{(?s)^}} (sjoin (pall p) {{}})) {{$}})) :pattern ((rpat p)))))
(assert (forall ((p Str) (s Str)) (! (= (rmatchs (rpat p) s) (fits p s)) :pattern ((rmatchs (rpat p) s)))))
