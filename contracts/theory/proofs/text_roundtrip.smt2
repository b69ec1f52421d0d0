; fparse(ftext(p)) = p: over lists of bytes and lists of those. E is the
; escape of text_escape, spl is strings.Split on "/".
(declare-datatype L ((nil) (cons (hd Int) (tl L))))
(declare-datatype P ((pnl) (pcons (ph L) (pt P))))
(define-fun-rec app ((a L) (b L)) L (ite ((_ is nil) a) b (cons (hd a) (app (tl a) b))))
(define-fun-rec E ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 126) (cons 126 (cons 48 (E (tl t)))) (ite (= (hd t) 47) (cons 126 (cons 49 (E (tl t)))) (cons (hd t) (E (tl t)))))))
(define-fun-rec nosep ((t L)) Bool (ite ((_ is nil) t) true (and (not (= (hd t) 47)) (nosep (tl t)))))
(define-fun-rec spl ((t L)) P (ite ((_ is nil) t) (pcons nil pnl) (ite (= (hd t) 47) (pcons nil (spl (tl t))) (pcons (cons (hd t) (ph (spl (tl t)))) (pt (spl (tl t)))))))
(define-fun-rec mapE ((p P)) P (ite ((_ is pnl) p) pnl (pcons (E (ph p)) (mapE (pt p)))))
(define-fun-rec ft ((p P)) L (ite ((_ is pnl) p) nil (cons 47 (app (E (ph p)) (ft (pt p))))))
(define-fun-rec snoc ((p P) (k L)) P (ite ((_ is pnl) p) (pcons k pnl) (pcons (ph p) (snoc (pt p) k))))
(declare-const t L)
(declare-const b L)
(declare-const k L)
(declare-const r L)
(declare-const c Int)
(declare-const p P)
; A: E never produces the separator
(push) (assert (not (nosep (E nil)))) (check-sat) (pop)
(push) (assert (nosep (E t))) (assert (not (nosep (E (cons c t))))) (check-sat) (pop)
; B: nosep t => spl(t) = [t], as spl(app t nil)
(push) (assert (not (= (spl (app nil nil)) (pcons nil pnl)))) (check-sat) (pop)
(push) (assert (=> (nosep t) (= (spl (app t nil)) (pcons t pnl)))) (assert (nosep (cons c t))) (assert (not (= (spl (app (cons c t) nil)) (pcons (cons c t) pnl)))) (check-sat) (pop)
; C: nosep t => spl(t ++ '/' ++ r) = t :: spl(r)
(push) (assert (not (= (spl (app nil (cons 47 r))) (pcons nil (spl r))))) (check-sat) (pop)
(push) (assert (=> (nosep t) (= (spl (app t (cons 47 r))) (pcons t (spl r))))) (assert (nosep (cons c t))) (assert (not (= (spl (app (cons c t) (cons 47 r))) (pcons (cons c t) (spl r))))) (check-sat) (pop)
; D: spl(E k ++ ft p) = E k :: mapE p, induction on p for every k (A, B, C as facts)
(push)
(assert (nosep (E k)))
(assert (=> (nosep (E k)) (= (spl (app (E k) nil)) (pcons (E k) pnl))))
(assert (not (= (spl (app (E k) (ft pnl))) (pcons (E k) (mapE pnl))))) (check-sat) (pop)
(push)
(declare-const k2 L)
(assert (nosep (E k2)))
(assert (= (spl (app (E k2) (cons 47 (app (E k) (ft p))))) (pcons (E k2) (spl (app (E k) (ft p))))))
(assert (= (spl (app (E k) (ft p))) (pcons (E k) (mapE p))))
(assert (not (= (spl (app (E k2) (ft (pcons k p)))) (pcons (E k2) (mapE (pcons k p)))))) (check-sat) (pop)
; F: append is associative; G: ft(p snoc k) = ft(p) ++ '/' ++ E k
(push) (assert (not (= (app (app nil b) r) (app nil (app b r))))) (check-sat) (pop)
(push) (assert (= (app (app t b) r) (app t (app b r)))) (assert (not (= (app (app (cons c t) b) r) (app (cons c t) (app b r))))) (check-sat) (pop)
(push) (assert (= (app (E k) nil) (E k))) (assert (not (= (ft (snoc pnl k)) (app (ft pnl) (cons 47 (E k)))))) (check-sat) (pop)
(push)
(assert (= (app (app (E b) (ft p)) (cons 47 (E k))) (app (E b) (app (ft p) (cons 47 (E k))))))
(assert (= (ft (snoc p k)) (app (ft p) (cons 47 (E k)))))
(assert (not (= (ft (snoc (pcons b p) k)) (app (ft (pcons b p)) (cons 47 (E k)))))) (check-sat) (pop)
; H: t ++ nil = t
(push) (assert (not (= (app nil nil) nil))) (check-sat) (pop)
(push) (assert (= (app t nil) t)) (assert (not (= (app (cons c t) nil) (cons c t)))) (check-sat) (pop)
; so the text of a non-empty p begins with '/', and reading it gives
; map unesc (mapE p) = p by text_escape
