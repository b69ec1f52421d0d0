; dparse(dtext(p)) = p for p that is not empty: over lists of bytes and lists of those. E is the
; escape of text_escape, spl is strings.Split on ".".
(declare-datatype L ((nil) (cons (hd Int) (tl L))))
(declare-datatype P ((pnl) (pcons (ph L) (pt P))))
(define-fun-rec app ((a L) (b L)) L (ite ((_ is nil) a) b (cons (hd a) (app (tl a) b))))
(define-fun-rec E ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 126) (cons 126 (cons 48 (E (tl t)))) (ite (= (hd t) 46) (cons 126 (cons 49 (E (tl t)))) (cons (hd t) (E (tl t)))))))
(define-fun-rec nosep ((t L)) Bool (ite ((_ is nil) t) true (and (not (= (hd t) 46)) (nosep (tl t)))))
(define-fun-rec spl ((t L)) P (ite ((_ is nil) t) (pcons nil pnl) (ite (= (hd t) 46) (pcons nil (spl (tl t))) (pcons (cons (hd t) (ph (spl (tl t)))) (pt (spl (tl t)))))))
(define-fun-rec mapE ((p P)) P (ite ((_ is pnl) p) pnl (pcons (E (ph p)) (mapE (pt p)))))
(define-fun-rec ft ((p P)) L (ite ((_ is pnl) p) nil (cons 46 (app (E (ph p)) (ft (pt p))))))
(define-fun-rec snoc ((p P) (k L)) P (ite ((_ is pnl) p) (pcons k pnl) (pcons (ph p) (snoc (pt p) k))))
(declare-const t L)
(declare-const b L)
(declare-const k L)
(declare-const r L)
(declare-const c Int)
(declare-const p P)
; A: E never produces the separator
(push) (assert (not (nosep (E nil)))) (check-sat) (pop)
(push) (assert (nosep (E t))) (assert (not (nosep (E (cons c t))))) (check-sat) (pop)
; B: nosep t => spl(t) = [t], as spl(app t nil)
(push) (assert (not (= (spl (app nil nil)) (pcons nil pnl)))) (check-sat) (pop)
(push) (assert (=> (nosep t) (= (spl (app t nil)) (pcons t pnl)))) (assert (nosep (cons c t))) (assert (not (= (spl (app (cons c t) nil)) (pcons (cons c t) pnl)))) (check-sat) (pop)
; C: nosep t => spl(t ++ '/' ++ r) = t :: spl(r)
(push) (assert (not (= (spl (app nil (cons 46 r))) (pcons nil (spl r))))) (check-sat) (pop)
(push) (assert (=> (nosep t) (= (spl (app t (cons 46 r))) (pcons t (spl r))))) (assert (nosep (cons c t))) (assert (not (= (spl (app (cons c t) (cons 46 r))) (pcons (cons c t) (spl r))))) (check-sat) (pop)
; D: spl(E k ++ ft p) = E k :: mapE p, induction on p for every k (A, B, C as facts)
(push)
(assert (nosep (E k)))
(assert (=> (nosep (E k)) (= (spl (app (E k) nil)) (pcons (E k) pnl))))
(assert (not (= (spl (app (E k) (ft pnl))) (pcons (E k) (mapE pnl))))) (check-sat) (pop)
(push)
(declare-const k2 L)
(assert (nosep (E k2)))
(assert (= (spl (app (E k2) (cons 46 (app (E k) (ft p))))) (pcons (E k2) (spl (app (E k) (ft p))))))
(assert (= (spl (app (E k) (ft p))) (pcons (E k) (mapE p))))
(assert (not (= (spl (app (E k2) (ft (pcons k p)))) (pcons (E k2) (mapE (pcons k p)))))) (check-sat) (pop)
; so splitting the join of escaped k::p gives the escaped tokens, and
; unescaping those gives k::p (see the claims on the escape below)
; join(k::p, '.') = E k ++ ft(p): strings.Join puts the separator between
(define-fun-rec join ((p P)) L (ite ((_ is pnl) p) nil (ite ((_ is pnl) (pt p)) (ph p) (app (ph p) (cons 46 (join (pt p)))))))
; ft(p) is '.' ++ join(mapE p) for p that is not empty, nil otherwise
(push)
(assert (= (app (E k) nil) (E k)))
(assert (not (= (ft (pcons k pnl)) (cons 46 (join (mapE (pcons k pnl))))))) (check-sat) (pop)
(push)
(declare-const k3 L)
(assert (= (ft (pcons k p)) (cons 46 (join (mapE (pcons k p))))))
(assert (not (= (ft (pcons k3 (pcons k p))) (cons 46 (join (mapE (pcons k3 (pcons k p)))))))) (check-sat) (pop)
; t ++ nil = t
(push) (assert (not (= (app nil nil) nil))) (check-sat) (pop)
(push) (assert (= (app t nil) t)) (assert (not (= (app (cons c t) nil) (cons c t)))) (check-sat) (pop)
; the escape: strings.Replace of '~' by "~0", then of '.' by "~1", undone in
; the other order
(define-fun-rec e1 ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 126) (cons 126 (cons 48 (e1 (tl t)))) (cons (hd t) (e1 (tl t))))))
(define-fun-rec e2 ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 46) (cons 126 (cons 49 (e2 (tl t)))) (cons (hd t) (e2 (tl t))))))
(define-fun two ((t L) (a Int)) Bool (and ((_ is cons) t) (= (hd t) 126) ((_ is cons) (tl t)) (= (hd (tl t)) a)))
(define-fun-rec u1 ((t L)) L (ite ((_ is nil) t) nil (ite (two t 49) (cons 46 (u1 (tl (tl t)))) (cons (hd t) (u1 (tl t))))))
(define-fun-rec u2 ((t L)) L (ite ((_ is nil) t) nil (ite (two t 48) (cons 126 (u2 (tl (tl t)))) (cons (hd t) (u2 (tl t))))))
; each claim: base case, then step from t to (cons c t)
(push) (assert (not (= (e2 (e1 nil)) (E nil)))) (check-sat) (pop)
(push) (assert (= (e2 (e1 t)) (E t))) (assert (not (= (e2 (e1 (cons c t))) (E (cons c t))))) (check-sat) (pop)
(push) (assert (not (= (u1 (E nil)) (e1 nil)))) (check-sat) (pop)
(push) (assert (= (u1 (E t)) (e1 t))) (assert (not (= (u1 (E (cons c t))) (e1 (cons c t))))) (check-sat) (pop)
(push) (assert (not (= (u2 (e1 nil)) nil))) (check-sat) (pop)
(push) (assert (= (u2 (e1 t)) t)) (assert (not (= (u2 (e1 (cons c t))) (cons c t)))) (check-sat) (pop)
