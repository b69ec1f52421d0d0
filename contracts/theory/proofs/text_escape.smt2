; unesc(esc(t)) = t over lists of bytes; repl1 and repl2 are strings.Replace
; with a one byte and a two byte pattern, read left to right.
(declare-datatype L ((nil) (cons (hd Int) (tl L))))
(define-fun-rec e1 ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 126) (cons 126 (cons 48 (e1 (tl t)))) (cons (hd t) (e1 (tl t))))))
(define-fun-rec e2 ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 47) (cons 126 (cons 49 (e2 (tl t)))) (cons (hd t) (e2 (tl t))))))
(define-fun two ((t L) (a Int)) Bool (and ((_ is cons) t) (= (hd t) 126) ((_ is cons) (tl t)) (= (hd (tl t)) a)))
(define-fun-rec u1 ((t L)) L (ite ((_ is nil) t) nil (ite (two t 49) (cons 47 (u1 (tl (tl t)))) (cons (hd t) (u1 (tl t))))))
(define-fun-rec u2 ((t L)) L (ite ((_ is nil) t) nil (ite (two t 48) (cons 126 (u2 (tl (tl t)))) (cons (hd t) (u2 (tl t))))))
; the simultaneous escape, and the escape of '~' alone
(define-fun-rec E ((t L)) L (ite ((_ is nil) t) nil (ite (= (hd t) 126) (cons 126 (cons 48 (E (tl t)))) (ite (= (hd t) 47) (cons 126 (cons 49 (E (tl t)))) (cons (hd t) (E (tl t)))))))
(declare-const t L)
(declare-const c Int)
; each claim: base case, then step from t to (cons c t)
(push) (assert (not (= (e2 (e1 nil)) (E nil)))) (check-sat) (pop)
(push) (assert (= (e2 (e1 t)) (E t))) (assert (not (= (e2 (e1 (cons c t))) (E (cons c t))))) (check-sat) (pop)
(push) (assert (not (= (u1 (E nil)) (e1 nil)))) (check-sat) (pop)
(push) (assert (= (u1 (E t)) (e1 t))) (assert (not (= (u1 (E (cons c t))) (e1 (cons c t))))) (check-sat) (pop)
(push) (assert (not (= (u2 (e1 nil)) nil))) (check-sat) (pop)
(push) (assert (= (u2 (e1 t)) t)) (assert (not (= (u2 (e1 (cons c t))) (cons c t)))) (check-sat) (pop)
