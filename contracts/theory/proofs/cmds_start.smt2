; starts grow, by induction on n
;include t10_path.smt2
;include t20_text.smt2
;include t97_cmds.smt2 cmds_join cmds_start cmds_start0
(declare-const P Path)
(declare-const i Int)
(declare-const n Int)
(define-fun c ((k Int)) Int (ite (< 0 (ccl (pat P k))) (ccl (pat P k)) 0))
(assert (<= 0 i))
(push) (assert (= (c i) (c i))) (assert (not (<= (+ (cst P i) (c i)) (cst P (+ i 1))))) (check-sat) (pop)
(push) (assert (< i n)) (assert (<= (+ (cst P i) (c i)) (cst P n))) (assert (<= 0 (c n))) (assert (not (<= (+ (cst P i) (c i)) (cst P (+ n 1))))) (check-sat) (pop)
