; starts are not negative, by induction
;include t10_path.smt2
;include t20_text.smt2
;include t97_cmds.smt2 cmds_join cmds_start cmds_start0
(declare-const P Path)
(declare-const n Int)
(define-fun c ((k Int)) Int (ite (< 0 (ccl (pat P k))) (ccl (pat P k)) 0))
(push) (assert (not (<= 0 (cst P 0)))) (check-sat) (pop)
(push) (assert (<= 0 n)) (assert (<= 0 (cst P n))) (assert (<= 0 (c n))) (assert (not (<= 0 (cst P (+ n 1))))) (check-sat) (pop)
