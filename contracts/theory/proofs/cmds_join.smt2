; the commands of a row that continues another with the groups of a file, by induction on the length of the common part and of the file's part
;include t10_path.smt2
;include t20_text.smt2
;include t97_cmds.smt2 cmds_join cmds_start cmds_start0
(declare-const r (Array Int Ref))
(declare-const o Int)
(declare-const n Int)
(declare-const r2 (Array Int Ref))
(declare-const o2 Int)
(declare-const f Ref)
(declare-const i Int)
(declare-const m Int)
(assert (and (<= 0 n) (<= 0 (fgn f))))
(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i n)) (= (select r2 (idx o2 i)) (select r (idx o i)))) :pattern ((select r (idx o i))))))
(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i (fgn f))) (= (select r2 (idx o2 (+ n i))) (fa f i))) :pattern ((fa f i)))))
; equal rows, equal commands
(push) (assert (not (= (rcm r2 o2 0) (rcm r o 0)))) (check-sat) (pop)
(push) (assert (and (<= 0 i) (< i n) (= (rcm r2 o2 i) (rcm r o i))))
(assert (= (select r2 (idx o2 i)) (select r (idx o i))))
(assert (not (= (rcm r2 o2 (+ i 1)) (rcm r o (+ i 1))))) (check-sat) (pop)
(assert (= (rcm r2 o2 n) (rcm r o n)))
; concatenation is associative
(declare-const p Path)
(declare-const q Path)
(declare-const s Path)
(push) (assert (not (peq (pcat (pcat p q) s) (pcat p (pcat q s))))) (check-sat) (pop)
(assert (forall ((p Path) (q Path) (s Path)) (! (= (pcat (pcat p q) s) (pcat p (pcat q s))) :pattern ((pcat (pcat p q) s)) :pattern ((pcat p (pcat q s))))))
; the groups of the file follow
(push) (assert (not (= (rcm r2 o2 (+ n 0)) (pcat (rcm r o n) (fcm f 0))))) (check-sat) (pop)
(push) (assert (and (<= 0 m) (< m (fgn f)) (= (rcm r2 o2 (+ n m)) (pcat (rcm r o n) (fcm f m)))))
(assert (= (select r2 (idx o2 (+ n m))) (fa f m)))
(assert (not (= (rcm r2 o2 (+ (+ n m) 1)) (pcat (rcm r o n) (fcm f (+ m 1)))))) (check-sat) (pop)
