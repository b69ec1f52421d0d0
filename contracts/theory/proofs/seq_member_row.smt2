; what is at an index of a slice is an element of its sequence
;include t10_path.smt2
;include t20_text.smt2
;include t12_seqs.smt2 seq_member_row
(declare-const r (Array Int Str))
(declare-const o Int)
(declare-const n Int)
(declare-const i Int)
(push) (assert (and (<= 0 i) (< i n)))
(assert (= (pat (pseq r o n) i) (pat (pseq r o n) i)))
(assert (not (and (select (pset (pseq r o n)) (pat (pseq r o n) i)) (= (pat (pseq r o n) i) (select r (idx o i)))))) (check-sat) (pop)
