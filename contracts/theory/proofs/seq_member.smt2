; what is at an index is an element, by induction on the sequence
;include t10_path.smt2
;include t20_text.smt2
;include t12_seqs.smt2 seq_index seq_once seq_member
(declare-const p Path)
(declare-const x Str)
(declare-const i Int)
(push) (assert (and (<= 0 i) (< i (plen pnil)))) (check-sat) (pop)
(push) (assert (=> (and (<= 0 i) (< i (plen p))) (select (pset p) (pat p i))))
(assert (and (<= 0 i) (< i (plen (psnoc p x)))))
(assert (not (select (pset (psnoc p x)) (pat (psnoc p x) i)))) (check-sat) (pop)
