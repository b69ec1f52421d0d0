; what is in two sequences is in one after the other, by induction on the second
;include t10_path.smt2
;include t20_text.smt2
;include t12_seqs.smt2
(declare-const p Path)
(declare-const q Path)
(declare-const k Str)
(declare-const x Str)
(push) (assert (not (= (select (pset (pcat p pnil)) k) (or (select (pset p) k) (select (pset pnil) k))))) (check-sat) (pop)
(push) (assert (= (select (pset (pcat p q)) k) (or (select (pset p) k) (select (pset q) k))))
(assert (not (= (select (pset (pcat p (psnoc q x))) k) (or (select (pset p) k) (select (pset (psnoc q x)) k))))) (check-sat) (pop)
