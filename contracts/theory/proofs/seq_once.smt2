; in a sequence without repetition equal elements are at equal indices, by induction on the sequence; pidx is an index by seq_index
;include t10_path.smt2
;include t20_text.smt2
;include t12_seqs.smt2 seq_once
(declare-const p Path)
(declare-const x Str)
(declare-const i Int)
(declare-const j Int)
(push) (assert (and (<= 0 i) (< i (plen pnil)))) (check-sat) (pop)
(push) (assert (=> (and (puniq p) (<= 0 i) (< i (plen p)) (<= 0 j) (< j (plen p)) (= (pat p i) (pat p j))) (= i j)))
(assert (and (puniq (psnoc p x)) (<= 0 i) (< i (plen (psnoc p x))) (<= 0 j) (< j (plen (psnoc p x))) (= (pat (psnoc p x) i) (pat (psnoc p x) j))))
(assert (= (pset p) (pset p)))
(assert (not (= i j))) (check-sat) (pop)
(assert (=> (and (puniq p) (<= 0 i) (< i (plen p)) (= (pat p i) (pat p (pidx p (pat p i))))) (= i (pidx p (pat p i)))))
(push) (assert (and (puniq p) (<= 0 i) (< i (plen p)) (select (pset p) (pat p i)))) (assert (not (= i (pidx p (pat p i))))) (check-sat) (pop)
