; an element is at an index, by induction on the sequence
;include t10_path.smt2
;include t20_text.smt2
;include t12_seqs.smt2 seq_index seq_once seq_member
(declare-const p Path)
(declare-const k Str)
(declare-const x Str)
(define-fun at ((p Path) (k Str)) Bool (exists ((i Int)) (and (<= 0 i) (< i (plen p)) (= (pat p i) k))))
(push) (assert (not (=> (select (pset pnil) k) (at pnil k)))) (check-sat) (pop)
(declare-const i Int)
(push) (assert (=> (select (pset p) k) (and (<= 0 i) (< i (plen p)) (= (pat p i) k))))
(assert (= (pat (psnoc p x) i) (pat (psnoc p x) i)))
(assert (select (pset (psnoc p x)) k))
(assert (not (or (and (<= 0 i) (< i (plen (psnoc p x))) (= (pat (psnoc p x) i) k)) (= (pat (psnoc p x) (plen p)) k)))) (check-sat) (pop)
