; finite sequences of strings (paths, token lists)
(declare-sort Path 0)
(declare-const pnil Path)
(declare-fun psnoc (Path Str) Path)
(declare-fun plen (Path) Int)
(declare-fun pat (Path Int) Str)
(declare-fun pseq ((Array Int Str) Int Int) Path)
(declare-fun pcat (Path Path) Path)
(declare-fun peq (Path Path) Bool)
(declare-fun pdiff (Path Path) Int)
(assert (= (plen pnil) 0))
(assert (forall ((p Path)) (! (and (<= 0 (plen p)) (=> (= (plen p) 0) (= p pnil))) :pattern ((plen p)))))
(assert (forall ((p Path) (k Str)) (! (and (= (plen (psnoc p k)) (+ (plen p) 1)) (= (pat (psnoc p k) (plen p)) k)) :pattern ((psnoc p k)))))
(assert (forall ((p Path) (k Str) (i Int)) (! (=> (and (<= 0 i) (<= i (plen p))) (= (pat (psnoc p k) i) (ite (= i (plen p)) k (pat p i)))) :pattern ((pat (psnoc p k) i)))))
(assert (forall ((r (Array Int Str)) (o Int) (n Int)) (! (=> (<= 0 n) (= (plen (pseq r o n)) n)) :pattern ((pseq r o n)))))
(assert (forall ((r (Array Int Str)) (o Int)) (! (= (pseq r o 0) pnil) :pattern ((pseq r o 0)))))
(assert (forall ((r (Array Int Str)) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (pat (pseq r o n) i) (select r (idx o i)))) :pattern ((pat (pseq r o n) i)))))
(assert (forall ((r (Array Int Str)) (o Int) (n Int)) (! (=> (<= 0 n) (= (pseq r o (+ n 1)) (psnoc (pseq r o n) (select r (idx o n))))) :pattern ((pseq r o n) (select r (idx o n))))))
(assert (forall ((p Path) (q Path)) (! (and (= (plen (pcat p q)) (+ (plen p) (plen q)))) :pattern ((pcat p q)))))
(assert (forall ((p Path) (q Path) (i Int)) (! (=> (and (<= 0 i) (< i (+ (plen p) (plen q)))) (= (pat (pcat p q) i) (ite (< i (plen p)) (pat p i) (pat q (- i (plen p)))))) :pattern ((pat (pcat p q) i)))))
(assert (forall ((p Path)) (! (and (= (pcat p pnil) p) (= (pcat pnil p) p)) :pattern ((pcat p pnil)) :pattern ((pcat pnil p)))))
(assert (forall ((p Path) (q Path) (k Str)) (! (= (pcat p (psnoc q k)) (psnoc (pcat p q) k)) :pattern ((pcat p (psnoc q k))))))
; two sequences of one length with the same elements are the same
(assert (forall ((p Path) (q Path)) (! (and (= (peq p q) (= p q)) (=> (not (= p q)) (or (not (= (plen p) (plen q))) (and (<= 0 (pdiff p q)) (< (pdiff p q) (plen p)) (not (= (pat p (pdiff p q)) (pat q (pdiff p q)))))))) :pattern ((peq p q)))))
