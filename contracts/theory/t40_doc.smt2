; documents: the value at a path, and the document with a value set at a path
(declare-fun jat (Any Path) Any)
(declare-fun jhas (Any Path) Bool)
(declare-fun jput (Any Path Any) Any)
(declare-fun jcan (Any Path) Bool) ; a value can be set at the path
(declare-fun jplain (Any Path) Bool) ; the path passes no array
(define-fun jstep ((v Any) (k Str)) Any (ite (= (tag v) 1) (jget (unbox1 v) k) anil))
(define-fun jins ((v Any) (k Str) (x Any)) Any (ite (= (tag v) 1) (box1 (jset (unbox1 v) k x)) (box1 (jset jempty k x))))
(assert (forall ((v Any)) (! (= (jat v pnil) v) :pattern ((jat v pnil)))))
(assert (forall ((v Any) (p Path) (k Str)) (! (= (jat v (psnoc p k)) (jstep (jat v p) k)) :pattern ((jat v (psnoc p k))))))
(assert (forall ((v Any)) (! (jhas v pnil) :pattern ((jhas v pnil)))))
(assert (forall ((v Any) (p Path) (k Str)) (! (= (jhas v (psnoc p k)) (and (jhas v p) (= (tag (jat v p)) 1) (select (jdom (unbox1 (jat v p))) k))) :pattern ((jhas v (psnoc p k))))))
(assert (forall ((v Any)) (! (jplain v pnil) :pattern ((jplain v pnil)))))
(assert (forall ((v Any) (p Path) (k Str)) (! (= (jplain v (psnoc p k)) (and (jplain v p) (not (= (tag (jat v p)) 3)))) :pattern ((jplain v (psnoc p k))))))
(assert (forall ((v Any)) (! (jcan v pnil) :pattern ((jcan v pnil)))))
(assert (forall ((v Any) (p Path) (k Str)) (! (= (jcan v (psnoc p k)) (and (jcan v p) (or (= (tag (jat v p)) 1) (= (tag (jat v p)) 0)))) :pattern ((jcan v (psnoc p k))))))
(assert (forall ((v Any) (x Any)) (! (= (jput v pnil x) x) :pattern ((jput v pnil x)))))
(assert (forall ((v Any) (p Path) (k Str) (x Any)) (! (= (jput v (psnoc p k) x) (jput v p (jins (jat v p) k x))) :pattern ((jput v (psnoc p k) x)))))
;lemma doc_putget
(assert (forall ((v Any) (p Path) (x Any)) (! (=> (jcan v p) (= (jat (jput v p x) p) x)) :pattern ((jput v p x)))))
; a path that leaves p at some key: q = c k2 r2, p = c k r
;lemma doc_putother
(assert (forall ((v Any) (c Path) (k Str) (r Path) (k2 Str) (r2 Path) (x Any)) (! (=> (and (not (= k k2)) (jcan v (pcat (psnoc c k) r))) (= (jat (jput v (pcat (psnoc c k) r) x) (pcat (psnoc c k2) r2)) (jat v (pcat (psnoc c k2) r2)))) :pattern ((jput v (pcat (psnoc c k) r) x) (pcat (psnoc c k2) r2)))))
; what a document is below a node that is set
;lemma doc_putcan
(assert (forall ((v Any) (p Path) (x Any)) (! (=> (jcan v p) (and (jcan (jput v p x) p) (jhas (jput v p x) p) (jplain (jput v p x) p))) :pattern ((jput v p x)))))
;lemma doc_putput
(assert (forall ((v Any) (p Path) (x Any) (y Any)) (! (=> (jcan v p) (= (jput (jput v p x) p y) (jput v p y))) :pattern ((jput (jput v p x) p y)))))
;lemma doc_plain
(assert (forall ((v Any) (p Path)) (! (=> (or (jcan v p) (jhas v p)) (jplain v p)) :pattern ((jcan v p)) :pattern ((jhas v p)))))
;lemma doc_absent
(assert (forall ((v Any) (p Path)) (! (=> (not (jhas v p)) (= (jat v p) anil)) :pattern ((jhas v p) (jat v p)))))
