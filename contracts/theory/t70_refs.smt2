; references inside documents: gat reads a node through objects and arrays
(declare-fun gat (Any Path) Any)
(assert (forall ((v Any)) (! (= (gat v pnil) v) :pattern ((gat v pnil)))))
(assert (forall ((v Any) (q Path) (k Str)) (! (=> (and (not (= (tag v) 1)) (not (= (tag v) 3))) (= (gat v (psnoc q k)) anil)) :pattern ((gat v (psnoc q k))))))
(assert (forall ((q Path) (k Str)) (! (= (gat (box1 jempty) (psnoc q k)) anil) :pattern ((gat (box1 jempty) (psnoc q k))))))
(declare-fun uext (URLV) Bool)
(assert (forall ((a Str) (b Str) (c Str) (d Str) (e Str) (f Str) (g Str) (h Bool) (i Bool)) (! (= (uext (urlof a b c d e f g h i)) (not (= a {{}}))) :pattern ((urlof a b c d e f g h i)))))
(define-fun sext ((s Str)) Bool (ite (or (= s {{}}) (= s {{#}})) false (uext (upart s))))
(define-fun xbad ((v Any)) Bool (and (= (tag v) 2) (sext (unbox2 v))))
(define-fun xref ((v Any) (q Path)) Bool (xbad (gat v (psnoc q {{$ref}}))))
; q begins with p, and what follows
(declare-fun pext (Path Path) Bool)
(declare-fun prest (Path Path) Path)
(assert (forall ((q Path)) (! (and (pext pnil q) (= (prest pnil q) q)) :pattern ((pext pnil q)))))
(assert (forall ((p Path)) (! (= (pext p pnil) (= p pnil)) :pattern ((pext p pnil)))))
(assert (forall ((p Path)) (! (and (pext p p) (= (prest p p) pnil)) :pattern ((pext p p)))))
(assert (forall ((p Path) (q Path) (k Str)) (! (and (= (pext p (psnoc q k)) (or (pext p q) (= p (psnoc q k)))) (=> (pext p q) (= (prest p (psnoc q k)) (psnoc (prest p q) k))) (=> (= p (psnoc q k)) (= (prest p (psnoc q k)) pnil))) :pattern ((pext p (psnoc q k))))))
; n is o with x set at p: a text found in n was in x, or was in o and not below p
(declare-fun gset (Any Path Any Any) Bool)
(assert (forall ((o Any) (p Path) (x Any) (n Any) (q Path)) (! (=> (and (gset o p x n) (= (tag (gat n q)) 2)) (ite (pext p q) (= (gat x (prest p q)) (gat n q)) (= (gat o q) (gat n q)))) :pattern ((gset o p x n) (gat n q)))))
(assert (forall ((o Any) (p Path) (x Any) (n Any)) (! (=> (and (= p pnil) (= n x)) (gset o p x n)) :pattern ((gset o p x n)))))
; no reference with a scheme is left / none but those there before
(declare-fun jclean (Any) Bool)
(declare-fun jcleanw (Any) Path)
(assert (forall ((v Any) (q Path)) (! (=> (jclean v) (not (xref v q))) :pattern ((jclean v) (gat v (psnoc q {{$ref}}))))))
(assert (forall ((v Any)) (! (=> (not (jclean v)) (xref v (jcleanw v))) :pattern ((jclean v)))))
(declare-fun jmono (Any Any) Bool)
(declare-fun jmonow (Any Any) Path)
(assert (forall ((o Any) (n Any) (q Path)) (! (=> (and (jmono o n) (xref n q)) (= (gat o (psnoc q {{$ref}})) (gat n (psnoc q {{$ref}})))) :pattern ((jmono o n) (gat n (psnoc q {{$ref}}))))))
(assert (forall ((o Any) (n Any)) (! (let ((q (jmonow o n))) (=> (not (jmono o n)) (and (xref n q) (not (= (gat o (psnoc q {{$ref}})) (gat n (psnoc q {{$ref}}))))))) :pattern ((jmono o n)))))
;lemma ref_set
(assert (forall ((o Any) (p Path) (x Any) (n Any)) (! (=> (and (gset o p x n) (jclean x) (not (xbad x))) (and (jmono o n) (=> (not (xbad o)) (not (xbad n))) (=> (= p pnil) (and (jclean n) (not (xbad n)))) (forall ((q Path)) (! (=> (= p q) (not (xref n q))) :pattern ((gat n (psnoc q {{$ref}}))))) (forall ((q Path)) (! (=> (= p (psnoc q {{$ref}})) (not (xref n q))) :pattern ((gat n (psnoc q {{$ref}}))))))) :pattern ((gset o p x n)))))
;lemma ref_mono
(assert (forall ((a Any) (b Any) (c Any)) (! (=> (and (jmono a b) (jmono b c)) (jmono a c)) :pattern ((jmono a b) (jmono b c)))))
; what a search for a key finds: n items, the path of the object each is in, and where an item is
(declare-fun xn (Any Str) Int)
(declare-fun xpath (Any Str Int) Path)
(declare-fun xidx (Any Str Path) Int)
; a copy by way of JSON holds the same texts at the same places
(assert (forall ((v Any) (q Path)) (! (=> (= (tag (gat (jdec (jenc (jnorm v))) q)) 2) (= (gat v q) (gat (jdec (jenc (jnorm v))) q))) :pattern ((gat (jdec (jenc (jnorm v))) q)))))
;lemma ref_copy
(assert (forall ((v Any)) (! (=> (and (jclean v) (not (xbad v))) (and (jclean (jdec (jenc (jnorm v)))) (not (xbad (jdec (jenc (jnorm v))))))) :pattern ((jclean v) (jdec (jenc (jnorm v)))))))
