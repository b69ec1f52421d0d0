; specification files of packages
(declare-fun ugobare (URLV) Bool) ; go:// without package
(assert (forall ((a Str) (b Str) (c Str) (d Str) (e Str) (f Str) (g Str) (h Bool) (i Bool)) (! (= (ugobare (urlof a b c d e f g h i)) (and (= a {{go}}) (= (scat (uhostname d) e) {{}}))) :pattern ((urlof a b c d e f g h i)))))
(define-fun pzero ((s Str)) Bool (or (= s {{}}) (= s {{#}})))
(define-fun purl ((s Str)) URLV (ite (pzero s) (upart {{}}) (upart s)))
(define-fun pfrag ((s Str)) Path (ite (pzero s) pnil (fparse (ufrag s))))
; the text of a reference s in a package whose pointer is g
(define-fun qualtext ((g Str) (s Str)) Str (ptrtext (ite (ugobare (purl s)) (purl g) (purl s)) (pfrag s)))
(assert (= (desc {{openapi}}) {{openapi}}))
; what a file holds, and whether that is known: any YAML document, any JSON document but null
(declare-fun sdoc (Str) Any)
(assert (forall ((f Str)) (! (= (sdoc f) (ite (or (= (fpext f) {{.yaml}}) (= (fpext f) {{.yml}})) (jnorm (ydec (fsdata f))) (jdec (fsdata f)))) :pattern ((sdoc f)))))
(declare-fun sany (Str) Bool)
(assert (forall ((f Str)) (! (= (sany f) (or (= (fpext f) {{.yaml}}) (= (fpext f) {{.yml}}) (not (= (jdec (fsdata f)) anil)))) :pattern ((sany f)))))
; files: what a pattern matches
(declare-fun fmatch (Str Str) Bool)
(declare-fun infile (Str Path Int Str) Bool)
(declare-fun specfile (Str Path Str) Bool)
(assert (forall ((d Str) (p Path) (f Str) (n Int) (g Str)) (! (= (specfile d p f) (infile d p (plen p) f)) :pattern ((specfile d p f) (infile d p n g)))))
(assert (forall ((d Str) (p Path) (f Str)) (! (not (infile d p 0 f)) :pattern ((infile d p 0 f)))))
(assert (forall ((d Str) (p Path) (n Int) (f Str)) (! (=> (<= 0 n) (= (infile d p (+ n 1) f) (or (infile d p n f) (fmatch (fpjoin d (pat p n)) f)))) :pattern ((infile d p (+ n 1) f)))))
;lemma seq_cat
(assert (forall ((p Path) (q Path) (k Str)) (! (= (select (pset (pcat p q)) k) (or (select (pset p) k) (select (pset q) k))) :pattern ((pset (pcat p q)) (select (pset p) k)) :pattern ((pset (pcat p q)) (select (pset q) k)) :pattern ((select (pset (pcat p q)) k)))))
;lemma spec_settext
(assert (forall ((o Any) (p Path) (s Str) (n Any) (q Path)) (! (=> (and (gset o p (jdec (jenc (jnorm (box2 s)))) n) (= (tag (gat n q)) 2)) (= (gat n q) (ite (= q p) (jdec (jenc (jnorm (box2 s)))) (gat o q)))) :pattern ((gset o p (jdec (jenc (jnorm (box2 s)))) n) (gat n q)))))
