; string functions of the library and the text of pointers
(declare-fun srepl (Str Str Str) Str)
(declare-fun srepl1 (Str Str Str) Str) ; the first one only
(declare-fun psplit (Str Str) Path)
(declare-fun sprefix (Str Str) Bool)
(declare-fun strim (Str Str) Str)
(assert (forall ((s Str) (p Str) (a Str)) (! (=> (= s (scat p a)) (sprefix s p)) :pattern ((sprefix s p) (scat p a)))))
(assert (forall ((s Str)) (! (= (sprefix s {{/}}) (and (< 0 (slen s)) (= (sat s 0) 47))) :pattern ((sprefix s {{/}})))))
(declare-fun esc (Str) Str)
(declare-fun unesc (Str) Str)
(declare-fun ftext (Path) Str)
(declare-fun fparse (Str) Path)
(define-fun sdrop1 ((s Str)) Str (ssub s 1 (slen s)))
(assert (forall ((t Str)) (! (= (esc t) (srepl (srepl t {{~}} {{~0}}) {{/}} {{~1}})) :pattern ((esc t)))))
(assert (forall ((t Str)) (! (= (unesc t) (srepl (srepl t {{~1}} {{/}}) {{~0}} {{~}})) :pattern ((unesc t)))))
(assert (= (ftext pnil) {{}}))
(assert (forall ((p Path) (k Str)) (! (= (ftext (psnoc p k)) (scat (ftext p) (scat {{/}} (esc k)))) :pattern ((ftext (psnoc p k))))))
(assert (= (fparse {{}}) pnil))
(assert (forall ((s Str)) (! (=> (and (< 0 (slen s)) (= (sat s 0) 47)) (= (plen (fparse s)) (plen (psplit (sdrop1 s) {{/}})))) :pattern ((fparse s)))))
(assert (forall ((s Str) (i Int)) (! (=> (and (< 0 (slen s)) (= (sat s 0) 47) (<= 0 i) (< i (plen (psplit (sdrop1 s) {{/}})))) (= (pat (fparse s) i) (unesc (pat (psplit (sdrop1 s) {{/}}) i)))) :pattern ((pat (fparse s) i)))))
;lemma text_escape
(assert (forall ((t Str)) (! (= (unesc (esc t)) t) :pattern ((esc t)))))
;lemma text_roundtrip
(assert (forall ((p Path)) (! (and (= (fparse (ftext p)) p) (=> (not (= p pnil)) (and (< 0 (slen (ftext p))) (= (sat (ftext p) 0) 47)))) :pattern ((ftext p)))))
