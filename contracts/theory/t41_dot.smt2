; dot paths
(declare-fun sjoin (Path Str) Str)
(declare-fun pdesc (Path) Path)
(declare-fun desc (Str) Str)
(declare-fun dparse (Str) Path)
(define-fun dtext ((p Path)) Str (sjoin (pdesc p) {{.}}))
(assert (forall ((t Str)) (! (= (desc t) (srepl (srepl t {{~}} {{~0}}) {{.}} {{~1}})) :pattern ((desc t)))))
(assert (forall ((p Path)) (! (= (plen (pdesc p)) (plen p)) :pattern ((pdesc p)))))
(assert (forall ((p Path) (i Int)) (! (=> (and (<= 0 i) (< i (plen p))) (= (pat (pdesc p) i) (desc (pat p i)))) :pattern ((pat (pdesc p) i)))))
;lemma doc_dotpath
(assert (forall ((p Path)) (! (=> (not (= p pnil)) (and (= (dparse (sjoin (pdesc p) {{.}})) p) (= (psplit (sjoin (pdesc p) {{.}}) {{.}}) (pdesc p)))) :pattern ((sjoin (pdesc p) {{.}})))))
(assert (forall ((p Path) (k Str)) (! (= (pdesc (psnoc p k)) (psnoc (pdesc p) (desc k))) :pattern ((pdesc (psnoc p k))))))
(assert (= (pdesc pnil) pnil))
(assert (forall ((k Str) (s Str)) (! (= (sjoin (psnoc pnil k) s) k) :pattern ((sjoin (psnoc pnil k) s)))))
; "$ref" needs no escape
(assert (= (desc {{$ref}}) {{$ref}}))
