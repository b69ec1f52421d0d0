; chains of exported fields, elements and pointers
(declare-fun fstep (Path Str) Path)
(assert (forall ((f Path) (n Str)) (! (= (fstep f n) (let ((t (ite (sprefix n {{/}}) n (scat {{/}} n)))) (ite (= (ftext f) {{/}}) (fparse t) (pcat f (fparse t))))) :pattern ((fstep f n)))))
; declared types: the object of one, whether it has a package
(declare-fun tnobj (Any) Any)
(declare-fun tnpkg (Any) Bool)
; objects: name, package and type; the path of a package
(declare-fun oname (Any) Str)
(declare-fun opkg (Any) Ref)
(declare-fun otype (Any) Any)
(declare-fun otext (Any) Str)
(assert (forall ((o Any)) (! (= (otext o) (scat {{go://}} (scat (tpkg (opkg o)) (scat {{#/}} (oname o))))) :pattern ((otext o)))))
(define-fun otok ((s Str)) Bool (and (urlok s) (or (= (ufrag s) {{}}) (sprefix (ufrag s) {{/}}))))
(declare-fun ourl (Any) URLV)
(declare-fun ofrag (Any) Path)
(assert (forall ((o Any)) (! (and (= (ourl o) (upart (otext o))) (= (ofrag o) (fparse (ufrag (otext o))))) :pattern ((ourl o)) :pattern ((ofrag o)))))
; the path and name of an object make a URL
(assert (forall ((o Any)) (! (otok (otext o)) :pattern ((otext o)))))
; what is registered: types and the texts of pointers to them
(declare-sort RG 0)
(declare-fun rghas (RG Any Str) Bool)
(declare-fun rgadd (RG Any Str) RG)
(assert (forall ((R RG) (t Any) (s Str) (u Any) (q Str)) (! (= (rghas (rgadd R t s) u q) (or (rghas R u q) (and (tyident t u) (= s q)))) :pattern ((rghas (rgadd R t s) u q)))))
; the exported fields of a struct in order: how many there are before the j-th field, and where the k-th exported one is
(declare-fun vcount (Any Int) Int)
(declare-fun vinv (Any Int) Int)
(assert (forall ((t Any)) (! (= (vcount t 0) 0) :pattern ((vcount t 0)))))
(assert (forall ((t Any) (j Int)) (! (=> (<= 0 j) (and (= (vcount t (+ j 1)) (+ (vcount t j) (ite (vexp (tyfield t j)) 1 0))) (<= 0 (vcount t j)) (=> (vexp (tyfield t j)) (= (vinv t (vcount t j)) j)))) :pattern ((vcount t j) (tyfield t j)))))
; the steps from a type: the exported fields of a struct, what a pointer points to, the elements of a list or a map; their types and the pointers to them
(declare-fun nkid (Any) Int)
(assert (forall ((t Any)) (! (= (nkid t) (ite (= (tag t) 7) (vcount t (tynf t)) (ite (or (= (tag t) 8) (tyel t)) 1 0))) :pattern ((nkid t)))))
(declare-fun kid (Any Int) Any)
(declare-fun kidf (Any Path Int) Path)
(assert (forall ((t Any) (k Int)) (! (= (kid t k) (ite (= (tag t) 7) (vtype (tyfield t (vinv t k))) (tyelem t))) :pattern ((kid t k)))))
(assert (forall ((t Any) (f Path) (k Int)) (! (= (kidf t f k) (ite (= (tag t) 7) (fstep f (vname (tyfield t (vinv t k)))) (fstep f (ite (= (tag t) 8) {{*}} {{[]}})))) :pattern ((kidf t f k)))))
; does the pointer q spell a chain leading from type t, at the pointer of parts U and f and inside of the types p, to type u
(declare-fun ch (Any Types URLV Path Any Str) Bool)
(declare-fun unf (Any Types URLV Path) Bool)
(assert (forall ((t Any) (p Types) (U URLV) (f Path)) (! (unf t p U f) :pattern ((unf t p U f)))))
; a declared type is also met under its own name
(define-fun nx ((t Any) (p Types) (U URLV) (f Path) (u Any) (q Str)) Bool (or (ch t p U f u q) (and (= (tag t) 9) (tnpkg t) (ch t p (ourl (tnobj t)) (ofrag (tnobj t)) u q))))
; does a chain go through one of the first n steps
(declare-fun chs (Any Types URLV Path Any Str Int) Bool)
(assert (forall ((t Any) (p Types) (U URLV) (f Path) (u Any) (q Str)) (! (not (chs t p U f u q 0)) :pattern ((chs t p U f u q 0)))))
(assert (forall ((t Any) (p Types) (U URLV) (f Path) (u Any) (q Str) (n Int)) (! (=> (<= 0 n) (= (chs t p U f u q (+ n 1)) (or (chs t p U f u q n) (nx (kid t n) p U (kidf t f n) u q)))) :pattern ((chs t p U f u q n) (kid t n)))))
(assert (forall ((t Any) (p Types) (U URLV) (f Path) (u Any) (q Str)) (! (= (ch t p U f u q) (or (and (tyident (tyunder t) u) (= q (ptrtext U f))) (and (not (yhas p (tyunder t))) (chs (tyunder t) (ysnoc p (tyunder t)) U f u q (nkid (tyunder t)))))) :pattern ((ch t p U f u q) (unf t p U f)))))
; the objects of a scope by name
(declare-fun scopeof (Ref) Ref)
(declare-fun sclook (Ref Str) Any)
(assert (forall ((s Ref) (n Str)) (! (=> (not (= (sclook s n) anil)) (= (oname (sclook s n)) n)) :pattern ((sclook s n)))))
; chains from an object; chains from any object of a scope
(define-fun cho ((o Any) (u Any) (q Str)) Bool (ch (otype o) ynil (ourl o) (ofrag o) u q))
(declare-fun chp (Ref Any Str) Bool)
(declare-fun chpn (Ref Any Str) Str)
(assert (forall ((s Ref) (n Str) (u Any) (q Str)) (! (=> (and (not (= (sclook s n) anil)) (cho (sclook s n) u q)) (chp s u q)) :pattern ((ch (otype (sclook s n)) ynil (ourl (sclook s n)) (ofrag (sclook s n)) u q)))))
(assert (forall ((s Ref) (u Any) (q Str)) (! (=> (chp s u q) (and (not (= (sclook s (chpn s u q)) anil)) (cho (sclook s (chpn s u q)) u q))) :pattern ((chp s u q)))))
