; texts of JSON objects, written member by member
(declare-fun sch (Int) Str) ; a text of one byte
(assert (forall ((n Int)) (! (= (slen (sch n)) 1) :pattern ((sch n)))))
(assert (forall ((r (Array Int Int)) (o Int)) (! (=> (and (<= 0 (select r (idx o 0))) (<= (select r (idx o 0)) 255)) (= (bstr r o 1) (sch (select r (idx o 0))))) :pattern ((bstr r o 1)))))
(declare-fun jtbegin (Str) Bool) ; an opening brace and complete members
(declare-fun jtcomma (Str) Bool) ; the same and a comma
(declare-fun jtkeys (Str) Path) ; their keys, or those of a complete object, in the order of the text
(declare-fun jtmap (Str) JM)
(define-fun jobj ((m JM)) Any (box1 m))
(assert (forall ((t Str)) (! (not (= (jtmap t) jmnil)) :pattern ((jtmap t)))))
(assert (forall ((t Str)) (! (let ((u (scat t (sch 44)))) (=> (and (jtbegin t) (not (= (jtkeys t) pnil))) (and (jtcomma u) (= (jtkeys u) (jtkeys t)) (= (jtmap u) (jtmap t))))) :pattern ((jtbegin t) (scat t (sch 44))))))
(assert (and (jtbegin (sch 123)) (= (jtkeys (sch 123)) pnil) (= (jtmap (sch 123)) jempty)))
(assert (forall ((t Str) (k Str) (x Str)) (! (let ((u (scat (scat (scat t (jstr k)) (sch 58)) x))) (=> (and (jtbegin t) (= (jtkeys t) pnil) (jdecok x)) (and (jtbegin u) (= (jtkeys u) (psnoc pnil k)) (= (jtmap u) (jset (jtmap t) k (jdec x)))))) :pattern ((jtbegin t) (scat (scat (scat t (jstr k)) (sch 58)) x)))))
(assert (forall ((t Str) (k Str) (x Str)) (! (let ((u (scat (scat (scat t (jstr k)) (sch 58)) x))) (=> (and (jtcomma t) (jdecok x)) (and (jtbegin u) (= (jtkeys u) (psnoc (jtkeys t) k)) (= (jtmap u) (jset (jtmap t) k (jdec x)))))) :pattern ((jtcomma t) (scat (scat (scat t (jstr k)) (sch 58)) x)))))
(assert (forall ((t Str)) (! (let ((u (scat t (sch 125)))) (=> (jtbegin t) (and (jdecok u) (= (jdec u) (box1 (jtmap t))) (= (jtkeys u) (jtkeys t))))) :pattern ((jtbegin t) (scat t (sch 125))))))
; where a text is in a list, -1 if it is not there
(declare-fun oidx (Path Str) Int)
(assert (forall ((p Path) (k Str)) (! (and (<= (- 1) (oidx p k)) (or (= (oidx p k) (- 1)) (and (< (oidx p k) (plen p)) (= (pat p (oidx p k)) k)))) :pattern ((oidx p k)))))
(assert (forall ((p Path) (i Int)) (! (=> (and (<= 0 i) (< i (plen p))) (and (<= 0 (oidx p (pat p i))) (<= (oidx p (pat p i)) i))) :pattern ((pat p i)))))
; the list a sorting function was made with; whether there was one
(declare-fun sord (Fn) Path)
(declare-fun sordnil (Fn) Bool)
; a text of JSON without its blanks
(declare-fun jcompact (Str) Str)
; literals of the language
(declare-fun golit (Str) Str)
(declare-fun sraw (Str) Bool) ; no backquote, carriage return, zero byte or byte order mark in it
(declare-fun sutf8 (Str) Bool)
(declare-fun sgoquote (Str) Str)
(assert (forall ((s Str)) (! (= (golit (sgoquote s)) s) :pattern ((sgoquote s)))))
(assert (forall ((s Str)) (! (=> (and (sutf8 s) (sraw s)) (= (golit (scat (scat {{`}} s) {{`}})) s)) :pattern ((scat (scat {{`}} s) {{`}})))))
