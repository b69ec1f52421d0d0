; the URL part of a pointer (everything but the fragment), as net/url reads and writes it
(declare-sort URLV 0)
(declare-fun urlof (Str Str Str Str Str Str Str Bool Bool) URLV) ; scheme opaque user host path rawquery rawpath forcequery omithost
(declare-fun uinfo (Ref) Str) ; url.Userinfo objects never change
(declare-fun upart (Str) URLV)
(declare-fun ufrag (Str) Str)
(declare-fun urlok (Str) Bool)
(declare-fun urlstr (URLV) Str)
(declare-fun urlwf (URLV) Bool) ; values made by the parser
(declare-fun ufull (URLV Str Str) Str)
(declare-fun uhostname (Str) Str)
(define-fun pct ((f Str)) Str (srepl f {{%}} {{%25}}))
(define-fun ptrtext ((v URLV) (q Path)) Str (scat (urlstr v) (scat {{#}} (pct (ftext q)))))
; assumed of net/url: reading back what it wrote
(assert (forall ((v URLV) (f Str)) (! (let ((x (scat (urlstr v) (scat {{#}} (srepl f {{%}} {{%25}}))))) (=> (urlwf v) (and (urlok x) (= (upart x) v) (= (ufrag x) f)))) :pattern ((scat (urlstr v) (scat {{#}} (srepl f {{%}} {{%25}})))))))
(assert (forall ((s Str)) (! (urlwf (upart s)) :pattern ((upart s)))))
(assert (forall ((v URLV) (f Str) (rf Str)) (! (=> (urlwf v) (and (urlok (ufull v f rf)) (= (upart (ufull v f rf)) v))) :pattern ((ufull v f rf)))))
(assert (forall ((v URLV) (rf Str)) (! (= (ufull v {{}} rf) (urlstr v)) :pattern ((ufull v {{}} rf)))))
(assert (forall ((v URLV)) (! (=> (urlwf v) (and (= (ufull v {{}} {{}}) (urlstr v)) (= (upart (urlstr v)) v))) :pattern ((urlstr v)))))
(assert (and (= (upart {{}}) (urlof {{}} {{}} {{}} {{}} {{}} {{}} {{}} false false)) (= (uinfo 0) {{}}) (= (urlstr (upart {{}})) {{}})))
(assert (= (srepl {{}} {{%}} {{%25}}) {{}}))
; JSON strings
(declare-fun jstr (Str) Str)
(declare-fun jstrok (Str) Bool)
(declare-fun jstrval (Str) Str)
(declare-fun utf8ok (Str) Bool)
(assert (forall ((s Str)) (! (=> (utf8ok s) (and (jstrok (jstr s)) (= (jstrval (jstr s)) s))) :pattern ((jstr s)))))
