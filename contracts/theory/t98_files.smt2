; files and their paths, as they are while the command runs
(declare-fun fsok (Str) Bool) ; can be read
(declare-fun fsdata (Str) Str)
(declare-fun fpext (Str) Str)
(declare-fun fpabs (Str) Bool)
(declare-fun fpjoin (Str Str) Str)
(declare-fun fpjoin3 (Str Str Str) Str)
(declare-fun fpdir (Str) Str)
(declare-fun wdir () Str)
(declare-fun yok (Str) Bool)
(declare-fun ydec (Str) Any)
; what a structure's text field takes from a decoded document, by the name of the field
(declare-fun cfield (Any Str) Str)
(assert (forall ((v Any) (k Str)) (! (=> (and (= (tag v) 1) (select (jdom (unbox1 v)) k) (= (tag (jget (unbox1 v) k)) 2)) (= (cfield v k) (unbox2 (jget (unbox1 v) k)))) :pattern ((cfield v k)))))
; an object survives the way through JSON with its keys and texts
(assert (forall ((v Any) (k Str)) (! (=> (and (= (tag v) 1) (not (= (unbox1 v) jmnil)) (jencok v)) (and (= (tag (jdec (jenc v))) 1) (= (select (jdom (unbox1 (jdec (jenc v)))) k) (select (jdom (unbox1 v)) k)) (=> (= (tag (jget (unbox1 v) k)) 2) (= (jget (unbox1 (jdec (jenc v))) k) (jget (unbox1 v) k))))) :pattern ((jget (unbox1 (jdec (jenc v))) k)) :pattern ((select (jdom (unbox1 (jdec (jenc v)))) k)))))
; an object stays an object when its keys are made texts
(assert (forall ((v Any)) (! (=> (= (tag v) 1) (= (tag (jnorm v)) 1)) :pattern ((jnorm v)))))
