; values turned into documents
(declare-fun jenc (Any) Str)
(declare-fun jencok (Any) Bool)
(declare-fun jdec (Str) Any)
(declare-fun jdecok (Str) Bool)
(assert (forall ((v Any)) (! (=> (jencok v) (jdecok (jenc v))) :pattern ((jenc v)))))
(assert (forall ((s Str)) (! (and (jencok (box2 s)) (= (jenc (box2 s)) (jstr s))) :pattern ((jenc (box2 s))) :pattern ((jencok (box2 s))))))
(declare-fun jnorm (Any) Any) ; mmap
(declare-fun jdoc (Any) Bool) ; made of what the JSON decoder makes
(declare-fun jowned (Any) Bool) ; made by the decoder for the document at hand: nothing else refers to it
(define-fun jcl ((v Any)) Any (jdec (jenc (jnorm v))))
(assert (forall ((v Any)) (! (=> (jdoc v) (and (= (jnorm v) v) (jencok v) (= (jdec (jenc v)) v))) :pattern ((jnorm v)))))
(assert (forall ((s Str)) (! (jdoc (jdec s)) :pattern ((jdec s)))))
(assert (forall ((m JM) (k Str)) (! (and (=> (jdoc (box1 m)) (jdoc (jget m k))) (=> (jowned (box1 m)) (jowned (jget m k)))) :pattern ((jget m k) (jdoc (box1 m))) :pattern ((jget m k) (jowned (box1 m))))))
(assert (forall ((v Any)) (! (=> (jdoc v) (and (<= (tag v) 6) (not (= (tag v) 5)))) :pattern ((jdoc v)))))
(assert (and (jdoc anil) (jowned anil)))
; an object of documents is a document
(declare-fun jbadk (JM) Str)
(assert (forall ((m JM)) (! (=> (jdoc (box1 m)) (not (= m jmnil))) :pattern ((jdoc (box1 m))))))
(assert (forall ((m JM)) (! (=> (and (not (= m jmnil)) (=> (select (jdom m) (jbadk m)) (jdoc (jget m (jbadk m))))) (jdoc (box1 m))) :pattern ((jdoc (box1 m))))))
