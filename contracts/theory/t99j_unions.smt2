; texts of union-typed objects
(declare-fun jrawok (Str) Bool) ; JSON
(declare-fun jraw (Str) Str) ; the same without spaces, as encoding/json writes raw values
(declare-fun refok (Str) Bool) ; an object, or null, whose member $ref, if any, is a pointer
(declare-fun refgot (Str) Bool) ; there is one
(declare-fun rftext (Str) Str) ; its text
(declare-fun reftext (Str) Str) ; the object with this reference
