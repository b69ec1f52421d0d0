; struct tags: the value of a key, the name and the options in a value
(declare-fun tgok (Str) Bool)
(declare-fun tghas (Str Str) Bool)
(declare-fun tgval (Str Str) Str)
(declare-fun tpname (Str) Str)
(declare-fun tphas (Str Str) Bool)
(declare-fun tpopt (Str Str) Str)
; texts read as numbers and booleans
(declare-fun pintok (Str) Bool)
(declare-fun pint (Str) Int)
(declare-fun pfltok (Str) Bool)
(declare-fun pflt (Str) F64)
(declare-fun pboolok (Str) Bool)
(declare-fun pbool (Str) Bool)
; the text parsed into the tags a pointer stands for, and the value of one tag
(declare-fun tgtext (Ref) Str)
(declare-fun tgone (Ref) Str)
