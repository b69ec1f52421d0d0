# C08: basic types and the constraints of a tag
define kuint32(k) = k == types.Uint || k == types.Uint8 || k == types.Uint16 || k == types.Uint32
define kint32(k) = k == types.Int || k == types.Int8 || k == types.Int16 || k == types.Int32
define kunsigned(k) = kuint32(k) || k == types.Uint64
define kinteger(k) = kunsigned(k) || kint32(k) || k == types.Int64
define kfloat(k) = k == types.Float32 || k == types.Float64
define knumeric(k) = kinteger(k) || kfloat(k)
define ksupported(k) = knumeric(k) || k == types.Bool || k == types.String
define ktype(k) = ite(kfloat(k), "number", ite(kinteger(k), "integer", ite(k == types.Bool, "boolean", "string")))
define kformat(k) = ite(k == types.Float32, "float", ite(k == types.Float64, "double", ite(k == types.Int64 || k == types.Uint64, "int64", ite(kinteger(k), "int32", ""))))
define sameval(p, q) = (p == nil) == (q == nil) && imp(p != nil, *p == *q)
define numeric(s, tg) = sameval(s.Maximum, ite(tg.EMax != nil, tg.EMax, tg.Max)) && sameval(s.MultipleOf, tg.MulOf) && s.ExclusiveMaximum == (tg.EMax != nil) && s.ExclusiveMinimum == (tg.EMin != nil)
define atleast(s, tg, u) = ite(tg.EMin != nil, sameval(s.Minimum, tg.EMin), ite(tg.Min != nil, sameval(s.Minimum, tg.Min), ite(u, s.Minimum != nil && *s.Minimum == 0.0, s.Minimum == nil)))
define onlynum(s, ty, f) = *s == spec.Schema{Type: ty, Format: f, Minimum: s.Minimum, ExclusiveMinimum: s.ExclusiveMinimum, Maximum: s.Maximum, ExclusiveMaximum: s.ExclusiveMaximum, MultipleOf: s.MultipleOf}
define asnumber(s, tg, ty, f, u) = onlynum(s, ty, f) && numeric(s, tg) && atleast(s, tg, u)
define asstring(s, tg, f) = *s == spec.Schema{Type: "string", Format: f, MinLength: s.MinLength, MaxLength: s.MaxLength, Pattern: tg.Pattern} && sameval(s.MinLength, tg.MinLen) && sameval(s.MaxLength, tg.MaxLen)
define asbasic(s, k, tg) = imp(knumeric(k), asnumber(s, tg, ktype(k), kformat(k), kunsigned(k))) && imp(k == types.Bool, *s == spec.Schema{Type: "boolean"}) && imp(k == types.String, asstring(s, tg, ""))
func stypes.basic2schema
  props C08
  ensures (err == nil) == ksupported(t)
  ensures imp(err == nil, fresh(s) && asbasic(s, t, tg))
extern strings.Trim(s, cut) (r)
  pure
  ensures r == strim(s, cut)
define kname(n) = ite(n == "string", types.String, ite(n == "float32" || n == "float", types.Float32, ite(n == "float64" || n == "double", types.Float64, ite(n == "uint", types.Uint, ite(n == "uint8", types.Uint8, ite(n == "uint16", types.Uint16, ite(n == "uint32", types.Uint32, ite(n == "uint64", types.Uint64, ite(n == "int", types.Int, ite(n == "int8", types.Int8, ite(n == "int16", types.Int16, ite(n == "int32" || n == "integer", types.Int32, ite(n == "int64", types.Int64, ite(n == "bool", types.Bool, types.Invalid))))))))))))))
define fname(n) = ite(n == "base64", "binary", ite(n == "uuid", "uuid", ite(n == "password", "password", "")))
func stypes.basicString2schema
  props C08 C10
  let n = strim(t, " ")
  ensures [C08] (err == nil) == (kname(n) != types.Invalid || fname(n) != "" || n == "number" || n == "object")
  ensures imp(err == nil, fresh(s))
  ensures [C08] imp(kname(n) != types.Invalid, asbasic(s, kname(n), tg))
  ensures [C08] imp(fname(n) != "", asstring(s, tg, fname(n)))
  ensures [C08] imp(n == "number", asnumber(s, tg, "number", "", false))
  ensures [C08] imp(n == "object", *s == spec.Schema{Type: "object"})
  ensures imp(err == nil, ghost.mt[s] == any(t) && ghost.mg[s] == tg && *s == ghost.mv[s])
  ensures oldmade()
  modifies ghost.mt, ghost.mp, ghost.mg, ghost.mv
  sets mt = ite(err == nil, store(ghost.mt, s, any(t)), ghost.mt)
  sets mp = ite(err == nil, store(ghost.mp, s, ynil), ghost.mp)
  sets mg = ite(err == nil, store(ghost.mg, s, tg), ghost.mg)
  sets mv = ite(err == nil, store(ghost.mv, s, *s), ghost.mv)
