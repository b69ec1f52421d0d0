# C10: structs
extern types.Struct.NumFields(t) (r)
  pure
  ensures r == tynf(any(t))
extern types.Struct.Field(t, i) (r)
  pure
  ensures r == tyfield(any(t), i) && isvar(r)
extern types.Struct.Tag(t, i) (r)
  pure
  ensures r == tyraw(any(t), i)
extern types.object.Name(v) (r)
  pure
  ensures r == v.name
extern types.object.Type(v) (r)
  pure
  ensures r == v.typ
extern types.object.Exported(v) (r)
  pure
  ensures r == expname(v.name)
extern types.Var.Embedded(v) (r)
  pure
  ensures r == v.embedded
define isvar(v) = v != nil && vname(v) == v.name && vtype(v) == v.typ && vexp(v) == expname(v.name) && vemb(v) == v.embedded
define optf(p, raw, k) = (p != nil) == rhas(raw, k) && imp(p != nil, *p == pflt(rtext(raw, k)))
define opti(p, raw, k) = (p != nil) == rhas(raw, k) && imp(p != nil, *p == pint(rtext(raw, k)))
define optb(p, raw, k) = (p != nil) == rhas(raw, k) && imp(p != nil, *p == rbool(raw, k))
define istag1(tg, raw) = tg.Ignore == rig(raw) && tg.Name == rname(raw) && (tg.Inline != nil) == rinlset(raw) && imp(tg.Inline != nil, *tg.Inline == rinl(raw)) && optb(tg.Nullable, raw, "nullable") && tg.Required == rbool(raw, "required") && tg.ReadOnly == rbool(raw, "readonly") && tg.WriteOnly == rbool(raw, "writeonly") && tg.Deprecated == rbool(raw, "deprecated") && tg.UniqItems == rbool(raw, "unique") && tg.Pattern == rtext(raw, "pattern") && tg.Format == rtext(raw, "format") && tg.Type == rtext(raw, "type")
define istag2(tg, raw) = optf(tg.Min, raw, "min") && optf(tg.Max, raw, "max") && optf(tg.EMin, raw, "emin") && optf(tg.EMax, raw, "emax") && optf(tg.MulOf, raw, "mulof")
define istag3(tg, raw) = opti(tg.MinLen, raw, "minlen") && opti(tg.MaxLen, raw, "maxlen") && opti(tg.MinItems, raw, "minitems") && opti(tg.MaxItems, raw, "maxitems") && opti(tg.MinProps, raw, "minprops") && opti(tg.MaxProps, raw, "maxprops")
define istag(tg, raw) = istag1(tg, raw) && istag2(tg, raw) && istag3(tg, raw)
func stypes.castInlineStruct
  props C10
  requires isvar(t)
  ensures r1 == (is(tyst(t), *types.Struct) && ite(tg.Inline != nil, *tg.Inline, vemb(t)))
  ensures imp(r1, any(r0) == tyst(t))
define isfields(arr, n, F) = forall(i, int, imp(0 <= i && i < n, arr[i].field == ffld(F, i) && isvar(arr[i].field) && istag(arr[i].tag, ftag(F, i))), arr[i])
func stypes.collectStructFields
  props C10
  modifies tail(p)
  let F = cfs(any(t), tys(p))
  ensures imp(err == nil, len(arr) == flen(F) && isfields(arr, len(arr), F))
  ensures imp(cap(arr) > 0, fresh(rowid(arr)))
  loop 1:
    invariant tys(p) == ysnoc(old(tys(p)), any(t)) && N <= tynf(any(t))
    invariant err == nil
    invariant len(arr) == flen(cfl(any(t), tys(p), N)) && isfields(arr, len(arr), cfl(any(t), tys(p), N))
    invariant imp(cap(arr) > 0, fresh(rowid(arr)))
define fwant(f, raw) = ite(rtext(raw, "type") == "", tyunder(vtype(f)), any(rtext(raw, "type")))
define fprop1(q, f, raw, p) = q != nil && ghost.mt[q] == fwant(f, raw) && imp(rtext(raw, "type") == "", ghost.mp[q] == p)
define fprop2(q, raw) = istag(ghost.mg[q], raw)
define fprop3(q) = *q == ite(ghost.mv[q].Ref == nil, upd(ghost.mv[q], Deprecated, q.Deprecated, ReadOnly, q.ReadOnly, WriteOnly, q.WriteOnly, Format, q.Format, Nullable, q.Nullable), ghost.mv[q])
define fprop4(q, raw) = imp(ghost.mv[q].Ref == nil, q.Deprecated == rbool(raw, "deprecated") && q.ReadOnly == rbool(raw, "readonly") && q.WriteOnly == rbool(raw, "writeonly"))
define fprop5(q, raw) = imp(ghost.mv[q].Ref == nil, q.Format == ite(rtext(raw, "format") == "", ghost.mv[q].Format, rtext(raw, "format")) && q.Nullable == ite(rhas(raw, "nullable"), rbool(raw, "nullable"), ghost.mv[q].Nullable))
define keys(m, F, n) = forall(x, string, has(m, x) == (flast(F, n, x) >= 0), flast(F, n, x))
define all1(m, F, n, p) = forall(x, string, imp(has(m, x), fprop1(m[x], ffld(F, flast(F, n, x)), ftag(F, flast(F, n, x)), p)), flast(F, n, x))
define all2(m, F, n) = forall(x, string, imp(has(m, x), fprop2(m[x], ftag(F, flast(F, n, x)))), flast(F, n, x))
define all3(m, F, n) = forall(x, string, imp(has(m, x), fprop3(m[x])), flast(F, n, x))
define all4(m, F, n) = forall(x, string, imp(has(m, x), fprop4(m[x], ftag(F, flast(F, n, x)))), flast(F, n, x))
define all5(m, F, n) = forall(x, string, imp(has(m, x), fprop5(m[x], ftag(F, flast(F, n, x)))), flast(F, n, x))
func stypes.struct2schema
  props C10
  let F = cfs(any(t), ynil)
  let p = tys(tp)
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(err == nil, fresh(s) && *s == spec.Schema{Type: "object", Properties: s.Properties, Required: s.Required})
  ensures imp(err == nil, keys(s.Properties, F, flen(F)))
  ensures imp(err == nil, all1(s.Properties, F, flen(F), p))
  ensures imp(err == nil, all2(s.Properties, F, flen(F)))
  ensures imp(err == nil, all3(s.Properties, F, flen(F)))
  ensures imp(err == nil, all4(s.Properties, F, flen(F)))
  ensures imp(err == nil, all5(s.Properties, F, flen(F)))
  ensures imp(err == nil, pseq(row(s.Required), off(s.Required), len(s.Required)) == freq(F, flen(F)))
  ensures oldmade()
  loop 1:
    invariant err == nil
    invariant tys(tp) == p
    invariant *s == spec.Schema{Type: "object", Properties: s.Properties, Required: s.Required} && fresh(s) && fresh(s.Properties) && imp(cap(s.Required) > 0, fresh(rowid(s.Required)))
    invariant keys(s.Properties, F, N)
    invariant all1(s.Properties, F, N, p)
    invariant all2(s.Properties, F, N)
    invariant all3(s.Properties, F, N)
    invariant all4(s.Properties, F, N)
    invariant all5(s.Properties, F, N)
    invariant forall(x, string, imp(has(s.Properties, x), alive(s.Properties[x]) && s.Properties[x] != s), flast(F, N, x))
    invariant pseq(row(s.Required), off(s.Required), len(s.Required)) == freq(F, N)
    invariant oldmade()
    invariant isfields(fields, len(fields), F) && len(fields) == flen(F)
