# C09: slices, arrays, maps and pointers
ghost mt (Array Int Any)
ghost mp (Array Int Types)
ghost mg (Array Int T_tag.Tag)
ghost mv (Array Int T_spec.Schema)
ghost tm (Array Int TM)
ghost it (Array Int Any)
ghost ip (Array Int Types)
ghost ig (Array Int T_tag.Tag)
ghost iv (Array Int T_spec.Schema)
extern types.Type.Underlying(t) (r)
  pure
  ensures r == tyunder(t) && tyel(r) == is(r, stypes.elementer)
  why go/types: what a type's parts are does not change
extern stypes.elementer.Elem(t) (r)
  pure
  ensures r == tyelem(t)
extern stypes.elementer.String(t) (r)
  pure
extern types.Type.String(t) (r)
  pure
extern types.Array.Len(t) (r)
  pure
  ensures r == tylen(any(t))
extern types.Identical(a, b) (r)
  pure
  ensures r == tyident(a, b)
define tys(s) = yseq(row(s), off(s), len(s))
func stypes.path.index
  props C09 C11
  ensures result == -1 || 0 <= result && result < len(tp) && tyident(tp[result], t)
  ensures imp(result == -1, forall(i, int, imp(0 <= i && i < len(tp), !tyident(tp[i], t)), tp[i]))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < N, !tyident(tp[i], t)), tp[i])
func stypes.path.has
  props C09 C11
  ensures result == yhas(tys(tp), t)
define nullof(tg, d) = ite(tg.Nullable == nil, d, *tg.Nullable)
define made(s, t, p, tg) = s != nil && ghost.mt[s] == t && ghost.mp[s] == p && ghost.mg[s] == tg
define part(s, t, p, tg) = made(s, t, p, tg) && *s == ghost.mv[s]
define oldmade() = forall(z, *spec.Schema, imp(!fresh(z), ghost.mt[z] == old(ghost.mt[z]) && ghost.mp[z] == old(ghost.mp[z]) && ghost.mg[z] == old(ghost.mg[z]) && ghost.mv[z] == old(ghost.mv[z])), ghost.mt[z])
define slicelike(s, tg, mx, nul) = *s == spec.Schema{Type: "array", Items: s.Items, Nullable: nul, UniqueItems: tg.UniqItems, MinItems: s.MinItems, MaxItems: s.MaxItems} && sameval(s.MinItems, tg.MinItems) && mx
define asslice(s, u, p, tg) = slicelike(s, tg, sameval(s.MaxItems, tg.MaxItems), nullof(tg, true)) && s.Items != s && part(s.Items, tyelem(u), p, tg)
define asarray(s, u, p, tg) = slicelike(s, tg, ite(tylen(u) > 0, s.MaxItems != nil && *s.MaxItems == tylen(u), sameval(s.MaxItems, tg.MaxItems)), nullof(tg, false)) && s.Items != s && part(s.Items, tyelem(u), p, tg)
define asmap(s, u, p, tg) = *s == spec.Schema{Type: "object", AdditionalProperties: s.AdditionalProperties, Nullable: nullof(tg, true), MinProperties: s.MinProperties, MaxProperties: s.MaxProperties} && sameval(s.MinProperties, tg.MinProps) && sameval(s.MaxProperties, tg.MaxProps) && s.AdditionalProperties != s && part(s.AdditionalProperties, tyelem(u), p, tg)
extern typeutil.Map.At(m, key) (r)
  ensures r == ite(m.table == nil, nil, tmget(ghost.tm[m.table], key))
extern sort.Sort(data)
  requires [C09 C10 C11] is(data, stypes.points)
  modifies rows(stypes.points)
define pless(p, q) = len(p.Pointer.Fragment) < len(q.Pointer.Fragment) || len(p.Pointer.Fragment) == len(q.Pointer.Fragment) && ptext(p.Pointer) < ptext(q.Pointer)
extern sort.Sort@stypes.points(data)
  modifies elems(as(data, stypes.points))
  let s = as(data, stypes.points)
  ensures [C20] forall(i, int, imp(0 <= i && i < len(s), exists(j, int, 0 <= j && j < len(s) && s[i] == old(s[j]))), s[i])
  ensures [C20] forall(j, int, imp(0 <= j && j < len(s), exists(i, int, 0 <= i && i < len(s) && s[i] == old(s[j]), s[i])), old(s[j]))
  ensures [C20] forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(s), !pless(s[j], s[i])), trig(s[i], s[j])))
  why package sort: the same elements in the order of Less, given what Len, Less and Swap are proved to do and that pless is a strict order
func stypes.points.Len
  props C20
  ensures result == len(s)
func stypes.points.Swap
  props C20
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  modifies elems(s)
  ensures s[i] == old(s[j]) && s[j] == old(s[i])
  ensures forall(k, int, imp(0 <= k && k < len(s) && k != i && k != j, s[k] == old(s[k])), s[k])
func stypes.points.Less
  props C20
  requires 0 <= i && i < len(s) && 0 <= j && j < len(s)
  ensures result == pless(s[i], s[j])
extern types.Pointer.Elem(t) (r)
  pure
  ensures r == tyelem(any(t))
extern types.Basic.Kind(t) (r)
  pure
  ensures r == tykind(any(t))
define ptat(m, t) = tmget(ghost.tm[m.m.table], t)
define ptin(m, t) = t != nil && m.m.table != nil && is(ptat(m, t), stypes.points) && len(as(ptat(m, t), stypes.points)) > 0
define ptfirst(m, t) = as(ptat(m, t), stypes.points)[0]
func stypes.pointmap.pick
  props C09 C11 C20
  modifies rows(stypes.points)
  ensures r1 == ptin(tp, t)
  ensures imp(r1, r0 == ptfirst(tp, t))
  let m = as(ptat(tp, t), stypes.points)
  ensures [C20] imp(r1, exists(j, int, 0 <= j && j < len(m) && r0 == old(m[j])))
  ensures [C20] imp(r1, forall(j, int, imp(0 <= j && j < len(m), !pless(old(m[j]), r0)), old(m[j])))
define only(v) = v == spec.Schema{Refable: v.Refable} && v.Ref != nil
define refval(v, q) = ite(has(stypes.refStdMapping, ptext(q)), v == stypes.refStdMapping[ptext(q)], only(v) && *v.Ref == q)
define asref(v, m, u) = ptin(m, u) && refval(v, ptfirst(m, u).Pointer)
func stypes.reference2schema
  props C09 C10
  modifies rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv
  ensures [C09] (err == nil) == ptin(m, t)
  ensures [C09] imp(err == nil, asref(*s, m, t))
  ensures imp(err == nil, fresh(s))
  ensures imp(err == nil, part(s, t, tys(tp), tg))
  ensures oldmade()
  sets mt = ite(err == nil, store(ghost.mt, s, t), ghost.mt)
  sets mp = ite(err == nil, store(ghost.mp, s, tys(tp)), ghost.mp)
  sets mg = ite(err == nil, store(ghost.mg, s, tg), ghost.mg)
  sets mv = ite(err == nil, store(ghost.mv, s, *s), ghost.mv)
func stypes.typeElement2schema
  props C09
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(tyident(any(t), tyunder(tyelem(any(t)))), err != nil)
  ensures imp(err == nil, part(s, tyelem(any(t)), old(tys(tp)), tg) && fresh(s))
  ensures oldmade()
func stypes.slice2schema
  props C09
  let p = tys(tp)
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(tyident(any(t), tyunder(tyelem(any(t)))), err != nil)
  ensures imp(err == nil, fresh(s) && asslice(s, any(t), p, tg))
  ensures oldmade()
func stypes.array2schema
  props C09
  let p = tys(tp)
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(tyident(any(t), tyunder(tyelem(any(t)))), err != nil)
  ensures imp(err == nil, fresh(s) && asarray(s, any(t), p, tg))
  ensures oldmade()
func stypes.map2schema
  props C09
  let p = tys(tp)
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(tyident(any(t), tyunder(tyelem(any(t)))), err != nil)
  ensures imp(err == nil, fresh(s) && asmap(s, any(t), p, tg))
  ensures oldmade()
define ptr1(s, e, p, tg, mt, mp, mg, mv) = mt[s] == e && mp[s] == p && mg[s] == tg && *s == upd(mv[s], Nullable, nullof(tg, true)) && (mv[s].Ref == nil || !nullof(tg, true))
define ptr2(s, e, p, tg) = nullof(tg, true) && *s == spec.Schema{OneOf: s.OneOf} && len(s.OneOf) == 2 && made(s.OneOf[0], e, p, tg) && *s.OneOf[0] == upd(ghost.mv[s.OneOf[0]], Nullable, false) && ghost.mv[s.OneOf[0]].Ref != nil && *s.OneOf[1] == spec.Schema{Type: "object", Nullable: true}
func stypes.pointer2schema
  props C09
  let p = tys(tp)
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(tyident(any(t), tyunder(tyelem(any(t)))), err != nil)
  ensures imp(err == nil, fresh(s) && (ptr1(s, tyelem(any(t)), p, tg, ghost.mt, ghost.mp, ghost.mg, ghost.mv) || ptr2(s, tyelem(any(t)), p, tg)))
  ensures oldmade()
func stypes.type2schema
  props C09
  let u = tyunder(t)
  let p = tys(tp)
  let q = ysnoc(tys(tp), tyunder(t))
  modifies tail(tp), rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(err == nil, fresh(r0) && part(r0, t, p, tg))
  ensures oldmade()
  ensures [C09] imp(err == nil && yhas(p, u), asref(*r0, m, u))
  ensures [C09] imp(err == nil && !yhas(p, u), is(u, *types.Struct) || is(u, *types.Array) || is(u, *types.Slice) || is(u, *types.Map) || is(u, *types.Basic) || is(u, *types.Pointer))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Struct) && ylen(p) > 0, asref(*r0, m, u))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Slice), asslice(r0, u, q, tg))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Array), asarray(r0, u, q, tg))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Map), asmap(r0, u, q, tg))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Basic), asbasic(r0, tykind(u), tg))
  ensures [C09] imp(err == nil && !yhas(p, u) && is(u, *types.Pointer), ptr1(r0, tyelem(u), q, tg, ghost.it, ghost.ip, ghost.ig, ghost.iv) || ptr2(r0, tyelem(u), q, tg))
  ensures [C09] imp(!yhas(p, u) && (is(u, *types.Slice) || is(u, *types.Array) || is(u, *types.Map) || is(u, *types.Pointer)) && tyident(u, tyunder(tyelem(u))), err != nil)
  sets it = ite(err == nil, ghost.mt, old(ghost.it))
  sets ip = ite(err == nil, ghost.mp, old(ghost.ip))
  sets ig = ite(err == nil, ghost.mg, old(ghost.ig))
  sets iv = ite(err == nil, ghost.mv, old(ghost.iv))
  sets mt = ite(err == nil, store(ghost.mt, r0, t), ghost.mt)
  sets mp = ite(err == nil, store(ghost.mp, r0, old(tys(tp))), ghost.mp)
  sets mg = ite(err == nil, store(ghost.mg, r0, tg), ghost.mg)
  sets mv = ite(err == nil, store(ghost.mv, r0, *r0), ghost.mv)
