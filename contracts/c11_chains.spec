# C11: every exported chain into a type is registered under the pointer spelling it
ghost rg RG
extern types.Named.Obj(t) (r)
  pure
  ensures r != nil && any(r) == tnobj(any(t)) && (r.pkg != nil) == tnpkg(any(t))
extern types.object.Pkg(o) (r)
  pure
  ensures r == o.pkg
extern types.Object.Name(o) (r)
  pure
  ensures r == oname(o)
extern types.Object.Pkg(o) (r)
  pure
  ensures r == opkg(o)
extern types.Object.Type(o) (r)
  pure
  ensures r == otype(o)
define at(x, U, f) = urlv(x.Pointer.URL) == U && seq(x.Pointer.Fragment) == f
func stypes.newPoint
  props C11
  ensures at(result, ourl(root), ofrag(root))
func stypes.withDescendant
  props C11
  requires urlwf(urlv(ptr.Pointer.URL))
  ensures at(result, urlv(ptr.Pointer.URL), fstep(seq(ptr.Pointer.Fragment), name))
func stypes.withArray
  props C11
  requires urlwf(urlv(ptr.Pointer.URL))
  ensures at(result, urlv(ptr.Pointer.URL), fstep(seq(ptr.Pointer.Fragment), "[]"))
func stypes.withPtr
  props C11
  requires urlwf(urlv(ptr.Pointer.URL))
  ensures at(result, urlv(ptr.Pointer.URL), fstep(seq(ptr.Pointer.Fragment), "*"))
func stypes.path.visit
  props C09 C10 C11
  modifies tail(tp)
  ensures visited == yhas(tys(tp), t)
  ensures imp(visited, p == tp)
  ensures imp(!visited, tys(p) == ysnoc(tys(tp), t))
  ensures imp(!visited, fresh(p) || rowid(p) == rowid(tp) && off(p) == off(tp) && len(p) == len(tp) + 1 && cap(p) == cap(tp) && len(tp) < cap(tp))
extern typeutil.Map.Set(m, key, value) (prev)
  modifies *m, ghost.tm
  ensures m.table != nil
  ensures forall(k, any, tmget(ghost.tm[m.table], k) == ite(tyident(key, k), value, old(ite(m.table == nil, nil, tmget(ghost.tm[m.table], k)))), tmget(ghost.tm[m.table], k))
func stypes.point.equal
  props C11
  ensures result == (ptext(p.Pointer) == ptext(p2.Pointer))
func stypes.pointmap.append
  props C11 C20
  trusted
  modifies *tp, ghost.tm, ghost.rg, rows(stypes.points)
  sets rg = rgadd(old(ghost.rg), t, ptext(p1.Pointer))
func stypes.walk
  props C11 C20
  requires urlwf(urlv(r.Pointer.URL))
  modifies tail(p), *m, ghost.tm, ghost.rg, rows(stypes.points)
  let U = urlv(r.Pointer.URL)
  let f = seq(r.Pointer.Fragment)
  let P = tys(p)
  let T = tyunder(t)
  let R = ghost.rg
  ensures err == nil
  ensures imp(unf(t, P, U, f), forall(u, any, forall(q, string, rghas(ghost.rg, u, q) == (rghas(R, u, q) || ch(t, P, U, f, u, q)), trig(rghas(ghost.rg, u, q)))))
  loop 1:
    invariant 0 <= i && i <= tynf(T) && (cap(next) == 0 || fresh(next))
    invariant len(next) == vcount(T, i)
    invariant forall(k, int, imp(0 <= k && k < len(next), 0 <= vinv(T, k) && vinv(T, k) < i && vexp(tyfield(T, vinv(T, k))) && next[k].t == vtype(tyfield(T, vinv(T, k))) && at(next[k].p, U, fstep(f, vname(tyfield(T, vinv(T, k)))))), next[k])
    invariant forall(j, int, imp(0 <= j && j < i && vexp(tyfield(T, j)), 0 <= vcount(T, j) && vcount(T, j) < len(next) && vinv(T, vcount(T, j)) == j), tyfield(T, j))
  loop 2:
    invariant err == nil && len(next) == nkid(T) && tys(p) == ysnoc(P, T)
    invariant forall(k, int, imp(0 <= k && k < len(next), next[k].t == kid(T, k) && at(next[k].p, U, kidf(T, f, k))), next[k])
    invariant forall(u, any, forall(q, string, rghas(ghost.rg, u, q) == (rghas(R, u, q) || tyident(T, u) && q == ptrtext(U, f) || chs(T, ysnoc(P, T), U, f, u, q, N)), trig(rghas(ghost.rg, u, q))))
  hint e: e.t == kid(T, N) && at(e.p, U, kidf(T, f, N)) && N < nkid(T)
  hint named: tys(p) == ysnoc(P, T)
  hint np: any(named) == e.t && is(e.t, *types.Named) && at(np, ourl(tnobj(e.t)), ofrag(tnobj(e.t))) && tnpkg(e.t)
func stypes.collectTypes
  props C11 C20
  modifies *m, ghost.tm, ghost.rg, rows(stypes.points)
  let R = ghost.rg
  ensures err == nil
  ensures forall(u, any, forall(q, string, rghas(ghost.rg, u, q) == (rghas(R, u, q) || cho(t, u, q)), trig(rghas(ghost.rg, u, q))))
extern types.Package.Scope(p) (r)
  pure
  ensures r == scopeof(p)
extern types.Scope.Lookup(s, name) (r)
  pure
  ensures r == sclook(s, name)
  why go/types: an object is found under its own name
define goptr(p) = p.URL.Scheme == "go" && len(p.Fragment) > 0
define wanted(p, pkg) = goptr(p) && tpkg(pkg.Types) == uhostname(p.URL.Host) + p.URL.Path && sclook(scopeof(pkg.Types), p.Fragment[0]) != nil
func stypes.Scanner.Scan
  props C11 C20
  modifies *r, ghost.tm, ghost.rg, rows(stypes.points)
  let R = ghost.rg
  let S = scopeof(pkg.Types)
  ensures err == nil && r.Pointers == old(r.Pointers)
  ensures forall(u, any, forall(q, string, imp(rghas(R, u, q), rghas(ghost.rg, u, q)), trig(rghas(R, u, q))))
  ensures forall(u, any, forall(q, string, imp(rghas(ghost.rg, u, q), rghas(R, u, q) || chp(S, u, q)), trig(rghas(ghost.rg, u, q))))
  ensures forall(k, string, forall(u, any, forall(q, string, imp(has(r.Pointers, k) && wanted(r.Pointers[k], pkg) && cho(sclook(S, r.Pointers[k].Fragment[0]), u, q), rghas(ghost.rg, u, q)), trig(has(r.Pointers, k), rghas(ghost.rg, u, q)))))
  loop 1:
    invariant r.Pointers == old(r.Pointers)
    invariant forall(u, any, forall(q, string, imp(rghas(R, u, q), rghas(ghost.rg, u, q)), trig(rghas(R, u, q))))
    invariant forall(u, any, forall(q, string, imp(rghas(ghost.rg, u, q), rghas(R, u, q) || chp(S, u, q)), trig(rghas(ghost.rg, u, q))))
    invariant forall(k, string, forall(u, any, forall(q, string, imp(seen(k) && has(r.Pointers, k) && wanted(r.Pointers[k], pkg) && cho(sclook(S, r.Pointers[k].Fragment[0]), u, q), rghas(ghost.rg, u, q)), trig(has(r.Pointers, k), rghas(ghost.rg, u, q)))))
func stypes.pointmap.findType
  props C11 C20
  trusted
  ensures imp(r1, r0 != nil && rghas(ghost.rg, r0, ptext(p1)))
  ensures imp(!r1, r0 == nil && forall(u, any, !rghas(ghost.rg, u, ptext(p1)), rghas(ghost.rg, u, ptext(p1))))
func stypes.Scanner.Resolve
  props C11
  modifies rows(stypes.points), ghost.mt, ghost.mp, ghost.mg, ghost.mv, ghost.it, ghost.ip, ghost.ig, ghost.iv
  ensures imp(err == nil, rghas(ghost.rg, ghost.mt[r0], ptext(ptr)) && ghost.mp[r0] == ynil)
  ensures imp(forall(u, any, !rghas(ghost.rg, u, ptext(ptr)), rghas(ghost.rg, u, ptext(ptr))), err != nil && r0 == nil)
