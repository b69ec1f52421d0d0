# C15: operations of a document and their defaults
extern gabs.Container.ChildrenMap(g) (r)
  ensures r != nil && fresh(r) && forall(k, string, has(r, k) == jdomv(gd(g), k), has(r, k))
  ensures forall(k, string, imp(has(r, k), r[k] != nil && fresh(r[k]) && r[k].object == jstep(gd(g), k)), r[k])
  ensures forall(k, string, forall(k2, string, imp(has(r, k) && has(r, k2) && k != k2, r[k] != r[k2]), trig(r[k], r[k2])))
  why gabs makes a container for every value of an object
extern sort.Strings(a)
  modifies elems(a)
  ensures imp(puniq(old(seq(a))), seq(a) == skeys(pset(old(seq(a)))) && puniq(seq(a)) && pset(seq(a)) == pset(old(seq(a))))
  why package sort: the sorted sequence of a set is unique
func container.Container.ChildrenMap
  props C15 C20
  ensures (err == nil) == (docmap(cdata(c)) || cdata(c) == nil)
  ensures imp(err == nil, r0 != nil && fresh(r0) && forall(k, string, has(r0, k) == jdomv(cdata(c), k), has(r0, k)))
  ensures imp(err == nil, forall(k, string, imp(has(r0, k), r0[k].c != nil && fresh(r0[k].c) && r0[k].c.object == jstep(cdata(c), k)), r0[k]))
  ensures imp(err == nil, forall(k, string, forall(k2, string, imp(has(r0, k) && has(r0, k2) && k != k2, r0[k].c != r0[k2].c), trig(r0[k], r0[k2]))))
  loop 1:
    invariant x != nil && fresh(x)
    invariant forall(k, string, imp(seen(k), has(x, k) && jdomv(cdata(c), k)), has(x, k), seen(k))
    invariant forall(k, string, imp(!seen(k), !has(x, k)), has(x, k))
    invariant forall(k, string, imp(has(x, k), x[k].c != nil && fresh(x[k].c) && x[k].c.object == jstep(cdata(c), k)), x[k])
    invariant forall(k, string, imp(has(x, k), has(ranged(), k) && x[k].c == ranged()[k]), x[k])
define isop(m) = slower(m) == "get" || slower(m) == "put" || slower(m) == "post" || slower(m) == "delete" || slower(m) == "options" || slower(m) == "head" || slower(m) == "patch" || slower(m) == "trace"
func oapi.isMethod
  props C15 C20
  ensures result == isop(key)
define opat(D, p, m) = jstep(jstep(jstep(D, "paths"), p), m)
define hasop(D, p, m) = isop(m) && jdomv(jstep(jstep(D, "paths"), p), m) && jdomv(jstep(D, "paths"), p)
define opkey(p, m) = psnoc(psnoc(psnoc(pnil, "paths"), p), m)
define isfp(x, D) = hasop(D, x.Path, x.Method) && x.Key == dtext(opkey(x.Path, x.Method)) && x.Operation.c != nil && x.Operation.c.object == opat(D, x.Path, x.Method)
func oapi.Paths
  props C15 C20
  requires cnt.c != nil && docmap(cnt.c.object)
  let D = cnt.c.object
  ensures imp(err == nil, docmap(jstep(D, "paths")) || jstep(D, "paths") == nil)
  ensures imp(err == nil, forall(i, int, imp(0 <= i && i < len(ff), isfp(ff[i], D) && fresh(ff[i].Operation.c)), ff[i]))
  ensures imp(err == nil, forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(ff), ff[i].Operation.c != ff[j].Operation.c && (ff[i].Path != ff[j].Path || ff[i].Method != ff[j].Method)), trig(ff[i], ff[j]))))
  ensures imp(err == nil, forall(p, string, forall(m, string, imp(hasop(D, p, m), exists(i, int, 0 <= i && i < len(ff) && ff[i].Path == p && ff[i].Method == m, ff[i])))))
  hint ff: len(ff) > 0 && ff[len(ff)-1].Path == path && ff[len(ff)-1].Method == m
  hint call container.SliceToDotPath: r0 == dtext(opkey(path, m))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < len(ff), isfp(ff[i], D) && fresh(ff[i].Operation.c) && alive(ff[i].Operation.c) && seen(ff[i].Path)), ff[i])
    invariant forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(ff), ff[i].Operation.c != ff[j].Operation.c && (ff[i].Path != ff[j].Path || ff[i].Method != ff[j].Method)), trig(ff[i], ff[j])))
    invariant forall(p, string, forall(m, string, imp(seen(p) && hasop(D, p, m), exists(i, int, 0 <= i && i < len(ff) && ff[i].Path == p && ff[i].Method == m, ff[i]))))
    invariant forall(p, string, imp(seen(p), has(ranged(), p)))
  loop 2:
    invariant forall(i, int, forall(k, string, imp(0 <= i && i < len(ff) && ff[i].Path != path && has(mx, k), mx[k].c != ff[i].Operation.c), trig(ff[i], mx[k])))
    invariant forall(i, int, imp(0 <= i && i < len(ff), isfp(ff[i], D) && fresh(ff[i].Operation.c) && alive(ff[i].Operation.c) && seen(ff[i].Path, 1) && ite(ff[i].Path == path, seen(ff[i].Method) && ff[i].Operation.c == mx[ff[i].Method].c, true)), ff[i])
    invariant forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(ff), ff[i].Operation.c != ff[j].Operation.c && (ff[i].Path != ff[j].Path || ff[i].Method != ff[j].Method)), trig(ff[i], ff[j])))
    invariant forall(p, string, forall(m, string, imp(seen(p, 1) && (p != path || seen(m)) && hasop(D, p, m), exists(i, int, 0 <= i && i < len(ff) && ff[i].Path == p && ff[i].Method == m, ff[i]))))
define hits(pat, x) = routem(seq(route.methods), pat, x.Method, x.Path)
define sameop(x, y) = x.Method == y.Method && x.Path == y.Path && x.Key == y.Key && x.Operation.c == y.Operation.c
func oapi.FlattenPaths.Match
  props C15 C20
  requires !ghost.held
  modifies entries(route.regexen), ghost.held
  ensures !ghost.held
  ensures imp(err == nil, forall(j, int, imp(0 <= j && j < len(xx), hits(pattern, xx[j]) && exists(i, int, 0 <= i && i < len(fp) && sameop(xx[j], fp[i]), fp[i])), xx[j]))
  ensures imp(err == nil, forall(i, int, imp(0 <= i && i < len(fp) && hits(pattern, fp[i]), exists(j, int, 0 <= j && j < len(xx) && sameop(xx[j], fp[i]), xx[j])), fp[i]))
  ensures imp(err == nil && forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(fp), fp[i].Operation.c != fp[j].Operation.c), trig(fp[i], fp[j]))), forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(xx), xx[i].Operation.c != xx[j].Operation.c), trig(xx[i], xx[j]))))
  loop 1:
    invariant !ghost.held
    invariant forall(j, int, imp(0 <= j && j < len(xx), hits(pattern, xx[j]) && exists(i, int, 0 <= i && i < N && sameop(xx[j], fp[i]), fp[i])), xx[j])
    invariant forall(i, int, imp(0 <= i && i < N && hits(pattern, fp[i]), exists(j, int, 0 <= j && j < len(xx) && sameop(xx[j], fp[i]), xx[j])), fp[i])
    invariant imp(forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(fp), fp[i].Operation.c != fp[j].Operation.c), trig(fp[i], fp[j]))), forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(xx), xx[i].Operation.c != xx[j].Operation.c), trig(xx[i], xx[j]))))
  hint xx: len(xx) > 0 && sameop(xx[len(xx)-1], fp[N])
define filled(f, ops, x, q, D) = dfold(f, seq(route.methods), ops, x.Method, x.Path, q, opat(D, x.Path, x.Method))
define others(D, D1) = forall(k, string, imp(k != "paths", jdomv(D1, k) == jdomv(D, k) && jstep(D1, k) == jstep(D, k)), jstep(D1, k)) && forall(p, string, jdomv(jstep(D1, "paths"), p) == jdomv(jstep(D, "paths"), p), jdomv(jstep(D1, "paths"), p)) && forall(p, string, forall(m, string, jdomv(jstep(jstep(D1, "paths"), p), m) == jdomv(jstep(jstep(D, "paths"), p), m), jdomv(jstep(jstep(D1, "paths"), p), m))) && forall(p, string, forall(m, string, imp(!hasop(D, p, m), opat(D1, p, m) == opat(D, p, m)), opat(D1, p, m)))
func oapi.SetPathsDefaults
  props C15 C20
  requires !ghost.held && cnt.c != nil && docmap(cnt.c.object) && jdoc(cnt.c.object)
  let D = cnt.c.object
  requires forall(p, string, forall(m, string, imp(hasop(D, p, m), docmap(opat(D, p, m)))))
  requires forall(k, string, imp(has(defops, k), dop(defops, k) == jcl(any(defops[k])) && docmap(dop(defops, k))), defops[k])
  modifies *(cnt.c), entries(route.regexen), ghost.held
  ensures imp(err == nil, forall(p, string, forall(m, string, imp(hasop(D, p, m), opat(cnt.c.object, p, m) == dfold(container.MergeDefault, seq(route.methods), defops, m, p, skeys(dom(defops)), opat(D, p, m))))))
  ensures imp(err == nil, others(D, cnt.c.object))
  loop 1:
    invariant pset(seq(patterns)) == seenset() && puniq(seq(patterns))
    invariant fresh(rowid(patterns))
    invariant forall(k, string, imp(seen(k), has(ranged(), k)), seen(k))
  loop 2:
    invariant seq(patterns) == skeys(dom(defops))
    invariant !ghost.held && docmap(cnt.c.object) && jdoc(cnt.c.object) && mpicks(container.MergeDefault) && mnofail(container.MergeDefault)
    invariant forall(i, int, imp(0 <= i && i < len(paths), isfp(paths[i], cnt.c.object) && hasop(D, paths[i].Path, paths[i].Method)), paths[i])
    invariant forall(i, int, imp(0 <= i && i < len(paths), docmap(cdata(paths[i].Operation)) && jdoc(cdata(paths[i].Operation)) && cdata(paths[i].Operation) == filled(container.MergeDefault, defops, paths[i], pseq(row(patterns), off(patterns), N), D)), paths[i])
    invariant others(D, cnt.c.object)
  loop 3:
    invariant !ghost.held && docmap(cnt.c.object) && jdoc(cnt.c.object)
    invariant forall(i, int, imp(0 <= i && i < len(paths), isfp(paths[i], cnt.c.object) && hasop(D, paths[i].Path, paths[i].Method)), paths[i])
    invariant forall(i, int, imp(0 <= i && i < len(paths), docmap(cdata(paths[i].Operation)) && jdoc(cdata(paths[i].Operation))), paths[i])
    invariant forall(i, int, imp(0 <= i && i < len(paths) && !hits(pattern, paths[i]), cdata(paths[i].Operation) == filled(container.MergeDefault, defops, paths[i], pseq(row(patterns), off(patterns), N1), D)), paths[i])
    invariant forall(j, int, imp(0 <= j && j < len(ff), cdata(ff[j].Operation) == filled(container.MergeDefault, defops, ff[j], pseq(row(patterns), off(patterns), ite(j < N, N1+1, N1)), D)), ff[j])
    invariant others(D, cnt.c.object)
  hint override: pattern == patterns[N] && pat(seq(patterns), N) == pattern
  hint override: has(defops, pattern)
  hint override: pseq(row(patterns), off(patterns), N+1) == psnoc(pseq(row(patterns), off(patterns), N), pattern)
