# C03, C04, C05: documents
define gd(g) = ite(g == nil, any(nil), g.object)
extern gabs.New() (r)
  ensures r != nil && fresh(r) && r.object == any(jempty)
extern gabs.Wrap(root) (r)
  requires [C05] jowned(root)
  ensures r != nil && fresh(r) && r.object == root
extern gabs.Container.Data(g) (r)
  ensures r == gd(g)
extern gabs.Container.Search(g, hierarchy) (r)
  ensures imp(jplain(gd(g), seq(hierarchy)), (r != nil) == jhas(gd(g), seq(hierarchy)))
  ensures imp(r != nil, fresh(r))
  ensures imp(r != nil && jplain(gd(g), seq(hierarchy)), r.object == jat(gd(g), seq(hierarchy)))
  why gabs: following keys through objects is jat; paths through arrays are left open
extern gabs.Container.Exists(g, hierarchy) (r)
  ensures imp(jplain(gd(g), seq(hierarchy)), r == jhas(gd(g), seq(hierarchy)))
extern gabs.Container.Path(g, path) (r)
  ensures imp(jplain(gd(g), dparse(path)), (r != nil) == jhas(gd(g), dparse(path)))
  ensures imp(r != nil, fresh(r))
  ensures imp(r != nil && jplain(gd(g), dparse(path)), r.object == jat(gd(g), dparse(path)))
  why gabs splits the path at the dots and undoes ~1, then ~0 (dparse)
extern gabs.Container.ExistsP(g, path) (r)
  ensures imp(jplain(gd(g), dparse(path)), r == jhas(gd(g), dparse(path)))
extern gabs.Container.Set(g, value, hierarchy) (r, err)
  requires [C05] jowned(value) || value == jat(gd(g), seq(hierarchy))
  modifies *g
  ensures imp(g == nil, err != nil)
  ensures imp(g != nil && jplain(old(g.object), seq(hierarchy)), (err == nil) == jcan(old(g.object), seq(hierarchy)))
  ensures imp(err == nil && jplain(old(g.object), seq(hierarchy)), g.object == jput(old(g.object), seq(hierarchy), value))
  ensures imp(err != nil && jplain(old(g.object), seq(hierarchy)), g.object == old(g.object))
  ensures imp(err == nil, gset(old(g.object), seq(hierarchy), value, g.object))
extern gabs.Container.SetP(g, value, path) (r, err)
  requires [C05] jowned(value) || value == jat(gd(g), dparse(path))
  modifies *g
  ensures imp(g == nil, err != nil)
  ensures imp(g != nil && jplain(old(g.object), dparse(path)), (err == nil) == jcan(old(g.object), dparse(path)))
  ensures imp(err == nil && jplain(old(g.object), dparse(path)), g.object == jput(old(g.object), dparse(path), value))
  ensures imp(err != nil && jplain(old(g.object), dparse(path)), g.object == old(g.object))
  ensures imp(err == nil, g != nil && gset(old(g.object), dparse(path), value, g.object))
extern strings.Join(a, sep) (r)
  ensures r == sjoin(seq(a), sep)
extern errors.Wrapf(e, format, args) (r)
  ensures (r == nil) == (e == nil)
extern errors.Errorf(format, args) (r)
  ensures r != nil
  ensures [C22] imp(len(args) == 1, etext(r) == sprintf1(format, args[0]))
define cdata(c) = gd(c.c)
func container.SliceToDotPath
  props C03
  ensures result == dtext(seq(path))
  ensures imp(len(path) > 0, dparse(dtext(seq(path))) == seq(path))
  loop 1:
    invariant len(hierarchy) == len(path)
    invariant forall(i, int, imp(0 <= i && i < N, hierarchy[i] == desc(path[i])))
func container.Container.Data
  props C03 C04 C05
  ensures result == cdata(c)
func container.Container.ExistsP
  props C03 C25
  ensures imp(jplain(cdata(c), dparse(path)), result == jhas(cdata(c), dparse(path)))
func container.Container.Path
  props C03
  ensures imp(jplain(cdata(c), dparse(x)), (result.c != nil) == jhas(cdata(c), dparse(x)) && gd(result.c) == jat(cdata(c), dparse(x)))
  ensures result.path == c.path
func container.Container.FilePath
  props C03
  ensures result == c.path
func container.cast
  props C05
  ensures r1 == (is(c, Container) || is(c, *Container) && as(c, *Container) != nil)
  ensures imp(is(c, Container), r0 == as(c, Container))
  ensures imp(is(c, *Container) && as(c, *Container) != nil, r0 == *as(c, *Container))
define content(v) = ite(is(v, container.Container), cdata(as(v, container.Container)), ite(is(v, "*container.Container") && as(v, "*container.Container") != nil, cdata(*as(v, "*container.Container")), v))
func container.mmap
  props C05 C20
  trusted
  ensures result == jnorm(v)
  why recursion over values the decoder of YAML makes; the bounded histories exercise it
func container.clone
  props C03 C05
  let x = content(c)
  ensures (err == nil) == jencok(jnorm(x))
  ensures imp(err == nil, r0 == jcl(x))
  ensures jowned(r0) && jdoc(r0)
func container.wrap
  props C05
  requires [C05] is(c, Container) || is(c, *Container) && as(c, *Container) != nil || jowned(c)
  ensures imp(!is(c, Container) && !is(c, *Container), fresh(result.c) && result.c != nil && result.c.object == c && result.path == "")
func container.Make
  props C05
  ensures (err == nil) == jencok(jnorm(content(v)))
  ensures imp(err == nil, r0.c != nil && fresh(r0.c) && r0.c.object == jcl(content(v)) && jowned(r0.c.object) && r0.path == "")
func container.Container.Clone
  props C04 C05
  ensures result.c != nil && fresh(result.c) && jowned(result.c.object) && result.path == ""
  ensures imp(jdoc(cdata(c)), result.c.object == cdata(c))
func container.New
  props C04
  ensures fresh(result.c) && result.c != nil && result.c.object == any(jempty) && result.path == ""
func container.Container.SetP
  props C03 C05 C25
  modifies *(c.c)
  let x = content(value)
  let p = dparse(path)
  ensures imp(c.c != nil && jencok(jnorm(x)) && jplain(old(cdata(c)), p), (err == nil) == jcan(old(cdata(c)), p))
  ensures imp(err == nil && jplain(old(cdata(c)), p), c.c.object == jput(old(c.c.object), p, jcl(x)))
  ensures [C03] imp(err == nil && jplain(old(cdata(c)), p), jat(cdata(c), p) == jcl(x))
  ensures [C03] forall(b, Path, forall(k, string, forall(r, Path, forall(k2, string, forall(r2, Path, imp(err == nil && k != k2 && p == pcat(psnoc(b, k), r) && jplain(old(cdata(c)), p), jat(cdata(c), pcat(psnoc(b, k2), r2)) == jat(old(cdata(c)), pcat(psnoc(b, k2), r2))))))))
  ensures imp(err != nil && jplain(old(cdata(c)), p), cdata(c) == old(cdata(c)))
  ensures [C06, C07, C25] imp(err == nil, c.c != nil && gset(old(c.c.object), p, jcl(x), c.c.object))
func container.Container.Replace
  props C05
  modifies *(c.c)
  let x = content(value)
  ensures imp(err == nil, c.c.object == jcl(x))
  ensures imp(c.c != nil && jencok(jnorm(x)), err == nil)
functype container.Merger(destination, source) (r, err)
  requires [C05] jowned(source)
  ensures (err == nil) == !mperr(self, destination, source)
  ensures imp(err == nil, r == mpol(self, destination, source))
  ensures [C05] imp(err == nil, r == destination || jowned(r))
  why a policy is a function of the two values, and returns one of them or something made from the source alone
func container.MergeStrict
  policy container.Merger
  props C04 C20
  ensures err != nil
func container.MergeDefault
  policy container.Merger
  props C04 C05 C20
  ensures err == nil && r0 == dest
func container.MergeOverride
  policy container.Merger
  props C04 C05 C20
  ensures err == nil && r0 == source
func container.Container.Merge$1
  props C04 C05 C17 C20
  let p = seq(path)
  let d0 = jat(c.c.object, p)
  requires c.c != nil && jcan(c.c.object, p)
  requires is(d0, "map[string]interface{}") || d0 == nil
  requires [C05] jowned(any(mmap))
  modifies *(c.c), tail(path)
  ensures [C04 C17] (err != nil) == mfail(collisionFn, d0, mmap)
  ensures [C04 C17] imp(err == nil, jsame(jat(c.c.object, p), mrg(collisionFn, d0, mmap)))
  ensures [C04 C17] imp(err == nil, c.c.object == jput(old(c.c.object), p, jat(c.c.object, p)) || c.c.object == old(c.c.object))
  ensures [C04 C17] imp(err == nil, jcan(c.c.object, p))
  hint newPath: seq(path) == p
  hint newPath: len(newPath) == len(path) + 1 && newPath[len(path)] == key
  hint newPath: forall(i, int, imp(0 <= i && i < len(path), newPath[i] == path[i]), newPath[i])
  hint newPath: seq(newPath) == psnoc(p, key)
  hint newPath: jplain(c.c.object, seq(newPath)) && jcan(c.c.object, seq(newPath))
  hint newPath: jhas(c.c.object, seq(newPath)) == jdomv(jat(c.c.object, p), key) && jdomv(jat(c.c.object, p), key) == jdomv(d0, key)
  hint newPath: jat(c.c.object, seq(newPath)) == jstep(d0, key) && value == jget(mmap, key) && has(mmap, key)
  hint existingData: existingData == jstep(d0, key) && jdomv(d0, key)
  loop 1:
    invariant seq(path) == p
    invariant jcan(c.c.object, p)
    invariant is(jat(c.c.object, p), "map[string]interface{}") || jat(c.c.object, p) == nil
    invariant c.c.object == jput(old(c.c.object), p, jat(c.c.object, p)) || c.c.object == old(c.c.object)
    invariant imp(N == 0, c.c.object == old(c.c.object))
    invariant forall(k, string, imp(N == 0, !seen(k)), seen(k))
    invariant imp(N > 0, exists(k, string, has(mmap, k)))
    invariant [C04 C17] forall(k, string, imp(seen(k), has(mmap, k) && jdomv(jat(c.c.object, p), k) && jstep(jat(c.c.object, p), k) == mkey(collisionFn, d0, mmap, k)), seen(k))
    invariant [C04 C17] forall(k, string, imp(seen(k) && jdomv(d0, k), !mbad(collisionFn, jstep(d0, k), jget(mmap, k))), seen(k))
    invariant [C04 C17] forall(k, string, imp(!seen(k), jdomv(jat(c.c.object, p), k) == jdomv(d0, k) && jstep(jat(c.c.object, p), k) == jstep(d0, k)))
define docmap(v) = is(v, "map[string]interface{}")
func container.Container.Merge
  props C04 C05 C17 C20
  requires c.c != nil && (docmap(c.c.object) || c.c.object == nil)
  modifies *(c.c)
  let d = c.c.object
  let s = cdata(source)
  ensures [C04 C15 C16] imp(jdoc(s) && !docmap(s), err == nil && c.c.object == d)
  ensures [C04 C15 C16] imp(jdoc(s) && docmap(s), (err != nil) == mfail(collisionFn, d, as(s, "map[string]interface{}")))
  ensures [C04 C15 C16] imp(jdoc(s) && docmap(s) && err == nil, jsame(c.c.object, mrg(collisionFn, d, as(s, "map[string]interface{}"))))
  ensures imp(err == nil, docmap(c.c.object) || c.c.object == d)
  ensures [C17] imp(!jencok(jnorm(s)), err != nil)
  ensures [C17] imp(jencok(jnorm(s)) && !docmap(jcl(s)), err == nil && c.c.object == d)
  ensures [C17] imp(jencok(jnorm(s)) && docmap(jcl(s)), (err != nil) == mfail(collisionFn, d, as(jcl(s), "map[string]interface{}")))
  ensures [C17] imp(jencok(jnorm(s)) && docmap(jcl(s)) && err == nil, jsame(c.c.object, mrg(collisionFn, d, as(jcl(s), "map[string]interface{}"))))
func container.Containers.Merge
  props C04 C05 C20
  ensures [C05] imp(err == nil, r0.c != nil && fresh(r0.c))
  ensures [C04] imp(err == nil && len(cc) == 0, r0.c.object == any(jempty))
  ensures [C04] imp(err == nil, docmap(r0.c.object))
  loop 1:
    invariant c.c != nil && fresh(c.c) && docmap(c.c.object)
    invariant imp(N == 0, c.c.object == any(jempty))
func container.ReadJSON
  props C05
  ensures (err == nil) == jobjok(bytestr(data))
  ensures imp(err == nil, c.c != nil && fresh(c.c))
  ensures imp(err == nil && jdec(bytestr(data)) != nil, c.c.object == jdec(bytestr(data)))
  ensures imp(err == nil, is(c.c.object, "map[string]interface{}"))
func container.ExtractKey
  props C06 C20 C25
  trusted
  requires c.c != nil
  let v = c.c.object
  ensures (err == nil) == (is(v, "map[string]interface{}") || is(v, "[]interface{}"))
  ensures imp(err == nil, len(pp) == xn(v, key))
  ensures forall(i, int, imp(err == nil && 0 <= i && i < len(pp), pp[i].Key == dtext(psnoc(xpath(v, key, i), key)) && pp[i].Val == gat(v, psnoc(xpath(v, key, i), key))), pp[i])
  ensures forall(q, Path, imp(err == nil && is(gat(v, psnoc(q, key)), string), 0 <= xidx(v, key, q) && xidx(v, key, q) < len(pp) && xpath(v, key, xidx(v, key, q)) == q), gat(v, psnoc(q, key)))
  ensures forall(i, int, imp(err == nil && 0 <= i && i < len(pp), xidx(v, key, xpath(v, key, i)) == i), xpath(v, key, i))
  why every text under the key is reported once with its path; bounded check C03 search
