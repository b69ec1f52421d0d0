# C15, C16: the document of a root and what is scanned
extern reflect.ValueOf(i) (r)
  ensures rvof(any(r)) == i
extern reflect.Value.Kind(v) (r)
  ensures r == rkind(rvof(any(v)))
extern reflect.Value.IsNil(v) (r)
  ensures r == risnil(rvof(any(v)))
  why package reflect; t61_reflect.smt2 says what its kinds are for the values documents are made of
func container.Container.IsNil
  props C16
  ensures imp(jdoc(cdata(c)), result == (cdata(c) == nil))
func oapi.isMap
  props C16
  ensures result == docmap(cdata(c))
define pick(f, z, y) = ite(y == nil, z, ite(z == nil, y, ite(docmap(z) && docmap(y), mrg(f, z, as(y, "map[string]interface{}")), mpol(f, z, y))))
define pickbad(f, z, y) = z != nil && y != nil && ite(docmap(z) && docmap(y), mfail(f, z, as(y, "map[string]interface{}")), mperr(f, z, y))
func oapi.mergeSection
  props C16
  requires c.c != nil && docmap(c.c.object) && jdoc(c.c.object)
  requires jdoc(cdata(z)) && jdoc(cdata(y)) && !(docmap(cdata(z)) && docmap(cdata(y)))
  requires cdata(z) == jstep(c.c.object, key) && dparse(key) == psnoc(pnil, key)
  requires mpicks(fn)
  modifies *(c.c)
  ensures (err != nil) == pickbad(fn, old(cdata(z)), old(cdata(y)))
  ensures imp(err == nil, docmap(c.c.object) && jdoc(c.c.object) && jstep(c.c.object, key) == pick(fn, old(cdata(z)), old(cdata(y))))
  ensures imp(err == nil, forall(k, string, imp(k != key, jdomv(c.c.object, k) == jdomv(old(c.c.object), k) && jstep(c.c.object, k) == jstep(old(c.c.object), k))))
define same(c0, c1, k) = jdomv(c1, k) == jdomv(c0, k) && jstep(c1, k) == jstep(c0, k)
define section(k) = k == "info" || k == "components" || k == "paths" || k == "externalDocs" || k == "security" || k == "servers" || k == "tags"
func oapi.MergeWithRoot
  props C16 C20
  requires c.c != nil && docmap(c.c.object) && jdoc(c.c.object)
  requires !is(jcl(any(root)), "[]interface{}")
  modifies *(c.c)
  let R = jcl(any(root))
  let D = c.c.object
  ensures imp(err == nil, jstep(c.c.object, "info") == pick(container.MergeOverride, jstep(D, "info"), jstep(R, "info")))
  ensures imp(err == nil, jstep(c.c.object, "components") == pick(container.MergeStrict, jstep(D, "components"), jstep(R, "components")))
  ensures imp(err == nil, jstep(c.c.object, "paths") == pick(container.MergeDefault, jstep(D, "paths"), jstep(R, "paths")))
  ensures imp(err == nil, jstep(c.c.object, "externalDocs") == pick(container.MergeDefault, jstep(D, "externalDocs"), jstep(R, "externalDocs")))
  ensures imp(err == nil, jstep(c.c.object, "security") == pick(container.MergeDefault, jstep(D, "security"), jstep(R, "security")))
  ensures imp(err == nil, jstep(c.c.object, "servers") == pick(container.MergeDefault, jstep(D, "servers"), jstep(R, "servers")))
  ensures imp(err == nil, jstep(c.c.object, "tags") == pick(container.MergeDefault, jstep(D, "tags"), jstep(R, "tags")))
  ensures imp(err == nil, forall(k, string, imp(!section(k), same(D, c.c.object, k))))
  ensures imp(jencok(jnorm(any(root))), (err != nil) == pickbad(container.MergeStrict, jstep(D, "components"), jstep(R, "components")))
  loop 1:
    invariant c.c != nil && docmap(c.c.object) && jdoc(c.c.object)
    invariant mpicks(container.MergeOverride) && mpicks(container.MergeStrict) && mpicks(container.MergeDefault)
    invariant mnofail(container.MergeOverride) && mtakes(container.MergeOverride) && mnofail(container.MergeDefault)
    invariant ite(N > 0, jstep(c.c.object, "info") == pick(container.MergeOverride, jstep(D, "info"), jstep(R, "info")), same(D, c.c.object, "info"))
    invariant ite(N > 1, jstep(c.c.object, "components") == pick(container.MergeStrict, jstep(D, "components"), jstep(R, "components")), same(D, c.c.object, "components"))
    invariant ite(N > 2, jstep(c.c.object, "paths") == pick(container.MergeDefault, jstep(D, "paths"), jstep(R, "paths")), same(D, c.c.object, "paths"))
    invariant ite(N > 3, jstep(c.c.object, "externalDocs") == pick(container.MergeDefault, jstep(D, "externalDocs"), jstep(R, "externalDocs")), same(D, c.c.object, "externalDocs"))
    invariant ite(N > 4, jstep(c.c.object, "security") == pick(container.MergeDefault, jstep(D, "security"), jstep(R, "security")), same(D, c.c.object, "security"))
    invariant ite(N > 5, jstep(c.c.object, "servers") == pick(container.MergeDefault, jstep(D, "servers"), jstep(R, "servers")), same(D, c.c.object, "servers"))
    invariant ite(N > 6, jstep(c.c.object, "tags") == pick(container.MergeDefault, jstep(D, "tags"), jstep(R, "tags")), same(D, c.c.object, "tags"))
    invariant forall(k, string, imp(!section(k), same(D, c.c.object, k)))
    invariant imp(N > 1, !pickbad(container.MergeStrict, jstep(D, "components"), jstep(R, "components")))
    invariant N <= 7
    invariant R == cdata(r) && jdoc(R)
  hint x: mpicks(x.merge) && section(x.key)
  hint z: cdata(z) == jstep(c.c.object, x.key) && jdoc(cdata(z))
  hint z: cdata(z) == jstep(D, x.key)
  hint y: cdata(y) == jstep(R, x.key) && jdoc(cdata(y))
  hint s: docmap(cdata(z)) && docmap(cdata(y))
  hint p: jdoc(cdata(s)) && cdata(s) == mrg(x.merge, cdata(z), as(cdata(y), "map[string]interface{}"))
  hint p: as(cdata(p), "map[string]interface{}")[x.key] == cdata(s) && docmap(cdata(p)) && jdoc(cdata(p))
  hint p: forall(k, string, jdomv(cdata(p), k) == (k == x.key))
