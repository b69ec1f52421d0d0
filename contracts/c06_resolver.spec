# C06, C07: references
define obj(c) = c.c.object
define jless(a, b) = jmono(a, b) && imp(!xbad(a), !xbad(b))
define ptrok(s) = s == "" || s == "#" || urlok(s) && (ufrag(s) == "" || ufrag(s)[0] == '/')
func resolver.isref
  props C06
  ensures forall(p, Path, imp(s == dtext(psnoc(p, "$ref")), r1 && r0 == dtext(p)), psnoc(p, "$ref"))
  ensures imp(!r1, r0 == s)
  hint ss: forall(p, Path, imp(s == dtext(psnoc(p, "$ref")), seq(ss) == psnoc(pdesc(p), "$ref") && len(ss) == plen(p) + 1), psnoc(p, "$ref"))
  hint last: forall(p, Path, imp(s == dtext(psnoc(p, "$ref")), last == "$ref"), psnoc(p, "$ref"))
  hint call strings.Join: forall(p, Path, imp(s == dtext(psnoc(p, "$ref")), seq(ss[:len(ss)-1]) == pdesc(p)), psnoc(p, "$ref"))
func resolver.ReplacePtr
  props C06 C07
  let x = content(value)
  requires cx.c != nil
  modifies *(cx.c)
  ensures forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), gset(old(obj(cx)), p, jcl(x), obj(cx))), psnoc(p, "$ref"))
  hint path: dtext(psnoc(pnil, "$ref")) == "$ref"
  hint path: forall(p, Path, imp(key == dtext(psnoc(p, "$ref")), dparse(key) == psnoc(p, "$ref") && path == dtext(p)), psnoc(p, "$ref"))
  hint path: forall(p, Path, imp(key == dtext(psnoc(p, "$ref")) && key == "$ref", p == pnil), psnoc(p, "$ref"))
  hint path: forall(p, Path, imp(key == dtext(psnoc(p, "$ref")) && key != "$ref", p != pnil && dparse(path) == p), psnoc(p, "$ref"))
func resolver.ReplacePtrWithEmptyObject
  props C06 C07
  requires cx.c != nil
  modifies *(cx.c)
  ensures forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), gset(old(obj(cx)), p, jcl(any(jempty)), obj(cx))), psnoc(p, "$ref"))
func resolver.UpdatePtr
  props C06 C07
  requires cx.c != nil
  modifies *(cx.c)
  ensures imp(err == nil, gset(old(obj(cx)), dparse(key), jcl(any(ptext(pp))), obj(cx)))
func resolver.UpdatePtrToLocal
  props C06 C07
  requires cx.c != nil
  modifies *(cx.c)
  ensures imp(err == nil, gset(old(obj(cx)), dparse(key), jcl(any(ptrtext(upart(""), seq(f)))), obj(cx)))
func resolver.SetEntity
  props C06 C07
  let x = content(entity.Value)
  requires cx.c != nil
  modifies *(cx.c)
  ensures imp(err == nil && jclean(jcl(x)) && !xbad(jcl(x)), jless(old(obj(cx)), obj(cx)))
func resolver.path.has
  props C06
  ensures result == exists(i, int, 0 <= i && i < len(p) && ptext(p[i]) == ptext(px))
  loop 1:
    invariant forall(j, int, imp(i < j && j < len(p), ptext(p[j]) != ptext(px)))
func resolver.Exports.Get
  props C07 C21
  ensures r1 == exists(i, int, 0 <= i && i < len(e) && ptext(e[i].Pointer) == ptext(p))
  ensures imp(r1, exists(i, int, 0 <= i && i < len(e) && e[i] == r0 && ptext(e[i].Pointer) == ptext(p)))
  loop 1:
    invariant forall(j, int, imp(0 <= j && j < N, ptext(e[j].Pointer) != ptext(p)))
functype resolver.Fn(p) (r, err)
  why any function
func resolver.Fn.call
  props C06
  ensures imp(err == nil, r0.c != nil && fresh(r0.c))
func resolver.resolver.set
  props C06 C07
  requires cx.c != nil && r.con.c != nil && value.c != nil && value.c != cx.c && value.c != r.con.c && jclean(value.c.object) && !xbad(value.c.object)
  modifies *(cx.c), *(r.con.c)
  ensures forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), jless(old(obj(cx)), obj(cx)) && !xref(obj(cx), p)), psnoc(p, "$ref"))
  ensures [C06] forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), jless(old(obj(r.con)), obj(r.con))), psnoc(p, "$ref"))
  hint call resolver.ReplacePtr: jclean(jcl(old(obj(value)))) && !xbad(jcl(old(obj(value))))
  hint call resolver.ReplacePtr: forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), jless(old(obj(cx)), obj(cx)) && !xref(obj(cx), p)), psnoc(p, "$ref"))
  hint call resolver.SetEntity: imp(err == nil, jless(old(obj(r.con)), obj(r.con)))
  hint call resolver.UpdatePtrToLocal: forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), dparse(key) == psnoc(p, "$ref") && !xref(obj(cx), p)), psnoc(p, "$ref"))
  hint call resolver.UpdatePtrToLocal: imp(err == nil, jless(old(obj(cx)), obj(cx)))
  hint call resolver.UpdatePtrToLocal: imp(cx.c != r.con.c, jless(old(obj(r.con)), obj(r.con)))
  hint call resolver.UpdatePtrToLocal: imp(err == nil && cx.c == r.con.c, jless(old(obj(r.con)), obj(r.con)))
func resolver.resolver.setRecursive
  props C06 C07
  requires cx.c != nil
  modifies *(cx.c)
  ensures forall(p, Path, imp(err == nil && key == dtext(psnoc(p, "$ref")), jless(old(obj(cx)), obj(cx)) && !xref(obj(cx), p)), psnoc(p, "$ref"))
func resolver.resolver.iterator
  props C06
  requires cx.c != nil && r.con.c != nil
  modifies *(cx.c), *(r.con.c), tail(pp)
  let v = cx.c.object
  ensures imp(err == nil, r0 == cx && jclean(obj(cx)) && !xbad(obj(cx)))
  ensures imp(err == nil, jless(old(obj(r.con)), obj(r.con)))
  loop 1:
    invariant forall(q, Path, imp(xref(obj(cx), q), gat(obj(cx), psnoc(q, "$ref")) == gat(v, psnoc(q, "$ref")) && N <= xidx(v, "$ref", q)), gat(obj(cx), psnoc(q, "$ref")))
    invariant jless(old(obj(r.con)), obj(r.con)) && jless(v, obj(cx))
    invariant !xbad(obj(cx))
    invariant forall(q, Path, imp(is(gat(v, psnoc(q, "$ref")), string) && xidx(v, "$ref", q) < N, ptrok(as(gat(v, psnoc(q, "$ref")), string))), xidx(v, "$ref", q))
func resolver.Resolve
  props C06
  requires c.c != nil
  ensures imp(err == nil, r0.c != nil && fresh(r0.c) && jclean(obj(r0)))
