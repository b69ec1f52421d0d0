# C19: every output format denotes the same document (and C18: failing steps)
define mless(a, b) = a.Index < b.Index || a.Index == b.Index && a.Key < b.Key
define msuniq(m) = forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(m), m[i].Key != m[j].Key), trig(m[i], m[j])))
define mssorted(m) = forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(m), !mless(m[j], m[i])), trig(m[i], m[j])))
define msof(m, v, O) = forall(i, int, imp(0 <= i && i < len(m), jdomv(v, m[i].Key) && m[i].Val == jstep(v, m[i].Key) && m[i].Index == oidx(O, m[i].Key)), m[i]) && msuniq(m) && forall(k, string, imp(jdomv(v, k), exists(i, int, 0 <= i && i < len(m) && m[i].Key == k, m[i])), jstep(v, k))
func container.indexOf
  props C19 C20
  ensures result == oidx(seq(data), element)
  loop 1:
    invariant forall(j, int, imp(0 <= j && j < N, data[j] != element), data[j]) && 0 <= N && N <= len(data)
func container.MapSlice.Less
  props C19 C20
  requires 0 <= i && i < len(ms) && 0 <= j && j < len(ms)
  ensures result == mless(ms[i], ms[j])
func container.MapSlice.Swap
  props C19 C20
  requires 0 <= i && i < len(ms) && 0 <= j && j < len(ms)
  modifies elems(ms)
  ensures ms[i] == old(ms[j]) && ms[j] == old(ms[i])
  ensures forall(k, int, imp(0 <= k && k < len(ms) && k != i && k != j, ms[k] == old(ms[k])), ms[k])
func container.MapSlice.Len
  props C19 C20
  ensures result == len(ms)
extern sort.Sort@container.MapSlice(data)
  modifies elems(as(data, container.MapSlice))
  let s = as(data, container.MapSlice)
  ensures forall(i, int, imp(0 <= i && i < len(s), exists(j, int, 0 <= j && j < len(s) && s[i] == old(s[j]))), s[i])
  ensures forall(j, int, imp(0 <= j && j < len(s), exists(i, int, 0 <= i && i < len(s) && s[i] == old(s[j]), s[i])), old(s[j]))
  ensures imp(old(msuniq(s)), msuniq(s)) && mssorted(s)
  why package sort: the same elements in the order of Less, given what Len, Less and Swap are proved to do and that mless is a strict order
func container.MapSlice.Sort
  props C19 C20
  ensures fresh(result) && len(result) == len(ms) && mssorted(result) && imp(msuniq(ms), msuniq(result))
  ensures forall(i, int, imp(0 <= i && i < len(ms), exists(j, int, 0 <= j && j < len(ms) && old(ms[j]) == result[i], old(ms[j]))), result[i])
  ensures forall(j, int, imp(0 <= j && j < len(ms), exists(i, int, 0 <= i && i < len(ms) && result[i] == old(ms[j]), result[i])), old(ms[j]))
func container.SortMapMarhsaler
  props C19 C20
  trusted
  ensures sord(result) == seq(order) && sordnil(result) == (order == nil)
  why sord names the list a sorting function was made with; what the function does is proved of SortMapMarhsaler$1
func container.SortMapMarhsaler$1
  props C19 C20
  ensures r1 == nil
  ensures imp(order == nil || !docmap(data), r0 == data)
  ensures imp(order != nil && docmap(data), is(r0, container.MapSlice) && msof(as(r0, container.MapSlice), data, seq(order)) && mssorted(as(r0, container.MapSlice)))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < len(ms), seen(ms[i].Key) && jdomv(data, ms[i].Key) && ms[i].Val == jstep(data, ms[i].Key) && ms[i].Index == oidx(seq(order), ms[i].Key)), ms[i])
    invariant msuniq(ms) && (cap(ms) == 0 || fresh(ms))
    invariant forall(k, string, imp(seen(k), exists(i, int, 0 <= i && i < len(ms) && ms[i].Key == k, ms[i])), seen(k))
functype container.SorterFn(format, data) (r, err)
  ensures imp(err == nil, imp(sordnil(self) || !docmap(data), r == data) && imp(!sordnil(self) && docmap(data), is(r, container.MapSlice) && msof(as(r, container.MapSlice), data, sord(self)) && mssorted(as(r, container.MapSlice))))
ghost bufc (Array Int Str)
define jsafe(v) = jencok(v) && jdec(jenc(v)) == v
define jvals(D, m, n) = forall(i, int, imp(0 <= i && i < n, jdomv(D, m[i].Key) && jstep(D, m[i].Key) == jdec(jenc(m[i].Val))), m[i]) && forall(k, string, imp(jdomv(D, k), exists(i, int, 0 <= i && i < n && m[i].Key == k, m[i])), jstep(D, k))
define jtext(t, m) = jdecok(t) && docmap(jdec(t)) && jvals(jdec(t), m, len(m)) && plen(jtkeys(t)) == len(m) && forall(p, int, imp(0 <= p && p < len(m), exists(i, int, 0 <= i && i < len(m) && m[i].Key == pat(jtkeys(t), p), m[i])), pat(jtkeys(t), p)) && forall(p, int, forall(q, int, forall(i, int, forall(j, int, imp(0 <= p && p < q && q < len(m) && 0 <= i && i < len(m) && 0 <= j && j < len(m) && m[i].Key == pat(jtkeys(t), p) && m[j].Key == pat(jtkeys(t), q), mless(m[i], m[j])), trig(pat(jtkeys(t), p), pat(jtkeys(t), q), m[i], m[j])))))
define mstext(w, s, n) = jtbegin(w) && jtvals(w, s, n)
define jtvals(w, s, n) = plen(jtkeys(w)) == n && forall(i, int, imp(0 <= i && i < n, pat(jtkeys(w), i) == s[i].Key), s[i], pat(jtkeys(w), i)) && jvals(jobj(jtmap(w)), s, n)
extern json.Marshal@*interface{}(v) (b, err)
  ensures (err == nil) == jencok(*as(v, "*interface{}"))
  ensures imp(err == nil, bytestr(b) == jenc(*as(v, "*interface{}")))
  why encoding/json writes what a pointer refers to
define bufadd(b, t) = store(old(ghost.bufc), b, ite(old(len(b.buf)) == 0, t, scat(old(ghost.bufc)[b], t)))
extern bytes.Buffer.Write(b, p) (n, err)
  modifies *b, ghost.bufc
  ensures len(b.buf) == old(len(b.buf)) + len(p)
  sets bufc = bufadd(b, bytestr(p))
extern bytes.Buffer.WriteByte(b, c) (err)
  modifies *b, ghost.bufc
  ensures len(b.buf) == old(len(b.buf)) + 1
  sets bufc = bufadd(b, sch(c))
  why package bytes: a buffer nothing was read from holds what was written to it
extern bytes.Buffer.Bytes(b) (r)
  ensures imp(len(b.buf) > 0, bytestr(r) == ghost.bufc[b])
  why package bytes: a buffer holds what was written to it
func container.MapSlice.MarshalJSON
  props C19 C20
  modifies ghost.bufc
  requires msuniq(ms)
  ensures imp(err == nil, jtext(bytestr(r0), ms))
  loop 1:
    invariant buf != nil && fresh(buf) && len(buf.buf) > 0 && len(ranged()) == len(ms) && 0 <= N && N <= len(ms) && fresh(ranged())
    invariant imp(N == 0, ghost.bufc[buf] == sch(123))
    invariant imp(N > 0 && N < len(ms), jtcomma(ghost.bufc[buf]) && jtvals(ghost.bufc[buf], ranged(), N))
    invariant imp(N > 0 && N == len(ms), mstext(ghost.bufc[buf], ranged(), N))
define jlisted(t, O) = forall(p, int, forall(q, int, imp(0 <= p && p < q && q < plen(jtkeys(t)), oidx(O, pat(jtkeys(t), p)) <= oidx(O, pat(jtkeys(t), q))), trig(pat(jtkeys(t), p), pat(jtkeys(t), q))))
define jtsame(t, V) = jdecok(t) && docmap(jdec(t)) && forall(k, string, imp(jdomv(V, k), jdomv(jdec(t), k) && jstep(jdec(t), k) == jdec(jenc(jstep(V, k)))), jstep(V, k)) && forall(k, string, imp(jdomv(jdec(t), k), jdomv(V, k)), jstep(jdec(t), k))
define jtblank(t, V, f) = imp((sordnil(f) || !docmap(V)) && !is(V, container.MapSlice), jcompact(t) == jenc(V)) && imp(!sordnil(f) && docmap(V), jtsame(t, V) && jlisted(t, sord(f)))
define jtdoc(t, V, f) = imp((sordnil(f) || !docmap(V)) && !is(V, container.MapSlice), t == jenc(V)) && imp(!sordnil(f) && docmap(V), jtsame(t, V) && jlisted(t, sord(f)))
extern json.MarshalIndent(v, prefix, indent) (b, err)
  ensures imp(err == nil && !is(v, container.MapSlice), jcompact(bytestr(b)) == jenc(v))
  ensures imp(err == nil && is(v, container.MapSlice), jtext(bytestr(b), as(v, container.MapSlice)))
  why encoding/json only adds blanks outside of texts
func container.Sorter.MarshalJSON
  props C18 C19
  abstract
  tracks failed
  modifies ghost.failed
  ensures [C18] imp(err == nil, ghost.failed == old(ghost.failed))
  ensures [C19] imp(err == nil, jtdoc(bytestr(r0), gd(c.c), c.sorter))
func container.Sorter.MarshalIndentJSON
  props C18 C19
  abstract
  tracks failed
  modifies ghost.failed
  ensures [C18] imp(err == nil, ghost.failed == old(ghost.failed))
  ensures [C19] imp(err == nil, jtblank(bytestr(r0), gd(c.c), c.sorter))
func container.NewSortMarshaller
  props C19
  ensures result.Container == c && result.sorter == s
define ymap(r, v) = is(r, container.MapSlice) && forall(i, int, imp(0 <= i && i < len(as(r, container.MapSlice)), jdomv(v, as(r, container.MapSlice)[i].Key) && as(r, container.MapSlice)[i].Val == jstep(v, as(r, container.MapSlice)[i].Key)), as(r, container.MapSlice)[i]) && msuniq(as(r, container.MapSlice)) && forall(k, string, imp(jdomv(v, k), exists(i, int, 0 <= i && i < len(as(r, container.MapSlice)) && as(r, container.MapSlice)[i].Key == k, as(r, container.MapSlice)[i])), jstep(v, k))
define yplain(v) = !docmap(v) && !is(v, "[]interface{}")
func container.ordered
  props C19 C20
  ensures imp(yplain(data), result == data)
  ensures imp(docmap(data), ymap(result, data))
  ensures imp(is(data, "[]interface{}"), is(result, "[]interface{}") && len(as(result, "[]interface{}")) == len(as(data, "[]interface{}")))
  ensures imp(is(data, "[]interface{}"), forall(i, int, imp(0 <= i && i < len(as(data, "[]interface{}")) && yplain(old(as(data, "[]interface{}")[i])), as(result, "[]interface{}")[i] == old(as(data, "[]interface{}")[i])), as(result, "[]interface{}")[i]))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < len(ms), seen(ms[i].Key) && jdomv(data, ms[i].Key) && ms[i].Val == jstep(data, ms[i].Key)), ms[i])
    invariant msuniq(ms) && (cap(ms) == 0 || fresh(ms))
    invariant forall(k, string, imp(seen(k), exists(i, int, 0 <= i && i < len(ms) && ms[i].Key == k, ms[i])), seen(k))
  loop 2:
    invariant len(list) == len(as(data, "[]interface{}")) && fresh(list) && 0 <= N && N <= len(list)
    invariant forall(i, int, imp(0 <= i && i < N && yplain(old(as(data, "[]interface{}")[i])), list[i] == old(as(data, "[]interface{}")[i])), list[i])
func container.MapSlice.MarshalYAML
  props C19 C20
  requires msuniq(ms)
  ensures err == nil && is(r0, yaml.MapSlice) && len(as(r0, yaml.MapSlice)) == len(ms)
  ensures forall(p, int, imp(0 <= p && p < len(ms), exists(i, int, 0 <= i && i < len(ms) && as(r0, yaml.MapSlice)[p].Key == any(old(ms[i].Key)) && imp(yplain(old(ms[i].Val)), as(r0, yaml.MapSlice)[p].Value == old(ms[i].Val)), old(ms[i]))), as(r0, yaml.MapSlice)[p])
  ensures forall(i, int, imp(0 <= i && i < len(ms), exists(p, int, 0 <= p && p < len(ms) && as(r0, yaml.MapSlice)[p].Key == any(old(ms[i].Key)), as(r0, yaml.MapSlice)[p])), old(ms[i]))
  loop 1:
    invariant len(m) == N && 0 <= N && N <= len(ms) && len(ranged()) == len(ms) && fresh(ranged()) && (cap(m) == 0 || fresh(m))
    invariant forall(p, int, imp(0 <= p && p < N, m[p].Key == any(ranged()[p].Key) && imp(yplain(ranged()[p].Val), m[p].Value == ranged()[p].Val)), m[p])
func container.Sorter.MarshalYAML
  props C18
  abstract
  tracks failed
  modifies ghost.failed
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
extern strings.ContainsAny(s, chars) (r)
  ensures imp(chars == "`\r\x00\uFEFF", r == !sraw(s))
extern utf8.ValidString(s) (r)
  ensures r == sutf8(s)
extern strconv.Quote(s) (r)
  ensures r == sgoquote(s)
func root.literal
  props C19
  ensures golit(result) == s
ghost gojson Str
func root.produceGoFile
  props C18 C19
  abstract
  tracks failed
  modifies ghost.failed, ghost.gojson
  ensures [C18] imp(err == nil, ghost.failed == old(ghost.failed))
  sets gojson = pkg.OpenAPIJson
func root.Format
  props C18 C19
  abstract
  tracks failed
  modifies ghost.failed, ghost.fdata, ghost.ffmt, ghost.gojson
  ensures [C18] imp(err == nil, ghost.failed == old(ghost.failed))
  ensures [C19] imp(err == nil && docmap(gd(oapi.c.c)) && root.order != nil && f == "json", jtsame(bytestr(data), gd(oapi.c.c)) && jlisted(bytestr(data), seq(root.order)))
  ensures [C19] imp(err == nil && docmap(gd(oapi.c.c)) && root.order != nil && f == "json:pretty", jtsame(bytestr(data), gd(oapi.c.c)) && jlisted(bytestr(data), seq(root.order)))
  ensures [C19] imp(err == nil && docmap(gd(oapi.c.c)) && root.order != nil && f == "go", jtsame(ghost.gojson, gd(oapi.c.c)) && jlisted(ghost.gojson, seq(root.order)))
  sets fdata = bstr(row(data), off(data), len(data))
  sets ffmt = f
