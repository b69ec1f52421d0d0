# C23: union-typed specification objects
ghost cbfrom (Array Int Str)
ghost cbtext (Array Int Str)
extern json.Marshal@spec.Expressions(v) (b, err)
  ensures err == nil && bytestr(b) == jstr(string(as(v, spec.Expressions)))
  why encoding/json writes a text as a JSON string
extern json.Marshal@spec.Any(v) (b, err)
  let x = as(v, spec.Any)
  ensures imp(x == nil, err == nil && bytestr(b) == "null")
  ensures imp(x != nil, (err == nil) == jrawok(bytestr(x)) && imp(err == nil, bytestr(b) == jraw(bytestr(x))))
  why encoding/json calls Any.MarshalJSON, which has a contract, and removes spaces
extern json.Marshal@spec.Refable(v) (b, err)
  ensures imp(as(v, spec.Refable).Ref != nil, err == nil && bytestr(b) == reftext(ptext(*(as(v, spec.Refable).Ref))))
  why encoding/json writes the member $ref with what Pointer.MarshalJSON returns, which has a contract
extern json.Marshal@map[spec.Expressions]*spec.PathItem(v) (b, err)
  modifies ghost.cbtext
  sets cbtext = store(old(ghost.cbtext), as(v, "map[spec.Expressions]*spec.PathItem"), bytestr(b))
  why the text encoding/json writes for the map is recorded
extern json.Unmarshal@*spec.Expressions(data, v) (err)
  let e = as(v, "*spec.Expressions")
  modifies *e
  ensures imp(err == nil && jstrok(bytestr(data)), string(*e) == jstrval(bytestr(data)))
  ensures imp(jstrok(bytestr(data)), err == nil)
  why encoding/json reads back a JSON string
extern json.Unmarshal@*spec.Any(data, v) (err)
  let e = as(v, "*spec.Any")
  requires rowid(*e) != rowid(data) || len(data) == 0
  modifies *e, elems(*e), tail(*e)
  ensures (err == nil) == jrawok(bytestr(data))
  ensures imp(err == nil, bytestr(*e) == bytestr(data) && (fresh(rowid(*e)) || rowid(*e) == old(rowid(*e))))
  why encoding/json calls Any.UnmarshalJSON, which has a contract, with the text
extern json.Unmarshal@*spec.Refable(data, v) (err)
  let e = as(v, "*spec.Refable")
  modifies *e
  ensures (err == nil) == refok(bytestr(data))
  ensures imp(err == nil && refgot(bytestr(data)), e.Ref != nil && fresh(e.Ref) && ptext(*(e.Ref)) == rftext(bytestr(data)))
  ensures imp(err == nil && !refgot(bytestr(data)), e.Ref == nil || e.Ref == old(e.Ref))
  why encoding/json decodes the member $ref with Pointer.UnmarshalJSON, which has a contract
extern json.Unmarshal@*map[spec.Expressions]*spec.PathItem(data, v) (err)
  let e = as(v, "*map[spec.Expressions]*spec.PathItem")
  modifies *e, ghost.cbfrom
  sets cbfrom = store(old(ghost.cbfrom), *e, bytestr(data))
  why which text a map was decoded from is recorded
func spec.Any.MarshalJSON
  props C23
  ensures r1 == nil && imp(m == nil, bytestr(r0) == "null") && imp(m != nil, r0 == m)
func spec.Any.UnmarshalJSON
  props C23
  requires imp(m != nil, rowid(*m) != rowid(data) || len(data) == 0)
  modifies *m, elems(*m), tail(*m)
  ensures imp(m == nil, result != nil)
  ensures imp(m != nil, result == nil && len(*m) == len(data) && forall(i, int, imp(0 <= i && i < len(data), (*m)[i] == old(data[i])), (*m)[i]))
  ensures imp(m != nil && len(data) > 0, rowid(*m) != rowid(data) && (fresh(rowid(*m)) || rowid(*m) == old(rowid(*m))))
func spec.NewAny
  props C23
  ensures imp(jencok(v), bytestr(result) == jenc(v))
func spec.AnyOrExpressions.MarshalJSON
  props C23
  ensures imp(m.Expressions != "", r1 == nil && bytestr(r0) == jstr(string(m.Expressions)))
  ensures imp(m.Expressions == "" && m.Any == nil, r1 == nil && bytestr(r0) == "null")
  ensures imp(m.Expressions == "" && m.Any != nil, (r1 == nil) == jrawok(bytestr(m.Any)) && imp(r1 == nil, bytestr(r0) == jraw(bytestr(m.Any))))
func spec.AnyOrExpressions.UnmarshalJSON
  props C23
  requires imp(m != nil, rowid(m.Any) != rowid(data) || len(data) == 0)
  modifies *m, elems(m.Any), tail(m.Any)
  ensures imp(m == nil, result != nil)
  ensures imp(m != nil && len(data) == 0, result == nil && *m == old(*m))
  ensures imp(m != nil && len(data) > 0 && data[0] == 34 && jstrok(bytestr(data)), result == nil && string(m.Expressions) == jstrval(bytestr(data)) && m.Any == old(m.Any))
  ensures imp(m != nil && len(data) > 0 && data[0] != 34, m.Expressions == old(m.Expressions) && (result == nil) == jrawok(bytestr(data)) && imp(result == nil, bytestr(m.Any) == bytestr(data) && rowid(m.Any) != rowid(data)))
func spec.Callback.MarshalJSON
  props C23
  ensures imp(s.Ref != nil, r1 == nil && bytestr(r0) == reftext(ptext(*(s.Ref))))
  ensures imp(s.Ref == nil && r1 == nil, bytestr(r0) == ghost.cbtext[s.Callback])
  modifies ghost.cbtext
func spec.Callback.UnmarshalJSON
  props C23
  modifies *s, ghost.cbfrom
  ensures imp(s == nil, result != nil)
  ensures imp(s != nil && len(data) == 0, result == nil && *s == old(*s))
  ensures imp(s != nil && len(data) > 0 && result == nil && old(s.Ref) == nil, refok(bytestr(data)) && (s.Ref != nil) == refgot(bytestr(data)))
  ensures imp(s != nil && len(data) > 0 && result == nil && old(s.Ref) == nil && s.Ref != nil, ptext(*(s.Ref)) == rftext(bytestr(data)) && s.Callback == old(s.Callback))
  ensures imp(s != nil && len(data) > 0 && result == nil && s.Ref == nil, ghost.cbfrom[s.Callback] == bytestr(data))
  ensures imp(s != nil && len(data) > 0 && !refok(bytestr(data)), result != nil)
