# C01, C02: pointers
define seq(s) = pseq(row(s), off(s), len(s))
func pointer.escapeToken
  props C01
  ensures result == esc(tok)
func pointer.unescapeToken
  props C01
  ensures result == unesc(tok)
func pointer.Fragment.String
  props C01
  ensures result == ftext(seq(p))
  loop 1:
    invariant str == ftext(pseq(row(p), off(p), N))
func pointer.parseFragment
  props C01
  ensures (err == nil) == (len(str) == 0 || str[0] == '/')
  ensures imp(err == nil, peq(seq(r0), fparse(str)))
  ensures imp(err == nil, fresh(r0))
  loop 1:
    invariant len(toks) == plen(psplit(sdrop1(old(str)), "/"))
    invariant forall(i, int, imp(0 <= i && i < N, toks[i] == unesc(pat(psplit(sdrop1(old(str)), "/"), i))))
    invariant forall(i, int, imp(N <= i && i < len(toks), toks[i] == pat(psplit(sdrop1(old(str)), "/"), i)))
func pointer.NewFragment
  props C01
  ensures (err == nil) == (len(str) == 0 || str[0] == '/')
  ensures imp(err == nil, peq(seq(r0), fparse(str)))
  ensures imp(err == nil, fresh(r0))
  ensures forall(q, Path, imp(str == ftext(q), err == nil && seq(r0) == q), ftext(q))
func pointer.Fragment.IsEmpty
  props C01
  ensures result == (len(p) == 0)
func pointer.Fragment.Len
  props C01
  ensures result == len(p)
func pointer.Fragment.Head
  props C01
  ensures r1 == (len(p) > 0) && imp(len(p) > 0, r0 == p[0])
func pointer.Fragment.Tail
  props C01
  ensures r1 == (len(p) > 0) && imp(len(p) > 0, r0 == p[len(p)-1])
func pointer.Fragment.Last
  props C01
  ensures r1 == (len(p) > 0) && imp(len(p) > 0, r0 == p[len(p)-1])
func pointer.Fragment.Clone
  props C02
  ensures fresh(result)
  ensures len(result) == len(p) && forall(i, int, imp(0 <= i && i < len(p), result[i] == p[i]))
  ensures peq(seq(result), seq(p))
func pointer.Fragment.Replace
  props C02
  ensures (err == nil) == (0 <= n && n < len(p))
  ensures imp(err == nil, fresh(r0) && len(r0) == len(p) && r0[n] == element)
  ensures imp(err == nil, forall(i, int, imp(0 <= i && i < len(p) && i != n, r0[i] == p[i])))
func pointer.Fragment.RawDescendant
  props C02
  ensures fresh(result) && peq(seq(result), pcat(seq(p), seq(path)))
func pointer.Fragment.Descendant
  props C02
  let t = ite(sprefix(path, "/"), path, scat("/", path))
  ensures err == nil && fresh(r0)
  ensures peq(seq(r0), ite(ftext(seq(p)) == "/", fparse(t), pcat(seq(p), fparse(t))))
define ptext(p) = ptrtext(urlv(p.URL), seq(p.Fragment))
define parsed(p, err, s) = ite(s == "" || s == "#", err == nil && p == pointer.Pointer{}, (err == nil) == (urlok(s) && (ufrag(s) == "" || ufrag(s)[0] == '/')) && imp(err == nil, urlv(p.URL) == upart(s) && seq(p.Fragment) == fparse(ufrag(s))))
define readback(p, err, s) = forall(q, Path, forall(v, URLV, imp(urlwf(v) && s == ptrtext(v, q), err == nil && urlv(p.URL) == v && seq(p.Fragment) == q), ptrtext(v, q)))
func pointer.Parse
  props C01 C25
  ensures parsed(p, err, str)
  ensures forall(q, Path, forall(v, URLV, imp(urlwf(v) && str == ptrtext(v, q), err == nil && urlv(p.URL) == v && seq(p.Fragment) == q), ptrtext(v, q)))
func pointer.Pointer.String
  props C01 C25
  ensures result == ptext(p)
func pointer.MustParse
  props C01
  ensures exists(e, error, parsed(result, e, str) && e == nil)
func pointer.NewGoPointer
  props C01 C25
  ensures parsed(r0, err, "go://" + pkg + "#/" + path)
func pointer.Pointer.IsExternal
  props C01
  ensures result == (p.Scheme != "")
func pointer.Pointer.PkgPath
  props C01 C25
  ensures result == uhostname(p.Host) + p.Path
func pointer.Pointer.MarshalJSON
  props C01
  ensures err == nil && bytestr(r0) == jstr(ptext(*p))
func pointer.Pointer.UnmarshalJSON
  props C01
  modifies *p
  let t = ite(jstrok(bytestr(data)), jstrval(bytestr(data)), bytestr(data))
  ensures imp(data == nil, err == nil && *p == old(*p))
  ensures imp(data != nil && err == nil, parsed(*p, err, t))
  ensures imp(err != nil, *p == old(*p))
func pointer.Pointer.Clone
  props C02
  ensures fresh(result.Fragment) && seq(result.Fragment) == seq(p.Fragment)
  ensures imp(urlwf(urlv(p.URL)), urlv(result.URL) == urlv(p.URL))
func pointer.NewPointers
  props C01
  ensures fresh(result)
  ensures forall(j, int, imp(0 <= j && j < len(pp), has(result, ptext(pp[j]))))
  ensures forall(k, string, imp(has(result, k), ptext(result[k]) == k))
  loop 1:
    invariant forall(j, int, imp(0 <= j && j < N, has(m, ptext(pp[j]))))
    invariant forall(k, string, imp(has(m, k), ptext(m[k]) == k))
func pointer.Pointers.Merge
  props C02 C20
  ensures fresh(result)
  ensures forall(k, string, has(result, k) == (has(pp, k) || has(px, k)))
  ensures forall(k, string, imp(has(result, k), result[k] == ite(has(px, k), px[k], pp[k])))
  loop 1:
    invariant forall(k, string, has(x, k) == seen(k) && imp(seen(k), has(pp, k) && x[k] == pp[k]))
  loop 2:
    invariant forall(k, string, has(x, k) == (has(pp, k) || seen(k)) && imp(seen(k), has(px, k)))
    invariant forall(k, string, imp(has(x, k), x[k] == ite(seen(k), px[k], pp[k])))
