# library functions
extern errors.New(text) (r)
  ensures r != nil
extern fmt.Errorf(format, a) (r)
  ensures r != nil
extern strings.Replace(s, old, new, n) (r)
  requires [C01 C02 C03 C06 C07] n < 0
  ensures imp(n < 0, r == srepl(s, old, new))
  ensures imp(n == 1, r == srepl1(s, old, new))
  why strings.Replace with n < 0 is the left to right replacement srepl; its behaviour on "~", "/", "~0", "~1" is the recursion in theory/proofs/text_escape.smt2
extern strings.ReplaceAll(s, old, new) (r)
  ensures r == srepl(s, old, new)
extern strings.Split(s, sep) (r)
  ensures fresh(r) && seq(r) == psplit(s, sep) && len(r) == plen(psplit(s, sep))
  ensures forall(i, int, imp(0 <= i && i < len(r), r[i] == pat(psplit(s, sep), i)))
extern strings.HasPrefix(s, prefix) (r)
  ensures r == sprefix(s, prefix)
define urlv(u) = urlof(u.Scheme, u.Opaque, uinfo(u.User), u.Host, u.Path, u.RawQuery, u.RawPath, u.ForceQuery, u.OmitHost)
define bytestr(b) = bstr(row(b), off(b), len(b))
extern url.Parse(s) (u, err)
  ensures (err == nil) == urlok(s)
  ensures imp(err == nil, u != nil && fresh(u) && urlv(u) == upart(s) && u.Fragment == ufrag(s))
  why net/url; what is assumed of it is in theory/t30_url.smt2
extern url.URL.String(u) (r)
  ensures r == ufull(urlv(u), u.Fragment, u.RawFragment)
extern url.URL.Hostname(u) (r)
  ensures r == uhostname(u.Host)
define jobjok(t) = jdecok(t) && (is(jdec(t), "map[string]interface{}") || jdec(t) == nil)
extern json.Marshal(v) (b, err)
  ensures [C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C23 C24 C25] (err == nil) == jencok(v)
  ensures [C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C20 C21 C22 C23 C24 C25] imp(err == nil, bytestr(b) == jenc(v))
  ensures [C19] imp(!is(v, container.MapSlice), (err == nil) == jencok(v))
  ensures [C19] imp(err == nil && !is(v, container.MapSlice), bytestr(b) == jenc(v))
  ensures [C19] imp(err == nil && is(v, container.MapSlice), jtext(bytestr(b), as(v, container.MapSlice)))
  why encoding/json writes what MarshalJSON of a container.MapSlice returns, without its spaces
extern json.Unmarshal(data, v) (err)
  modifies *v
  ensures imp(is(v, "*string"), (err == nil) == jstrok(bytestr(data)) && imp(err == nil, *as(v, "*string") == jstrval(bytestr(data))))
  ensures imp(is(v, "*interface{}"), (err == nil) == jdecok(bytestr(data)) && jowned(*as(v, "*interface{}")) && jdoc(*as(v, "*interface{}")) && imp(err == nil, *as(v, "*interface{}") == jdec(bytestr(data))))
  ensures imp(is(v, "*map[string]interface{}"), (err == nil) == jobjok(bytestr(data)) && jowned(any(*as(v, "*map[string]interface{}"))) && imp(err == nil && jdec(bytestr(data)) != nil, any(*as(v, "*map[string]interface{}")) == jdec(bytestr(data))))
  ensures imp(is(v, "*config.Config") && err == nil, as(v, "*config.Config").Dir == cfield(jdec(bytestr(data)), "dir") && as(v, "*config.Config").Format == cfield(jdec(bytestr(data)), "format") && as(v, "*config.Config").Output == cfield(jdec(bytestr(data)), "output"))
  why encoding/json decodes an object or null into a map
