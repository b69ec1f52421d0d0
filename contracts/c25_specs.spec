# C25: specification files of packages
extern filepath.Glob(pattern) (matches, err)
  ensures cap(matches) == 0 || fresh(rowid(matches))
  ensures imp(err == nil, forall(f, string, fmatch(pattern, f) == pset(seq(matches))[f], fmatch(pattern, f), pset(seq(matches))[f]))
  why package filepath; the files stay as they are while the command reads them
define moddir(pkg) = fpjoin(pkg.Module.Dir, srepl1(pkg.PkgPath, pkg.Module.Path, ""))
func pkgutil.getPkgPath
  props C25
  ensures imp(pkg.Module != nil, r1 == (len(pkg.Module.Dir) > 0) && imp(r1, r0 == moddir(pkg)))
  ensures imp(pkg.Module == nil, exists(g, string, r0 == fpjoin3(g, "src", pkg.PkgPath)))
func pkgutil.GetPkgPath
  props C25
  ensures imp(pkg.Module != nil, (err == nil) == (len(pkg.Module.Dir) > 0) && imp(err == nil, r0 == moddir(pkg)))
  ensures imp(pkg.Module == nil && err == nil, exists(g, string, r0 == fpjoin3(g, "src", pkg.PkgPath)))
func specs.NewScanner
  props C25
  ensures result != nil && fresh(result) && len(result.Containers) == 0 && result.Pointers != nil && fresh(result.Pointers)
  ensures forall(k, string, !has(result.Pointers, k))
  ensures len(result.patterns) == 3 && result.patterns[0] == "oapi.yaml" && result.patterns[1] == "oapi.yml" && result.patterns[2] == "oapi.json"
define isspec(f) = jdomv(sdoc(f), "openapi")
define asread(c) = c.c != nil && docmap(c.c.object) && imp(sany(c.path), c.c.object == sdoc(c.path))
define refat(v, q) = gat(v, psnoc(q, "$ref"))
define texts(v, o) = forall(b, Path, forall(k, string, imp(k != "$ref" && is(gat(o, psnoc(b, k)), string), gat(o, psnoc(b, k)) == gat(v, psnoc(b, k))), gat(o, psnoc(b, k))))
define qualof(v, q, G) = qualtext(G, as(refat(v, q), string))
define refsto(v, o, n, pp, G) = forall(q, Path, imp(is(refat(o, q), string), is(refat(v, q), string) && ite(xidx(v, "$ref", q) < n, refat(o, q) == jcl(any(qualof(v, q, G))) && has(pp, qualof(v, q, G)), refat(o, q) == refat(v, q))), refat(o, q))
define quald(c, pp, G) = c.c != nil && imp(sany(c.path), isspec(c.path) && texts(sdoc(c.path), c.c.object) && forall(q, Path, imp(is(refat(c.c.object, q), string), is(refat(sdoc(c.path), q), string) && refat(c.c.object, q) == jcl(any(qualof(sdoc(c.path), q, G))) && has(pp, qualof(sdoc(c.path), q, G))), refat(c.c.object, q)))
