# C22: the visit of packages
ghost vis (Array Int Bool)
ghost nerr Int
extern error.Error(e) (r)
  ensures r == etext(e)
  why the text of an error does not change
extern errors.Wrap(e, text) (r)
  ensures (r == nil) == (e == nil)
extern pkgutil.Scanner.Scan(s, p) (err)
  requires [C22] p != nil && !ghost.vis[p] && !std(p)
  requires [C22] forall(k, string, imp(has(p.Imports, k), dep(p.Imports[k], p)))
  sets vis = store(ghost.vis, p, true)
  sets nerr = ghost.nerr + len(p.Errors) + ite(err != nil, 1, 0)
  why a scanner changes its own state only: packages and their imports stay as they are
define std(p) = has(pkgutil.stdpkgs, p.PkgPath)
define dep(q, p) = q == nil || std(q) || ghost.vis[q] || rch(q, p)
func pkgutil.IsStdLibPkg
  props C22
  ensures result == std(pkg)
func pkgutil.newSingleError
  props C22
  ensures result != nil
  ensures exists(f, string, exists(q, Path, etext(result) == sprintf1(f, any(sjoin(q, "\n"))) && plen(q) == len(errs) && forall(i, int, imp(0 <= i && i < len(errs), pat(q, i) == scat("\t- ", etext(errs[i]))))))
  loop 1:
    invariant len(msgs) == N
    invariant forall(i, int, imp(0 <= i && i < N, msgs[i] == scat("\t- ", etext(errs[i]))), msgs[i])
define world() = forall(p, *packages.Package, forall(k, string, imp(has(p.Imports, k), impo(p, p.Imports[k])), trig(p.Imports, p.Imports[k]))) && forall(p, *packages.Package, pstd(p) == std(p), pstd(p))
define came(sn) = forall(p, *packages.Package, imp(ghost.vis[p], sn[p]), ghost.vis[p])
define closed(sn) = forall(p, *packages.Package, forall(k, string, imp(ghost.vis[p] && has(p.Imports, k), p.Imports[k] == nil || std(p.Imports[k]) || sn[p.Imports[k]]), trig(ghost.vis[p], p.Imports[k])))
define ponly(sn) = forall(p, *packages.Package, imp(sn[p], nrch(p) && !std(p) && p != nil))
define stack(sn, q) = forall(p, *packages.Package, imp(sn[p] && !ghost.vis[p], rch(p, q)), ghost.vis[p])
func pkgutil.Scan$1
  props C22 C20
  requires seen != nil && pkgutil.stdpkgs != nil
  requires world()
  requires imp(pkg != nil && !std(pkg), nrch(pkg))
  requires came(seen) && closed(seen) && ponly(seen)
  requires stack(seen, pkg)
  modifies entries(seen), errs, tail(errs), ghost.vis, ghost.nerr
  ensures came(seen) && closed(seen) && ponly(seen)
  ensures imp(pkg != nil && !std(pkg), seen[pkg])
  ensures forall(p, *packages.Package, imp(old(ghost.vis[p]), ghost.vis[p]), ghost.vis[p])
  ensures forall(p, *packages.Package, (seen[p] && !ghost.vis[p]) == old(seen[p] && !ghost.vis[p]), ghost.vis[p])
  ensures len(errs) - ghost.nerr == old(len(errs) - ghost.nerr)
  ensures kept()
  loop 1:
    invariant kept()
    invariant len(errs) - ghost.nerr == old(len(errs) - ghost.nerr) + N
  loop 2:
    invariant kept()
    invariant pset(seq(paths)) == seenset() && puniq(seq(paths))
    invariant fresh(rowid(paths))
    invariant forall(k, string, imp(seen(k), has(ranged(), k)), seen(k))
  loop 3:
    invariant kept()
    invariant pset(seq(paths)) == dom(pkg.Imports) && puniq(seq(paths))
    invariant [C20] seq(paths) == skeys(dom(pkg.Imports))
    invariant came(seen) && closed(seen) && ponly(seen)
    invariant seen[pkg] && !ghost.vis[pkg]
    invariant forall(p, *packages.Package, imp(old(ghost.vis[p]), ghost.vis[p]), ghost.vis[p])
    invariant forall(p, *packages.Package, imp(p != pkg, (seen[p] && !ghost.vis[p]) == old(seen[p] && !ghost.vis[p])), ghost.vis[p])
    invariant forall(i, int, imp(0 <= i && i < N, pkg.Imports[paths[i]] == nil || std(pkg.Imports[paths[i]]) || seen[pkg.Imports[paths[i]]] && (ghost.vis[pkg.Imports[paths[i]]] || rch(pkg.Imports[paths[i]], pkg))), paths[i])
    invariant len(errs) - ghost.nerr == old(len(errs) - ghost.nerr) + len(pkg.Errors)
  hint path: has(pkg.Imports, path)
  hint path: impo(pkg, pkg.Imports[path])
  hint path: forall(p, *packages.Package, imp(seen[p] && !ghost.vis[p], rch(p, pkg)), ghost.vis[p])
define kept() = fresh(rowid(errs)) || rowid(errs) == old(rowid(errs)) && off(errs) == old(off(errs)) && cap(errs) == old(cap(errs)) && len(errs) >= old(len(errs))
func pkgutil.Scan
  props C22 C20
  requires pkgutil.stdpkgs != nil && ghost.nerr == 0
  requires forall(p, *packages.Package, !ghost.vis[p], ghost.vis[p])
  requires world()
  requires forall(i, int, imp(0 <= i && i < len(pkgs) && pkgs[i] != nil && !std(pkgs[i]), nrch(pkgs[i])), pkgs[i])
  modifies ghost.vis, ghost.nerr
  ensures forall(i, int, imp(0 <= i && i < len(pkgs) && pkgs[i] != nil && !std(pkgs[i]), ghost.vis[pkgs[i]]), pkgs[i])
  ensures forall(p, *packages.Package, forall(k, string, imp(ghost.vis[p] && has(p.Imports, k) && p.Imports[k] != nil && !std(p.Imports[k]), ghost.vis[p.Imports[k]]), trig(ghost.vis[p], p.Imports[k])))
  ensures forall(p, *packages.Package, imp(ghost.vis[p], nrch(p) && !std(p)), ghost.vis[p])
  ensures (err != nil) == (ghost.nerr > 0)
  ensures imp(err != nil, exists(f, string, exists(q, Path, etext(err) == sprintf1(f, any(sjoin(q, "\n"))) && plen(q) == ghost.nerr)))
  loop 1:
    invariant came(seen) && closed(seen) && ponly(seen) && seen != nil
    invariant forall(p, *packages.Package, imp(seen[p], ghost.vis[p]), ghost.vis[p])
    invariant forall(i, int, imp(0 <= i && i < N && pkgs[i] != nil && !std(pkgs[i]), seen[pkgs[i]]), pkgs[i])
    invariant len(errs) == ghost.nerr
    invariant cap(errs) == 0 || fresh(rowid(errs))
