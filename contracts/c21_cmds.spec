# C21: commands in comments
extern types.Package.Path(p) (r)
  pure
  ensures r == tpkg(p)
  why a package's path does not change
extern strings.TrimRight(s, cut) (r)
  pure
  ensures r == strimr(s, cut)
extern strings.TrimSuffix(s, x) (r)
  pure
  ensures r == strimsuf(s, x)
extern strings.Contains(s, x) (r)
  pure
  ensures r == scontains(s, x)
define cbody(t) = ite(sprefix(t, "/*"), strimsuf(ssub(t, 2, len(t)), "*/"), ssub(t, 2, len(t)))
define textworld() = forall(c, *ast.Comment, c.Text == ctx(c) && iscmd(c.Text) == sprefix(cbody(c.Text), "openapi") && cmdtext(c.Text) == strimr(ssub(cbody(c.Text), 7, len(cbody(c.Text))), " \n"), c.Text)
define groupworld() = forall(g, *ast.CommentGroup, imp(asto(g), alive(g) && len(g.List) == gn(g)), asto(g)) && forall(g, *ast.CommentGroup, forall(i, int, imp(asto(g) && 0 <= i && i < len(g.List), g.List[i] == ga(g, i)), trig(g.List, g.List[i])))
define fileworld() = forall(f, *ast.File, imp(asto(f), alive(f) && len(f.Comments) == fgn(f)), asto(f)) && forall(f, *ast.File, forall(i, int, imp(asto(f) && 0 <= i && i < len(f.Comments), f.Comments[i] == fa(f, i) && asto(fa(f, i))), trig(f.Comments, f.Comments[i])))
func cmds.ParseCommentGroup
  props C21
  requires textworld() && groupworld() && asto(gg)
  ensures fresh(result) && seq(result) == gcm(gg, gn(gg)) && len(result) == plen(gcm(gg, gn(gg)))
  loop 1:
    invariant seq(cc) == gcm(gg, N) && fresh(cc)
func cmds.newArguments
  props C21
  ensures len(result) == len(a) && forall(i, int, imp(0 <= i && i < len(a), result[i] == strim(a[i], " ")), result[i])
  loop 1:
    invariant len(x) == N && forall(i, int, imp(0 <= i && i < N, x[i] == strim(a[i], " ")), x[i])
func cmds.Args.Len
  props C21
  ensures result == len(a)
func cmds.Args.Get
  props C21
  ensures r1 == (0 <= index && index < len(a))
  ensures r0 == ite(r1, a[index], "")
func cmds.CmdBase.GetCmd
  props C21
  ensures result == c.cmd
func cmds.CmdBase.GetArgs
  props C21
  ensures result == c.args
define gotext(pkg, a) = ite(scontains(a, "://") || scontains(a, "#"), a, "go://" + pkg + "#/" + a)
define ptrtextok(s) = s == "" || s == "#" || urlok(s) && (ufrag(s) == "" || ufrag(s)[0] == '/')
define ptrof(p, s) = ite(s == "" || s == "#", p == pointer.Pointer{}, urlv(p.URL) == upart(s) && seq(p.Fragment) == fparse(ufrag(s)))
define schemaok(pkg, args) = ite(len(args) == 1, args[0] != "" && ptrtextok(gotext(pkg, args[0])), len(args) == 2 && args[0] != "" && args[1] != "" && ptrtextok(gotext(pkg, args[1])))
define schemais(s, pkg, args) = ite(len(args) == 1, ptrof(s.Ptr, gotext(pkg, args[0])) && s.Name == ite(len(s.Ptr.Fragment) > 0, s.Ptr.Fragment[len(s.Ptr.Fragment)-1], args[0]), ptrof(s.Ptr, gotext(pkg, args[1])) && s.Name == args[0])
func cmds.NewCmdSchema
  props C21
  requires cmd.pkg != nil && cmd.pkg.Types != nil
  let pkg = tpkg(cmd.pkg.Types)
  ensures (err == nil) == schemaok(pkg, cmd.args)
  ensures imp(err != nil, s == nil)
  ensures imp(err == nil, is(s, cmds.CmdSchema) && schemais(as(s, cmds.CmdSchema), pkg, cmd.args) && as(s, cmds.CmdSchema).CmdBase == cmd)
func cmds.NewCmdRoot
  props C21
  ensures err == nil && r0 == cmds.CmdRoot{CmdBase: cmd}
define cword(c) = strim(pat(psplit(c, " "), 0), " ")
define carg(c, i) = strim(pat(psplit(c, " "), i), " ")
define cnum(c) = plen(psplit(c, " "))
define cschema(pkg, c) = ite(cnum(c) == 2, carg(c, 1) != "" && ptrtextok(gotext(pkg, carg(c, 1))), cnum(c) == 3 && carg(c, 1) != "" && carg(c, 2) != "" && ptrtextok(gotext(pkg, carg(c, 2))))
define cok(pkg, c) = cnum(c) > 0 && (cword(c) == "" || cword(c) == ":root" || cword(c) == ":schema" && cschema(pkg, c))
define cis(s, pkg, c) = ite(cnum(c) == 2, ptrof(s.Ptr, gotext(pkg, carg(c, 1))) && s.Name == ite(len(s.Ptr.Fragment) > 0, s.Ptr.Fragment[len(s.Ptr.Fragment)-1], carg(c, 1)), ptrof(s.Ptr, gotext(pkg, carg(c, 2))) && s.Name == carg(c, 1))
define cmdis(s, pkg, c) = is(s, cmds.CmdSchema) == (cword(c) == ":schema") && imp(cword(c) == ":schema", cis(as(s, cmds.CmdSchema), pkg, c))
func cmds.Parse
  props C21
  requires pkg != nil && pkg.Types != nil
  let path = tpkg(pkg.Types)
  ensures (err == nil) == cok(path, comment)
  ensures imp(err == nil, cmdis(s, path, comment))
func cmds.Scanner.Scan
  props C21 C20
  requires r != nil && r.Commands != nil && pkg != nil && pkg.Types != nil
  requires textworld() && groupworld() && fileworld()
  requires forall(i, int, imp(0 <= i && i < len(pkg.Syntax), asto(pkg.Syntax[i])), pkg.Syntax[i])
  modifies entries(r.Commands)
  let path = tpkg(pkg.Types)
  let C = pcm(row(pkg.Syntax), off(pkg.Syntax), len(pkg.Syntax))
  ensures imp(err != nil, exists(j, int, 0 <= j && j < plen(C) && !cok(path, pat(C, j)), pat(C, j)))
  ensures imp(err == nil, forall(j, int, imp(0 <= j && j < plen(C), cok(path, pat(C, j))), pat(C, j)))
  ensures imp(err == nil, has(r.Commands, pkg.PkgPath) && len(r.Commands[pkg.PkgPath]) == plen(C))
  ensures imp(err == nil, forall(j, int, imp(0 <= j && j < plen(C), cmdis(r.Commands[pkg.PkgPath][j], path, pat(C, j))), r.Commands[pkg.PkgPath][j]))
  ensures forall(k, string, imp(k != pkg.PkgPath || err != nil, has(r.Commands, k) == has(old(r.Commands), k) && r.Commands[k] == old(r.Commands[k])), r.Commands[k])
  loop 1:
    invariant rcm(row(groups), off(groups), len(groups)) == pcm(row(pkg.Syntax), off(pkg.Syntax), N) && fresh(groups) && rowid(groups) != rowid(pkg.Syntax)
    invariant forall(i, int, imp(0 <= i && i < len(groups), asto(groups[i])), groups[i])
  loop 2:
    invariant seq(comments) == rcm(row(groups), off(groups), N) && fresh(comments)
  hint c: 0 <= N && c == pat(C, N)
  loop 3:
    invariant seq(comments) == C
    invariant len(cc) == N
    invariant forall(j, int, imp(0 <= j && j < N, cok(path, pat(C, j)) && cmdis(cc[j], path, pat(C, j))), cc[j])
define issch(s) = is(s, cmds.CmdSchema)
define sptr(s) = as(s, cmds.CmdSchema).Ptr
define sname(s) = as(s, cmds.CmdSchema).Name
define expof(s) = resolver.Pointer{Pointer: sptr(s), Entity: resolver.Entity{Entity: spec.SchemaKind, Name: sname(s)}}
define clash(s, t) = sname(s) == sname(t) || ptext(sptr(s)) == ptext(sptr(t))
define cmdin(r, p, j) = has(r.Commands, p) && 0 <= j && j < len(r.Commands[p])
define cmdat(r, p, j) = has(r.Commands, p) && 0 <= j && j < len(r.Commands[p]) && issch(r.Commands[p][j])
func cmds.List.Pointers
  props C21 C20
  ensures fresh(result) && result != nil
  ensures forall(j, int, imp(0 <= j && j < len(cc) && issch(cc[j]), has(result, ptext(sptr(cc[j])))), cc[j])
  ensures forall(k, string, imp(has(result, k), ptext(result[k]) == k), has(result, k))
  ensures forall(k, string, imp(has(result, k), exists(j, int, 0 <= j && j < len(cc) && issch(cc[j]) && ptext(sptr(cc[j])) == k, cc[j])), has(result, k))
  loop 1:
    invariant fresh(x) && x != nil
    invariant forall(j, int, imp(0 <= j && j < N && issch(cc[j]), has(x, ptext(sptr(cc[j])))), cc[j])
    invariant forall(k, string, imp(has(x, k), ptext(x[k]) == k && exists(j, int, 0 <= j && j < N && issch(cc[j]) && ptext(sptr(cc[j])) == k, cc[j])), has(x, k))
func cmds.Map.Pointers
  props C21 C20
  ensures fresh(pp) && pp != nil
  ensures forall(p, string, forall(j, int, imp(has(cc, p) && 0 <= j && j < len(cc[p]) && issch(cc[p][j]), has(pp, ptext(sptr(cc[p][j])))), cc[p][j]))
  ensures forall(k, string, imp(has(pp, k), ptext(pp[k]) == k), has(pp, k))
  loop 1:
    invariant fresh(pp) && pp != nil
    invariant forall(p, string, forall(j, int, imp(seen(p) && 0 <= j && j < len(cc[p]) && issch(cc[p][j]), has(pp, ptext(sptr(cc[p][j])))), cc[p][j]))
    invariant forall(k, string, imp(has(pp, k), ptext(pp[k]) == k), has(pp, k))
func cmds.Scanner.ExportedComponents
  props C21 C20
  requires r != nil
  requires forall(p, string, ccl(p) == len(r.Commands[p]), ccl(p))
  ensures imp(err == nil, forall(p, string, forall(j, int, imp(cmdat(r, p, j), exists(i, int, 0 <= i && i < len(exports) && exports[i] == expof(r.Commands[p][j]), exports[i])), r.Commands[p][j])))
  ensures imp(err == nil, forall(i, int, imp(0 <= i && i < len(exports), exists(p, string, exists(j, int, cmdat(r, p, j) && exports[i] == expof(r.Commands[p][j])))), exports[i]))
  ensures imp(err == nil, forall(p, string, forall(j, int, forall(p2, string, forall(j2, int, imp(cmdat(r, p, j) && cmdat(r, p2, j2) && (p != p2 || j != j2), !clash(r.Commands[p][j], r.Commands[p2][j2])), trig(r.Commands[p][j], r.Commands[p2][j2]))))))
  ensures imp(err != nil, exists(p, string, exists(j, int, exists(p2, string, exists(j2, int, cmdat(r, p, j) && cmdat(r, p2, j2) && (p != p2 || j != j2) && clash(r.Commands[p][j], r.Commands[p2][j2]))))))
  ensures imp(err == nil, forall(i, int, forall(i2, int, imp(0 <= i && i < i2 && i2 < len(exports), exports[i].Name != exports[i2].Name), trig(exports[i], exports[i2]))))
  hint cc: pkg == pat(seq(pkgs), N) && pidx(seq(pkgs), pkg) == N && has(r.Commands, pkg)
  hint cc: forall(j, int, imp(0 <= j && j < len(r.Commands[pkg]), cc[cst(seq(pkgs), N) + j] == r.Commands[pkg][j]), r.Commands[pkg][j])
  hint cc: forall(k, int, imp(cst(seq(pkgs), N) <= k && k < len(cc), cc[k] == r.Commands[pkg][k - cst(seq(pkgs), N)]), cc[k])
  hint exports: len(exports) > 0 && exports[len(exports)-1] == expof(cc[N])
  loop 1:
    invariant pset(seq(pkgs)) == seenset() && puniq(seq(pkgs)) && fresh(pkgs)
    invariant forall(k, string, imp(seen(k), has(ranged(), k)), seen(k))
  loop 2:
    invariant len(cc) == cst(seq(pkgs), N) && fresh(cc)
    invariant [C20] seq(pkgs) == skeys(dom(r.Commands))
    invariant forall(p, string, forall(j, int, imp(cmdin(r, p, j) && pidx(seq(pkgs), p) < N, cc[cst(seq(pkgs), pidx(seq(pkgs), p)) + j] == r.Commands[p][j])))
    invariant forall(k, int, imp(0 <= k && k < len(cc), exists(p, string, exists(j, int, cmdin(r, p, j) && k == cst(seq(pkgs), pidx(seq(pkgs), p)) + j && cc[k] == r.Commands[p][j]))), cc[k])
  loop 3:
    invariant forall(p, string, forall(j, int, imp(cmdin(r, p, j), 0 <= cst(seq(pkgs), pidx(seq(pkgs), p)) + j && cst(seq(pkgs), pidx(seq(pkgs), p)) + j < len(cc) && cc[cst(seq(pkgs), pidx(seq(pkgs), p)) + j] == r.Commands[p][j])))
    invariant forall(k, int, imp(0 <= k && k < N && issch(cc[k]), exists(i, int, 0 <= i && i < len(exports) && exports[i] == expof(cc[k]), exports[i])), cc[k])
    invariant forall(i, int, imp(0 <= i && i < len(exports), exists(k, int, 0 <= k && k < N && issch(cc[k]) && exports[i] == expof(cc[k]), cc[k])), exports[i])
    invariant forall(k, int, forall(k2, int, imp(0 <= k && k < k2 && k2 < N && issch(cc[k]) && issch(cc[k2]), !clash(cc[k], cc[k2])), trig(cc[k], cc[k2])))
    invariant forall(i, int, forall(i2, int, imp(0 <= i && i < i2 && i2 < len(exports), exports[i].Name != exports[i2].Name), trig(exports[i], exports[i2])))
  loop 4:
    invariant forall(i, int, imp(0 <= i && i < N, exports[i].Name != x.Name), exports[i])
