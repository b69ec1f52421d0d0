# C18: what the command does when a step fails, and what it writes
ghost failed Bool
ghost wrote Int
ghost werr Bool
ghost wto Any
ghost wdata Str
ghost fname (Array Int Str)
ghost fopen (Array Int Bool)
ghost fdata Str
ghost ffmt Str
ghost cout Str
ghost cfmt Str
confined [C18] os.OpenFile os.Create os.Rename os.Remove os.RemoveAll os.Mkdir os.MkdirAll os.Truncate os.WriteFile os.Link os.Symlink os.Chmod os.Exit os.Stdout os.Stderr io/ioutil.WriteFile ioutil.WriteFile fmt.Print fmt.Printf fmt.Println
extern os.OpenFile(name, flag, perm) (f, err)
  requires [C18] !ghost.failed
  requires [C18] flag == 577 || flag == 578
  ensures imp(err == nil, f != nil && ghost.fname[f] == name && ghost.fopen[f])
extern os.Create(name) (f, err)
  requires [C18] !ghost.failed
  ensures imp(err == nil, f != nil && ghost.fname[f] == name && ghost.fopen[f])
extern os.Exit(code)
  noreturn
  requires [C18] code != 0 && (ghost.wrote == 0 || ghost.werr)
extern os.Rename(a, b) (err)
  requires [C18] false
extern os.Remove(a) (err)
  requires [C18] false
extern os.RemoveAll(a) (err)
  requires [C18] false
extern os.Mkdir(a, p) (err)
  requires [C18] false
extern os.MkdirAll(a, p) (err)
  requires [C18] false
extern os.Truncate(a, p) (err)
  requires [C18] !ghost.failed
extern bytes.NewBuffer(b) (r)
  ensures r != nil && ghost.bufc[r] == bstr(row(b), off(b), len(b))
extern bytes.NewReader(b) (r)
  ensures r != nil && ghost.bufc[r] == bstr(row(b), off(b), len(b))
extern io.Copy(dst, src) (n, err)
  requires [C18] !ghost.failed
  sets wrote = ghost.wrote + 1
  sets werr = err != nil
  sets wto = dst
  sets wdata = ghost.bufc[as(src, *bytes.Buffer)]
extern io.Writer.Write(w, b) (n, err)
  requires [C18] !ghost.failed
  sets wrote = ghost.wrote + 1
  sets werr = err != nil
  sets wto = w
  sets wdata = bstr(row(b), off(b), len(b))
extern os.File.Write(f, b) (n, err)
  requires [C18] !ghost.failed
  sets wrote = ghost.wrote + 1
  sets werr = err != nil
  sets wto = any(f)
  sets wdata = bstr(row(b), off(b), len(b))
func root.newOAPI
  props C18
  abstract
  tracks failed
  modifies ghost.failed
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
func root.Scan
  props C18
  abstract
  tracks failed
  modifies all
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
  ensures ghost.wrote == old(ghost.wrote) && ghost.werr == old(ghost.werr) && ghost.cout == old(ghost.cout) && ghost.cfmt == old(ghost.cfmt)
func main.scan
  props C18
  abstract
  tracks failed
  modifies all
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
  ensures ghost.wrote == old(ghost.wrote) && ghost.werr == old(ghost.werr) && ghost.cout == old(ghost.cout) && ghost.cfmt == old(ghost.cfmt)
func main.main
  props C18
  abstract
  tracks failed
  requires !ghost.failed && ghost.wrote == 0
  modifies all
  ensures !ghost.failed && ghost.wrote == 1 && !ghost.werr
  ensures ghost.wdata == ghost.fdata && ghost.ffmt == ghost.cfmt
  ensures imp(ghost.cout == "" || ghost.cout == "stdout", ghost.wto == any(os.Stdout))
  ensures imp(ghost.cout == "stderr", ghost.wto == any(os.Stderr))
  ensures imp(ghost.cout != "" && !stdio(ghost.cout), is(ghost.wto, *os.File) && ghost.fopen[as(ghost.wto, *os.File)] && ghost.fname[as(ghost.wto, *os.File)] == ghost.cout)
func container.ReadDir
  props C18 C25
  abstract
  tracks failed
  modifies ghost.failed
  let P = seq(patterns)
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
  ensures [C25] imp(err == nil && len(patterns) > 0, forall(i, int, imp(0 <= i && i < len(cc), specfile(dir, P, cc[i].path) && fresh(cc[i].c) && asread(cc[i])), cc[i]))
  ensures [C25] imp(err == nil && len(patterns) > 0, forall(f, string, imp(specfile(dir, P, f), exists(i, int, 0 <= i && i < len(cc) && cc[i].path == f, cc[i])), specfile(dir, P, f)))
  ensures [C25] imp(err == nil && len(patterns) > 0, forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(cc), cc[i].c != cc[j].c), trig(cc[i], cc[j]))))
  loop 1:
    invariant ghost.failed == old(ghost.failed)
    invariant [C25] cap(ff) == 0 || fresh(rowid(ff))
    invariant [C25] imp(old(len(patterns)) > 0, seq(patterns) == P)
    invariant [C25] forall(f, string, infile(dir, seq(patterns), N, f) == pset(seq(ff))[f], infile(dir, seq(patterns), N, f), pset(seq(ff))[f])
  loop 2:
    invariant ghost.failed == old(ghost.failed)
    invariant [C25] len(cc) == N && (cap(cc) == 0 || fresh(rowid(cc)))
    invariant [C25] forall(i, int, imp(0 <= i && i < N, cc[i].path == ff[i] && fresh(cc[i].c) && alive(cc[i].c) && asread(cc[i])), cc[i], ff[i])
    invariant [C25] forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(cc), cc[i].c != cc[j].c), trig(cc[i], cc[j])))
func specs.Scanner.Scan
  props C18 C25
  abstract
  tracks failed except pointer.NewGoPointer
  modifies all
  let D = moddir(pkg)
  let P = seq(r.patterns)
  let G = "go://" + pkg.PkgPath + "#/"
  let O = len(r.Containers)
  requires [C25] pkg.Module != nil && len(r.patterns) > 0 && r.Pointers != nil && ptrok(G) && G != "" && G != "#"
  requires [C25] forall(k, string, imp(has(r.Pointers, k), ptext(r.Pointers[k]) == k), has(r.Pointers, k))
  ensures imp(err == nil, ghost.failed == old(ghost.failed))
  ensures ghost.wrote == old(ghost.wrote) && ghost.werr == old(ghost.werr)
  ensures [C25] imp(err == nil, len(r.Containers) >= O && forall(i, int, imp(0 <= i && i < O, r.Containers[i] == old(r.Containers[i])), r.Containers[i]))
  ensures [C25] imp(err == nil, forall(j, int, imp(O <= j && j < len(r.Containers), specfile(D, P, r.Containers[j].path) && quald(r.Containers[j], r.Pointers, G)), r.Containers[j]))
  ensures [C25] imp(err == nil, forall(f, string, imp(specfile(D, P, f) && sany(f) && isspec(f), exists(j, int, O <= j && j < len(r.Containers) && r.Containers[j].path == f, r.Containers[j])), specfile(D, P, f)))
  ensures [C25] forall(k, string, imp(has(r.Pointers, k), ptext(r.Pointers[k]) == k), has(r.Pointers, k))
  ensures [C25] forall(k, string, imp(old(has(r.Pointers, k)), has(r.Pointers, k)), has(r.Pointers, k))
  hint v: imp(sany(c.path), v.Key == dtext(psnoc(xpath(sdoc(c.path), "$ref", N), "$ref")) && v.Val == refat(sdoc(c.path), xpath(sdoc(c.path), "$ref", N)))
  hint v: imp(sany(c.path), dparse(v.Key) == psnoc(xpath(sdoc(c.path), "$ref", N), "$ref") && xidx(sdoc(c.path), "$ref", xpath(sdoc(c.path), "$ref", N)) == N)
  hint call pointer.Pointer.String: r0 == qualtext(G, x)
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string), is(refat(sdoc(c.path), q), string)), refat(c.c.object, q)))
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string) && xidx(sdoc(c.path), "$ref", q) != N, q != xpath(sdoc(c.path), "$ref", N)), refat(c.c.object, q)))
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string) && xidx(sdoc(c.path), "$ref", q) < N, refat(c.c.object, q) == jcl(any(qualof(sdoc(c.path), q, G)))), refat(c.c.object, q)))
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string) && xidx(sdoc(c.path), "$ref", q) < N, has(r.Pointers, qualof(sdoc(c.path), q, G))), refat(c.c.object, q)))
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string) && xidx(sdoc(c.path), "$ref", q) == N, refat(c.c.object, q) == jcl(any(qualof(sdoc(c.path), q, G))) && has(r.Pointers, qualof(sdoc(c.path), q, G))), refat(c.c.object, q)))
  hint call container.Container.SetP: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(c.c.object, q), string) && !(xidx(sdoc(c.path), "$ref", q) < N) && xidx(sdoc(c.path), "$ref", q) != N, refat(c.c.object, q) == refat(sdoc(c.path), q)), refat(c.c.object, q)))
  loop 1:
    invariant ghost.failed == old(ghost.failed) && ghost.wrote == old(ghost.wrote) && ghost.werr == old(ghost.werr)
    invariant [C25] r.Pointers == old(r.Pointers) && r.Containers == old(r.Containers) && (cap(cc) == 0 || fresh(rowid(cc)) && rowid(cc) != rowid(ff))
    invariant [C25] forall(i, int, imp(0 <= i && i < O, r.Containers[i] == old(r.Containers[i])), r.Containers[i])
    invariant [C25] forall(k, string, imp(has(r.Pointers, k), ptext(r.Pointers[k]) == k), has(r.Pointers, k))
    invariant [C25] forall(k, string, imp(old(has(r.Pointers, k)), has(r.Pointers, k)), has(r.Pointers, k))
    invariant [C25] forall(f, string, imp(specfile(D, P, f), exists(i, int, 0 <= i && i < len(ff) && ff[i].path == f, ff[i])), specfile(D, P, f))
    invariant [C25] forall(i, int, imp(0 <= i && i < len(ff), specfile(D, P, ff[i].path)), ff[i])
    invariant [C25] forall(i, int, imp(N <= i && i < len(ff), asread(ff[i])), ff[i])
    invariant [C25] forall(i, int, forall(j, int, imp(0 <= i && i < j && j < len(ff), ff[i].c != ff[j].c), trig(ff[i], ff[j])))
    invariant [C25] forall(i, int, forall(j, int, imp(0 <= j && j < len(cc) && N <= i && i < len(ff), cc[j].c != ff[i].c), trig(cc[j], ff[i])))
    invariant [C25] forall(j, int, imp(0 <= j && j < len(cc), specfile(D, P, cc[j].path) && alive(cc[j].c) && quald(cc[j], r.Pointers, G)), cc[j])
    invariant [C25] forall(i, int, imp(0 <= i && i < N && sany(ff[i].path) && isspec(ff[i].path), exists(j, int, 0 <= j && j < len(cc) && cc[j].path == ff[i].path, cc[j])), ff[i])
  hint refs: imp(err == nil && sany(c.path), forall(q, Path, imp(is(refat(sdoc(c.path), q), string), 0 <= xidx(sdoc(c.path), "$ref", q) && xidx(sdoc(c.path), "$ref", q) < len(refs)), refat(sdoc(c.path), q)))
  loop 2:
    invariant ghost.failed == old(ghost.failed) && ghost.wrote == old(ghost.wrote) && ghost.werr == old(ghost.werr)
    invariant [C25] r.Pointers == old(r.Pointers) && r.Containers == old(r.Containers)
    invariant [C25] forall(k, string, imp(has(r.Pointers, k), ptext(r.Pointers[k]) == k), has(r.Pointers, k))
    invariant [C25] forall(k, string, imp(old(has(r.Pointers, k)), has(r.Pointers, k)), has(r.Pointers, k))
    invariant [C25] forall(i, int, imp(N1 < i && i < len(ff), asread(ff[i])), ff[i])
    invariant [C25] forall(j, int, imp(0 <= j && j < len(cc), quald(cc[j], r.Pointers, G)), cc[j])
    invariant [C25] c.c != nil && alive(c.c) && specfile(D, P, c.path)
    invariant [C25] imp(sany(c.path), forall(q, Path, imp(is(refat(sdoc(c.path), q), string), 0 <= xidx(sdoc(c.path), "$ref", q) && xidx(sdoc(c.path), "$ref", q) < len(refs)), refat(sdoc(c.path), q)))
    invariant [C25] forall(i, int, imp(N1 < i && i < len(ff), ff[i].c != c.c), ff[i])
    invariant [C25] forall(j, int, imp(0 <= j && j < len(cc), cc[j].c != c.c), cc[j])
    invariant [C25] imp(sany(c.path), isspec(c.path) && texts(sdoc(c.path), c.c.object))
    invariant [C25] imp(sany(c.path), refsto(sdoc(c.path), c.c.object, N, r.Pointers, G))
