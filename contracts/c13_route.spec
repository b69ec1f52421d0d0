# C13, C14: routes
ghost held Bool
guard route.regexen [C14] ghost.held
define cached() = route.regexen != nil && forall(k, string, imp(has(route.regexen, k) && route.regexen[k] != nil, rok("(?s)^" + k + "$") && rsrc(route.regexen[k]) == "(?s)^" + k + "$"), route.regexen[k])
extern sync.Mutex.Lock(m)
  requires [C14] !ghost.held
  modifies entries(route.regexen)
  sets held = true
  ensures cached()
  why the lock excludes every other holder; whoever held it before left the cache as stated
extern sync.Mutex.Unlock(m)
  requires [C14] ghost.held
  requires cached()
  sets held = false
extern regexp.Compile(expr) (r, err)
  ensures (err == nil) == rok(expr)
  ensures imp(err == nil, r != nil && fresh(r) && rsrc(r) == expr)
  ensures imp(err != nil, r == nil)
extern regexp.Regexp.MatchString(re, s) (r)
  pure
  ensures r == rmatchs(rsrc(re), s)
extern regexp.Regexp.FindAllStringIndex(re, s, n) (r)
  ensures imp(n < 0, len(r) == rfn(rsrc(re), s))
  ensures forall(i, int, imp(n < 0 && 0 <= i && i < len(r), len(r[i]) == 2 && r[i][0] == rfi(rsrc(re), s, i) && r[i][1] == rfj(rsrc(re), s, i)), r[i])
  why the places of the leftmost matches that do not overlap, in order
extern regexp.QuoteMeta(s) (r)
  ensures r == rquote(s)
extern strings.ToLower(s) (r)
  ensures r == slower(s)
extern strings.EqualFold(s, t) (r)
  ensures r == sfold(s, t)
func route.compileCached
  props C13 C14 C15
  requires !ghost.held
  modifies entries(route.regexen), ghost.held
  ensures [C14, C15] !ghost.held
  ensures [C13, C14, C15] (err == nil) == rok("(?s)^" + pattern + "$")
  ensures [C13, C14, C15] imp(err == nil, r0 != nil && rsrc(r0) == "(?s)^" + pattern + "$")
define mpre(i, p) = sprefix(slower(p), slower(route.methods[i]) + ":")
define mfirst(i, p) = 0 <= i && i < len(route.methods) && mpre(i, p) && forall(j, int, imp(0 <= j && j < i, !mpre(j, p)), route.methods[j])
func route.Match
  props C13 C14 C15
  requires !ghost.held
  modifies entries(route.regexen), ghost.held
  let pat0 = pattern
  ensures [C14, C15] !ghost.held
  ensures [C13, C14, C15] imp(err == nil, r0 == routem(seq(route.methods), pat0, method, path))
  hint met: pat(seq(route.methods), N) == m && imp(mpre(N, pat0), mfo(seq(route.methods), pat0) == N)
  hint call regexp.Regexp.FindAllStringIndex: ite(mfo(seq(route.methods), pat0) < 0, pattern == pat0, pattern == ssub(pat0, len(pat(seq(route.methods), mfo(seq(route.methods), pat0))) + 1, len(pat0)))
  hint call regexp.Regexp.FindAllStringIndex: imp(0 <= mfo(seq(route.methods), pat0), fm == slower(pat(seq(route.methods), mfo(seq(route.methods), pat0))) && (fm == "" || method == "" || sfold(fm, method)))
  hint j: 0 <= N && N < vn(pattern) && i == rfi(vsrc, pattern, N) && j == rfj(vsrc, pattern, N)
  hint j: pattern[i] == 42 || pattern[i] == 123 && pattern[j-1] == 125
  hint j: pparts(pattern, N+1) == psnoc(psnoc(pparts(pattern, N), rquote(ssub(pattern, vlast(pattern, N), i))), ite(pattern[i] == 123, "([^/]+)", "(.*)"))
  hint parts: imp(len(parts) == 2*N+1, seq(parts) == psnoc(pparts(pattern, N), rquote(ssub(pattern, vlast(pattern, N), i))))
  hint parts: imp(len(parts) == 2*N+2, seq(parts) == pparts(pattern, N+1))
  hint pettern: pettern == sjoin(pall(pattern), "")
  hint call route.compileCached: imp(err == nil, rsrc(r0) == rpat(pattern))
  hint call route.compileCached: imp(err == nil, rmatchs(rsrc(r0), path) == fits(pattern, path))
  loop 1:
    invariant pattern == pat0 && fm == "" && forall(j, int, imp(0 <= j && j < N, !mpre(j, pat0)), route.methods[j])
  loop 2:
    invariant last == vlast(pattern, N) && N <= vn(pattern) && 0 <= last && last <= len(pattern)
    invariant len(parts) == 2*N && seq(parts) == pparts(pattern, N)
