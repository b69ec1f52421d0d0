package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"go/types"
	"golang.org/x/tools/go/ssa"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type finding struct{ kind, prop, what, text string }

// findings reads the known findings; "fixed" entries suppress nothing.
func findings() []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	var out []finding
	re := regexp.MustCompile(`^finding: property=(\S+) (obligation|input)=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			out = append(out, finding{m[2], m[1], m[3], m[4]})
		}
	}
	return out
}

// cone lists the functions whose contracts the property rests on.
func cone(p *Prog, db *DB, prop string, verified map[string]*FuncReport, missing map[string]bool, verify func([]string)) []string {
	in := map[string]bool{}
	var todo []string
	add := func(k string) {
		c := db.Contracts[k]
		if c == nil || c.Trusted || c.Inline || in[k] {
			return
		}
		in[k] = true
		if p.Funcs[k] == nil {
			missing[k] = true
			return
		}
		todo = append(todo, k)
	}
	for k, c := range db.Contracts {
		for _, x := range c.Props {
			if x == prop {
				add(k)
			}
		}
	}
	for len(todo) > 0 {
		batch := todo
		todo = nil
		sort.Strings(batch)
		verify(batch)
		for _, k := range batch {
			for _, u := range verified[k].Used {
				add(u)
			}
		}
	}
	var out []string
	for k := range verified {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type lemmaResult struct {
	Theory, Lemma string
	OK            bool
	Checks        int
	Seconds       float64
	Output        string
}

// lemmas proves the lemmas of the theories in use.
func proveLemmas(db *DB, r *Runner, used map[string]bool) []lemmaResult {
	var out []lemmaResult
	var mu sync.Mutex
	type job struct{ th, l string }
	var jobs []job
	for _, t := range db.Theories {
		if used[t.name] {
			for _, l := range t.lemmas {
				jobs = append(jobs, job{t.name, l})
			}
		}
	}
	r.each(len(jobs), func(i int) {
		j := jobs[i]
		b, err := os.ReadFile(filepath.Join(db.Dir, "theory", "proofs", j.l+".smt2"))
		res := lemmaResult{Theory: j.th, Lemma: j.l}
		if err != nil {
			res.Output = err.Error()
		} else {
			res.OK, res.Checks, res.Seconds, res.Output = r.lemma(string(b), db)
		}
		mu.Lock()
		out = append(out, res)
		mu.Unlock()
	})
	sort.Slice(out, func(a, b int) bool { return out[a].Lemma < out[b].Lemma })
	return out
}

// lemma runs a proof script: every (check-sat) has to answer unsat. Lines
// ";include FILE" paste another file of the theory directory.
func (r *Runner) lemma(s string, db *DB) (bool, int, float64, string) {
	var b strings.Builder
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, ";include ") {
			f := strings.Fields(l[9:])
			t, err := os.ReadFile(filepath.Join(db.Dir, "theory", f[0]))
			if err != nil {
				return false, 0, 0, err.Error()
			}
			// the definitions, and the lemmas that are named
			drop := false
			for _, tl := range strings.Split(string(t), "\n") {
				if strings.HasPrefix(tl, ";lemma ") {
					drop = true
					for _, n := range f[1:] {
						if n == strings.TrimSpace(tl[7:]) {
							drop = false
						}
					}
					continue
				}
				if !drop {
					b.WriteString(tl + "\n")
				}
				drop = false
			}
			continue
		}
		b.WriteString(l + "\n")
	}
	want := strings.Count(s, "(check-sat)")
	text, extra := litNames(b.String(), nil)
	b.Reset()
	b.WriteString(prelude + extraLits(extra) + strings.Join(litFacts(nil, nil, nil, extra), "\n") + "\n" + text)
	var last Result
	for _, be := range []backend{z3fast, cvc5inc, z3seed} {
		res := r.run(be, b.String(), 30*time.Second)
		last = res
		n := 0
		ok := true
		for _, l := range strings.Split(res.Output, "\n") {
			switch strings.TrimSpace(l) {
			case "unsat":
				n++
			case "":
			default:
				ok = false
			}
		}
		if ok && n == want && want > 0 {
			return true, want, res.Seconds, ""
		}
	}
	return false, want, last.Seconds, last.Output
}

var cvc5inc = backend{"cvc5", func(t time.Duration) []string {
	return []string{"--lang", "smt2", "--incremental", fmt.Sprintf("--tlimit=%d", t.Milliseconds())}
}}

type harnessResult struct {
	Ran      bool
	Note     string
	Cases    int
	Distinct int
	Rule     []string
	Samples  []string
	Failures []string
	Tests    []string
	Output   string
	Seconds  float64
	Cmd      string
	Skipped  []string // inputs of listed findings
}

// harness runs the bounded conformance tests of the property against the
// real code.
func harness(prop, tier string, seed int) *harnessResult {
	h := &harnessResult{}
	dir := filepath.Join(verifDir(), "harness")
	b, err := os.ReadFile(filepath.Join(dir, "overlay.txt"))
	if err != nil {
		return h
	}
	repl := map[string]string{}
	pkgs := map[string]bool{}
	race := false
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) == 4 && f[3] == "race" && f[0] == prop {
			race = true
		} else if len(f) == 4 && f[0] == prop {
			continue
		}
		if len(f) != 3 && len(f) != 4 || strings.HasPrefix(f[0], "#") {
			continue
		}
		if f[0] != "*" && f[0] != prop {
			continue
		}
		repl[filepath.Join(repoDir(), f[1], "zz_verif_"+filepath.Base(f[2]))] = filepath.Join(dir, f[2])
		if f[0] == prop {
			pkgs["./"+f[1]] = true
		}
	}
	if len(pkgs) == 0 {
		return h
	}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		h.Note = err.Error()
		return h
	}
	defer os.RemoveAll(tmp)
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(filepath.Join(tmp, "overlay.json"), ov, 0o644)
	timeout := 300 * time.Second
	if tier == "thorough" {
		timeout = 600 * time.Second
	}
	args := []string{"test", "-vet=off", "-count=1", "-v", "-timeout", timeout.String(), "-overlay", filepath.Join(tmp, "overlay.json"), "-run", "^TestVerif" + prop}
	if race {
		args = append(args, "-race")
	}
	var ps []string
	for p := range pkgs {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	args = append(args, ps...)
	h.Cmd = "go test -vet=off -count=1 -v -overlay <generated from /verif/harness/overlay.txt> -run ^TestVerif" + prop + " " + strings.Join(ps, " ")
	ctx, cancel := context.WithTimeout(context.Background(), timeout+120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = repoDir()
	var kn []string
	for _, f := range findings() {
		if f.prop == prop && f.kind == "input" {
			kn = append(kn, f.what)
		}
	}
	cmd.Env = append(goEnv(""), "VERIF_KNOWN="+strings.Join(kn, " "), "VERIF_SEED="+strconv.Itoa(seed), "VERIF_TIER="+tier, "VERIF_SCRATCH="+tmp)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	start := time.Now()
	err = cmd.Run()
	h.Seconds = time.Since(start).Seconds()
	h.Output = out.String()
	if strings.Contains(h.Output, "[build failed]") || strings.Contains(h.Output, "[setup failed]") {
		h.Note = "the conformance tests do not compile against this tree; nothing was run: " + tail(h.Output, 600)
		return h
	}
	h.Ran = true
	for _, l := range strings.Split(h.Output, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "VERIF-CASES "); i >= 0 {
			var n, d int
			fmt.Sscan(l[i+12:], &n, &d)
			h.Cases += n
			h.Distinct += d
		}
		if i := strings.Index(l, "VERIF-RULE "); i >= 0 {
			h.Rule = append(h.Rule, l[i+11:])
		}
		if i := strings.Index(l, "VERIF-SAMPLE "); i >= 0 {
			h.Samples = append(h.Samples, l[i+13:])
		}
		if i := strings.Index(l, "VERIF-FAIL "); i >= 0 {
			h.Failures = append(h.Failures, l[i+11:])
		}
		if strings.HasPrefix(l, "=== RUN ") {
			h.Tests = append(h.Tests, strings.TrimSpace(l[8:]))
		}
	}
	if err != nil && len(h.Failures) == 0 {
		// crashed or timed out while running the code under test
		switch {
		case strings.Contains(h.Output, "test timed out"):
			h.Failures = append(h.Failures, "the code under test did not come back within "+timeout.String())
		case strings.Contains(h.Output, "panic:"), strings.Contains(h.Output, "fatal error:"), strings.Contains(h.Output, "DATA RACE"):
			h.Failures = append(h.Failures, "the code under test crashed: "+firstLine(h.Output, "panic:", "fatal error:", "DATA RACE"))
		case strings.Contains(h.Output, "--- FAIL"):
			h.Failures = append(h.Failures, firstLine(h.Output, "--- FAIL"))
		default:
			h.Ran = false
			h.Note = "the conformance tests could not be run: " + err.Error() + ": " + tail(h.Output, 400)
		}
	}
	return h
}

func firstLine(s string, subs ...string) string {
	for _, sub := range subs {
		for _, l := range strings.Split(s, "\n") {
			if strings.Contains(l, sub) {
				return strings.TrimSpace(l)
			}
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func exported(key string) bool {
	i := strings.LastIndex(key, ".")
	return token.IsExported(key[i+1:]) && !strings.Contains(key, "$")
}

func relevant(o *Ob, prop string) bool {
	if len(o.Props) == 0 {
		return true
	}
	for _, x := range o.Props {
		if x == prop {
			return true
		}
	}
	return false
}

func check(p *Prog, loadErr error, args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	fs.Parse(args)
	if *tier == "" {
		*tier = "quick"
	}
	seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		seed = 1
	}
	start := time.Now()
	if loadErr != nil {
		fmt.Fprintf(os.Stderr, "the repository cannot be loaded: %v\n", loadErr)
		return 2
	}
	db, err := loadDB(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	timeout := 12 * time.Second
	if *tier == "thorough" {
		timeout = 60 * time.Second
	}
	r := newRunner(8, timeout)

	// the harness runs while the solvers do
	hc := make(chan *harnessResult, 1)
	go func() { hc <- harness(*prop, *tier, seed) }()

	verified := map[string]*FuncReport{}
	missing := map[string]bool{}
	var mu sync.Mutex
	funcs := cone(p, db, *prop, verified, missing, func(ks []string) {
		r.each(len(ks), func(i int) {
			rep := verifyFunc(p, db, ks[i], r)
			mu.Lock()
			verified[ks[i]] = rep
			mu.Unlock()
		})
	})
	known := findings()
	isKnown := func(kind, what string) *finding {
		for i := range known {
			if known[i].prop == *prop && known[i].kind == kind && (known[i].what == what || kind == "obligation" && known[i].what == strings.SplitN(what, "@", 2)[0]) {
				return &known[i]
			}
		}
		return nil
	}
	total, done := 0, 0
	var failed []Result
	var errs []string
	var lines []string
	theories := map[string]bool{}
	assumed := map[string]bool{}
	inlined := map[string]bool{}
	backends := map[string]int{}
	covers := 0
	fnReport := []string{}
	for _, k := range funcs {
		rep := verified[k]
		if rep.Err != "" {
			total++
			errs = append(errs, k+": "+rep.Err)
			continue
		}
		n, d := 0, 0
		for _, x := range rep.Results {
			if x.Ob.Kind == "cover" {
				covers++
				if !x.OK {
					if f := isKnown("obligation", k+"/"+x.Ob.Name); f != nil {
						lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (obligation %s)", *prop, f.text, f.what))
						continue
					}
					failed = append(failed, x)
				}
				continue
			}
			if !relevant(x.Ob, *prop) && (x.Ob.Kind == "ensures" || x.Ob.Kind == "requires" || x.Ob.Kind == "guard") {
				continue
			}
			for _, t := range db.Theories {
				if !theories[t.name] && strings.Contains(x.Script, "; theory "+t.name+"\n") {
					theories[t.name] = true
				}
			}
			n++
			if x.OK {
				d++
				backends[x.Solver]++
				continue
			}
			if f := isKnown("obligation", k+"/"+x.Ob.Name); f != nil {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (obligation %s)", *prop, f.text, f.what))
				continue
			}
			failed = append(failed, x)
		}
		total += n
		done += d
		fnReport = append(fnReport, fmt.Sprintf("%s: %d/%d", k, d, n))
		for _, a := range rep.Assumed {
			assumed[a] = true
		}
		for _, a := range rep.Inlined {
			inlined[a] = true
		}
	}
	for _, e := range unguarded(p, db, *prop, verified, inlined) {
		total++
		errs = append(errs, e)
	}
	ls := proveLemmas(db, r, theories)
	lemmaNames := []string{}
	for _, l := range ls {
		total++
		if l.OK {
			done++
			backends["lemma scripts"]++
			lemmaNames = append(lemmaNames, l.Theory+"/"+l.Lemma)
		} else {
			errs = append(errs, "lemma "+l.Lemma+" of theory "+l.Theory+" is not proved: "+l.Output)
		}
	}
	var gone []string
	for k := range missing {
		if exported(k) {
			errs = append(errs, k+": the function does not exist any more")
			total++
			continue
		}
		gone = append(gone, k)
	}
	sort.Strings(gone)
	if total == 0 && *prop != "" {
		errs = append(errs, "no obligation was generated")
	}
	h := <-hc
	provedBefore := map[string]int{}
	for k, v := range r.proved {
		provedBefore[k] = v
	}
	var fails []string
	for _, f := range h.Failures {
		if i := strings.Index(f, " "); i > 0 {
			if k := isKnown("input", f[:i]); k != nil {
				lines = append(lines, fmt.Sprintf("KNOWN-FINDING: property=%s %s (input %s)", *prop, k.text, k.what))
				continue
			}
		}
		fails = append(fails, f)
	}
	h.Failures = fails

	// Obligations the solvers gave up on may have lost the race for the
	// processors: they get one more, longer, try with nothing else running.
	if len(h.Failures) == 0 && len(errs) == 0 && len(failed) <= 24 {
		failed = r.again(failed, start.Add(500*time.Second))
		for _, k := range sortedKeys(r.proved) {
			backends[k] += r.proved[k] - provedBefore[k]
		}
		done += len(r.retried)
	}

	// trusted base
	var trusted []string
	for _, k := range sortedKeys(db.Contracts) {
		c := db.Contracts[k]
		if c.Trusted && (assumed["trusted contract: "+k] || assumed["trusted contract: "+strings.TrimPrefix(k, "func ")]) {
			trusted = append(trusted, "assumed contract of "+strings.TrimPrefix(k, "func ")+orEmpty(": ", c.Why))
		}
	}
	var assumptions []string
	for _, a := range sortedKeys(assumed) {
		if !strings.HasPrefix(a, "trusted contract: ") {
			assumptions = append(assumptions, a)
		}
	}
	assumptions = append(assumptions,
		"partial correctness: termination is not proved; run-time panics are assumed absent except in functions marked safe",
		"JSON objects (map[string]interface{}) are treated as immutable values; sharing between documents is covered by C05",
		"the theories in /verif/contracts/theory and the axioms of the prelude are consistent")
	base := append([]string{"govc (generator of verification conditions, /verif/govc)", "golang.org/x/tools/go/ssa (translation of the Go source to SSA)", "z3 5.x (z3-new), cvc5 1.1.2, z3 4.8.12"}, trusted...)
	for _, t := range sortedKeys(theories) {
		base = append(base, "theory "+t+" (definitions and axioms)")
	}

	viol := len(failed) > 0 || len(errs) > 0 || len(h.Failures) > 0
	replay := ""
	if viol {
		dir := filepath.Join(evidenceDir(), "replays")
		os.MkdirAll(dir, 0o755)
		replay = filepath.Join(dir, *prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property %s, tier %s, seed %d\n", *prop, *tier, seed)
		if len(h.Failures) > 0 {
			fmt.Fprintf(&b, "\nFAILING INPUTS against the real code\nreplay: cd %s && VERIF_SEED=%d VERIF_TIER=%s %s\n", repoDir(), seed, *tier, h.Cmd)
			for _, f := range h.Failures {
				fmt.Fprintf(&b, "  %s\n", f)
			}
		}
		for _, e := range errs {
			fmt.Fprintf(&b, "\nOBLIGATION NOT GENERATED OR NOT PROVED %s\n", e)
		}
		for _, f := range failed {
			fmt.Fprintf(&b, "\nFAILED OBLIGATION %s/%s (%s)\n  %s\n  contract %s\n  answer %s, solver output:\n    %s\n  query:\n", f.Ob.Func, f.Ob.Name, f.Ob.Kind, f.Ob.Text, f.Ob.Pos, f.Answer, strings.ReplaceAll(f.Output, "\n", "\n    "))
			q := filepath.Join(dir, fmt.Sprintf("%s.%s.%s.smt2", *prop, san(f.Ob.Func), san(f.Ob.Name)))
			os.WriteFile(q, []byte(f.Script), 0o644)
			fmt.Fprintf(&b, "    %s\n", q)
		}
		if h.Ran {
			fmt.Fprintf(&b, "\noutput of the conformance tests:\n%s\n", tail(h.Output, 20000))
		}
		os.WriteFile(replay, []byte(b.String()), 0o644)
	}
	samples := h.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	sec := map[string]float64{}
	for k, v := range r.seconds {
		sec[k] = float64(int(v*100)) / 100
	}
	cov := map[string]interface{}{
		"obligations": total, "discharged": done, "checker_cmd": "/verif/bin/check " + *prop + " " + *tier,
		"trusted_base": base, "functions_under_contract": fnReport, "discharged_by": backends, "solver_seconds": sec, "solver_calls": r.calls,
		"reachability_checks": covers, "discharged_on_second_try": len(r.retried), "lemmas_proved": lemmaNames, "inlined_without_contract": sortedKeys(inlined), "contracts_of_functions_no_longer_present": gone,
		"bounded_conformance": map[string]interface{}{
			"note":     "bounded, not counted as proved: tests of the real code against an independent oracle " + h.Note,
			"ran":      h.Ran,
			"tests":    h.Tests,
			"failures": len(h.Failures),
			"seconds":  float64(int(h.Seconds*10)) / 10,
		},
	}
	if h.Ran {
		cov["evaluations"] = h.Cases
		cov["distinct_nontrivial"] = h.Distinct
		cov["rule"] = strings.Join(h.Rule, "; ")
		cov["samples"] = samples
	}
	nviol := 0
	if viol {
		nviol = len(failed) + len(errs) + len(h.Failures)
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "proof", "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*10)) / 10, "assumptions": assumptions, "violations": nviol,
	}
	os.MkdirAll(evidenceDir(), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evidenceDir(), *prop+".json"), append(eb, '\n'), 0o644)

	for _, l := range lines {
		fmt.Println(l)
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d lemmas; conformance: %d cases (%s)\n", *prop, total, done, len(funcs), len(ls), h.Cases, orText(h.Note, "bounded"))
	if !viol {
		return 0
	}
	for _, e := range errs {
		fmt.Println("undischarged: " + e)
	}
	for _, f := range failed {
		fmt.Printf("failed obligation: %s/%s: %s\n", f.Ob.Func, f.Ob.Name, f.Ob.Text)
	}
	for _, f := range h.Failures {
		fmt.Println("failing input: " + f)
	}
	if len(h.Failures) > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, replay)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", *prop, replay)
	}
	return 1
}

func orEmpty(pre, s string) string {
	if s == "" {
		return ""
	}
	return pre + s
}

func orText(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

func sortedKeys[V any](m map[string]V) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func evidenceDir() string {
	if d := os.Getenv("EVIDENCE_DIR"); d != "" {
		return d
	}
	return filepath.Join(verifDir(), "evidence")
}

// unguarded finds uses of guarded variables in functions whose bodies were
// not looked at.
func unguarded(p *Prog, db *DB, prop string, verified map[string]*FuncReport, inlined map[string]bool) []string {
	var out []string
	for g, cl := range db.Guards {
		mine := false
		for _, x := range cl.Props {
			mine = mine || x == prop
		}
		if !mine {
			continue
		}
		i := strings.IndexByte(g, '.')
		pk := p.ByShort[g[:i]]
		if pk == nil || p.SSA.Package(pk) == nil {
			continue
		}
		gl, ok := p.SSA.Package(pk).Members[g[i+1:]].(*ssa.Global)
		if !ok {
			out = append(out, "guarded variable "+g+" does not exist any more")
			continue
		}
		for _, k := range sortedKeys(p.Funcs) {
			f := p.Funcs[k]
			if f.Pkg == nil || f.Pkg.Pkg != pk && !gl.Object().Exported() || f.Synthetic != "" || verified[k] != nil || inlined[k] {
				continue
			}
			uses := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						uses = uses || *o == ssa.Value(gl)
					}
				}
			}
			if uses {
				out = append(out, k+" uses "+g+" and is not under contract")
			}
		}
	}
	for _, cf := range db.Confined {
		mine := false
		for _, x := range cf.props {
			mine = mine || x == prop
		}
		if !mine {
			continue
		}
		names := map[string]bool{}
		for _, n := range cf.names {
			names[n] = true
		}
		for _, k := range sortedKeys(p.Funcs) {
			f := p.Funcs[k]
			if cf.ordered {
				if f.Pkg != nil && p.Repo[f.Pkg.Pkg.Path()] && f.Synthetic == "" && !names[k] {
					checked := verified[k] != nil || inlined[k]
					for _, w := range p.varying(f, checked) {
						out = append(out, k+" "+w)
					}
				}
				continue
			}
			if f.Pkg == nil || !p.Repo[f.Pkg.Pkg.Path()] || verified[k] != nil || inlined[k] {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, o := range in.Operands(nil) {
						n := ""
						switch x := (*o).(type) {
						case *ssa.Function:
							if n = p.Keys[x]; n == "" {
								n = x.String()
							}
						case *ssa.Global:
							if x.Pkg != nil {
								n = p.short(x.Pkg.Pkg) + "." + x.Name()
							}
						}
						if n != "" && names[n] {
							out = append(out, k+" uses "+n+" and is not under contract")
						}
					}
				}
			}
		}
	}
	return out
}

// varying lists what a function does that need not give the same every time.
// Orders of maps are fine in functions whose contract is checked, as any order
// is considered there.
func (p *Prog) varying(f *ssa.Function, checked bool) []string {
	var out []string
	say := func(s string) {
		for _, x := range out {
			if x == s {
				return
			}
		}
		out = append(out, s)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok && !checked {
					say("iterates over a map and is not under contract")
				}
			case *ssa.Go:
				say("starts a goroutine")
			case *ssa.Select:
				say("selects")
			}
			for _, o := range in.Operands(nil) {
				g, ok := (*o).(*ssa.Function)
				if !ok {
					continue
				}
				pkg, n := "", g.RelString(nil)
				if g.Pkg != nil {
					pkg = g.Pkg.Pkg.Path()
				}
				switch {
				case pkg == "math/rand" || pkg == "math/rand/v2" || pkg == "crypto/rand" || n == "time.Now" || n == "time.Since" || n == "time.Until" || n == "os.Getpid" || n == "os.Hostname":
					say("uses " + n)
				case n == "(*golang.org/x/tools/go/types/typeutil.Map).Iterate" || n == "(*golang.org/x/tools/go/types/typeutil.Map).Keys" || n == "(reflect.Value).MapKeys" || n == "(reflect.Value).MapRange" || n == "(*sync.Map).Range" || n == "maps.Keys" || n == "maps.Values":
					if !checked {
						say("uses " + n + " and is not under contract")
					}
				}
			}
		}
	}
	return out
}
