package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"
)

// Runner runs solvers, a bounded number at a time.
type Runner struct {
	sem     chan struct{}
	timeout time.Duration
	z3old   string
	mu      sync.Mutex
	seconds map[string]float64
	calls   map[string]int
	proved  map[string]int
	retried []Result
}

func newRunner(n int, timeout time.Duration) *Runner {
	return &Runner{sem: make(chan struct{}, n), timeout: timeout, seconds: map[string]float64{}, calls: map[string]int{}, proved: map[string]int{}}
}

func (r *Runner) each(n int, f func(i int)) {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			f(i)
		}(i)
	}
	wg.Wait()
}

type backend struct {
	name string
	args func(t time.Duration) []string
}

var z3fast = backend{"z3-new", func(t time.Duration) []string {
	return []string{"-in", "-smt2", "auto_config=false", "smt.mbqi=false", "smt.case_split=3", fmt.Sprintf("-T:%d", int(t.Seconds()+0.999))}
}}
var z3seed = backend{"z3-new", func(t time.Duration) []string {
	return []string{"-in", "-smt2", "smt.random_seed=7", fmt.Sprintf("-T:%d", int(t.Seconds()+0.999))}
}}
var z3noext = backend{"z3-new", func(t time.Duration) []string {
	return []string{"-in", "-smt2", "smt.array.extensional=false", fmt.Sprintf("-T:%d", int(t.Seconds()+0.999))}
}}
var z3old = backend{"z3", func(t time.Duration) []string {
	return []string{"-in", "-smt2", "auto_config=false", "smt.mbqi=false", fmt.Sprintf("-T:%d", int(t.Seconds()+0.999))}
}}
var z3olddef = backend{"z3", func(t time.Duration) []string {
	return []string{"-in", "-smt2", fmt.Sprintf("-T:%d", int(t.Seconds()+0.999))}
}}
var cvc5 = backend{"cvc5", func(t time.Duration) []string {
	return []string{"--lang", "smt2", fmt.Sprintf("--tlimit=%d", t.Milliseconds())}
}}

func (r *Runner) run(b backend, script string, t time.Duration) Result {
	r.sem <- struct{}{}
	defer func() { <-r.sem }()
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), t+2*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, b.name, b.args(t)...)
	if b.name == "cvc5" {
		script = noConstArrays(script)
	}
	cmd.Stdin = strings.NewReader(script)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Run()
	d := time.Since(start).Seconds()
	ans := "unknown"
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			ans = "error"
			break
		}
		if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
			ans = l
		}
	}
	r.mu.Lock()
	r.seconds[b.name] += d
	r.calls[b.name]++
	r.mu.Unlock()
	if ans == "error" && os.Getenv("GOVC_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, b.name, out.String())
	}
	return Result{Answer: ans, Solver: b.name, Seconds: d, Output: strings.TrimSpace(out.String())}
}

var constArr = regexp.MustCompile(`\(\(as const \(Array ([^() ]+) ([^() ]+)\)\) ([^() ]+)\)`)

// noConstArrays: cvc5 takes constant arrays of values only; the others become
// constants with an axiom.
func noConstArrays(s string) string {
	var decls strings.Builder
	seen := map[string]string{}
	out := constArr.ReplaceAllStringFunc(s, func(m string) string {
		g := constArr.FindStringSubmatch(m)
		if g[3] == "true" || g[3] == "false" || g[3][0] >= '0' && g[3][0] <= '9' {
			return m
		}
		n := seen[m]
		if n == "" {
			n = fmt.Sprintf("carr!%d", len(seen))
			seen[m] = n
			fmt.Fprintf(&decls, "(declare-const %s (Array %s %s))\n(assert (forall ((i %s)) (! (= (select %s i) %s) :pattern ((select %s i)))))\n", n, g[1], g[2], g[1], n, g[3], n)
		}
		return n
	})
	if len(seen) == 0 {
		return s
	}
	// after the declarations, before the first use
	first := len(out)
	for _, n := range seen {
		if i := strings.Index(out, n); i >= 0 && i < first {
			first = i
		}
	}
	i := strings.LastIndex(out[:first], "\n(")
	if i < 0 {
		return s
	}
	return out[:i+1] + decls.String() + out[i+1:]
}

func (r *Runner) quick(script string, t time.Duration) Result { return r.run(z3fast, script, t) }

// cover looks for a contradiction in what is assumed: the first answer that
// is unsat counts.
func (r *Runner) cover(script string) Result {
	res := r.run(z3fast, script, 2*time.Second)
	for _, b := range []backend{z3seed, z3olddef} {
		if res.Answer == "unsat" || res.Answer == "error" {
			return res
		}
		n := r.run(b, script, 3*time.Second)
		n.Seconds += res.Seconds
		if n.Answer == "error" {
			continue
		}
		res = n
	}
	return res
}

// prove tries the back ends in turn, each briefly first and then longer.
func (r *Runner) prove(script string) Result {
	var first Result
	total := 0.0
	type try struct {
		b backend
		t time.Duration
	}
	short := 3 * time.Second
	tries := []try{{z3fast, short}, {z3old, short}, {z3noext, short}, {z3olddef, short}, {cvc5, short}, {z3fast, r.timeout / 2}, {cvc5, r.timeout}, {z3seed, r.timeout}, {z3old, r.timeout}}
	if os.Getenv("GOVC_FAST") != "" {
		tries = tries[:3]
	}
	gaveUp := map[string]bool{}
	for i, x := range tries {
		if gaveUp[strings.Join(x.b.args(0), " ")+x.b.name] {
			continue
		}
		res := r.run(x.b, script, x.t)
		total += res.Seconds
		if res.Answer == "unsat" {
			r.mu.Lock()
			r.proved[x.b.name]++
			r.mu.Unlock()
			res.Seconds = total
			return res
		}
		if res.Answer != "timeout" && res.Seconds < x.t.Seconds()*0.9 {
			gaveUp[strings.Join(x.b.args(0), " ")+x.b.name] = true
		}
		if i == 0 || first.Answer != "error" && res.Answer == "sat" {
			first = res
		} else {
			first.Output += "\n" + res.Solver + ": " + res.Output
		}
		if res.Answer == "error" && i == 0 {
			break
		}
	}
	first.Seconds = total
	return first
}

// again retries failed obligations with longer limits until the deadline and
// returns those which still fail. The first one which fails again ends it.
func (r *Runner) again(failed []Result, deadline time.Time) []Result {
	still := map[int]bool{}
	var mu sync.Mutex
	stop := false
	r.each(len(failed), func(i int) {
		f := failed[i]
		if f.Ob.Kind == "cover" || f.Answer == "error" {
			mu.Lock()
			still[i], stop = true, true
			mu.Unlock()
			return
		}
		for _, x := range []struct {
			b backend
			t time.Duration
		}{{z3fast, 40 * time.Second}, {z3old, 40 * time.Second}, {z3noext, 40 * time.Second}, {cvc5, 30 * time.Second}} {
			mu.Lock()
			s := stop
			mu.Unlock()
			if s || time.Now().After(deadline) {
				break
			}
			if res := r.run(x.b, f.Script, x.t); res.Answer == "unsat" {
				f.OK, f.Answer, f.Solver = true, "unsat", res.Solver
				mu.Lock()
				r.retried = append(r.retried, f)
				r.proved[x.b.name]++
				mu.Unlock()
				return
			}
		}
		mu.Lock()
		still[i], stop = true, true
		mu.Unlock()
	})
	var out []Result
	for i, f := range failed {
		if still[i] {
			out = append(out, f)
		}
	}
	return out
}
