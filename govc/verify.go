package main

import (
	_ "embed"
	"fmt"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

//go:embed prelude.smt2
var prelude string

// Result of one obligation.
type Result struct {
	Ob      *Ob
	OK      bool
	Answer  string
	Solver  string
	Seconds float64
	Script  string
	Output  string
}

// FuncReport is the outcome for one function.
type FuncReport struct {
	Key     string
	Err     string // outside of the verifier's reach
	Results []Result
	Assumed []string
	Used    []string
	Inlined []string
	Dropped []string
	Vacuous bool
}

// gen generates the obligations of one function.
func gen(p *Prog, db *DB, key string, disabled map[string]bool) (c *Ctx, err error) {
	c = newCtx(p, db, key)
	c.disabled = disabled
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	fn := p.Funcs[key]
	if fn == nil {
		c.unsup("function %s does not exist", key)
	}
	if fn.Blocks == nil {
		c.unsup("function %s has no body", key)
	}
	con := db.Contracts[key]
	c.con, c.props = con, con.Props
	c.baseTags()
	c.alloc0 = "alloc0"
	c.decl("alloc0", "(declare-const alloc0 Int)\n(assert (<= 1 alloc0))")
	st := State{}
	fr := newFrame(fn, 0)
	fr.con, fr.top = con, true
	e := c.newEnv(st, key)
	for i, prm := range fn.Params {
		v := c.freshVal(prm.Type(), "p_"+prm.Name(), st, "true")
		fr.vals[prm] = v
		e.names[prm.Name()] = v
		if i < len(con.Params) {
			e.names[con.Params[i]] = v
		}
	}
	for i, fv := range fn.FreeVars {
		var v *Val
		if pt, ok := fv.Type().Underlying().(*types.Pointer); ok {
			k := c.regKey(fmt.Sprintf("L:fv%d", i), c.sortOf(pt.Elem()))
			c.get(st, k)
			v = &Val{T: fv.Type(), S: "Ref", LV: &LV{key: k, T: pt.Elem()}}
		} else {
			v = c.freshVal(fv.Type(), "fv_"+fv.Name(), st, "true")
		}
		fr.vals[fv] = v
		e.names[fv.Name()] = c.freeVar(fv, v)
	}
	for i, fv := range fn.FreeVars {
		if v := fr.vals[fv]; v.LV != nil {
			if f := capturedClosure(fn, i, fr.vals); f != nil {
				c.cellFn[v.LV.key] = f
			}
		}
	}
	c.stack = []string{key}
	c.lets(con, e)
	for _, cl := range con.Requires {
		c.assume(c.clause(cl, e))
	}
	c.entryEnv = e.at(State{})
	fr.env0 = c.entryEnv
	for _, m := range c.targets(con, c.entryEnv) {
		if m.key == "*" {
			c.modAll = true
		}
		c.mods = append(c.mods, m)
	}
	c.obs = append(c.obs, &Ob{Name: "requires-consistent", Func: key, Kind: "cover", Text: "precondition can hold", Guard: "true", Goal: "false", at: len(c.items)})
	c.exec(fr, st.clone(), "true")
	sig := fn.Signature
	var gs []string
	for ri, r := range fr.rets {
		gs = append(gs, r.guard)
		if len(con.Sets) > 0 {
			r.st = r.st.clone()
		}
		post := c.newEnv(r.st, key)
		post.guard = r.guard
		for k, v := range e.names {
			post.names[k] = v
		}
		post.old = c.entryEnv
		res := &Val{T: sig.Results()}
		switch {
		case sig.Results().Len() == 1:
			res = r.vals[0]
		default:
			res.Tup = r.vals
		}
		c.bindResults(con, post, sig, res)
		for _, s := range con.Sets {
			v := c.eval(s.Expr, post)
			r.st[c.ghostKey(s.Name)] = c.term(v, r.st)
		}
		suffix := ""
		if len(fr.rets) > 1 {
			suffix = fmt.Sprintf("@return%d", ri+1)
		}
		if con.NoReturn {
			c.obligeOnly(&Ob{Name: "noreturn" + suffix, Kind: "ensures", Text: "does not return", Guard: r.guard, Goal: "false"})
			continue
		}
		for i, cl := range con.Ensures {
			c.obligeOnly(&Ob{Name: fmt.Sprintf("ensures#%d%s", i+1, suffix), Kind: "ensures", Text: cl.Text, Pos: cl.Pos, Guard: r.guard, Goal: c.clause(cl, post), Props: cl.Props})
		}
	}
	if !con.NoReturn {
		c.obs = append(c.obs, &Ob{Name: "reachable", Func: key, Kind: "cover", Text: "the end of the function can be reached", Guard: or(gs...), Goal: "false", at: len(c.items)})
	}
	return c, nil
}

func (c *Ctx) baseTags() {
	anyT := types.NewInterfaceType(nil, nil)
	for _, t := range []types.Type{types.NewMap(types.Typ[types.String], anyT), types.Typ[types.String], types.NewSlice(anyT), types.Typ[types.Bool], types.Typ[types.Int], types.Typ[types.Float64]} {
		c.tag(t)
	}
	c.have["basetags"] = true
	if pk := c.p.AllPkgs["go/types"]; pk != nil && strings.HasPrefix(c.key, "stypes.") {
		for _, n := range []string{"Struct", "Pointer", "Named", "Slice", "Array", "Map", "Basic"} { // 7, 8, ... in theories of types
			c.tag(types.NewPointer(pk.Scope().Lookup(n).Type()))
		}
		c.have["typetags"] = true
	}
}

// script builds the query of an obligation.
func (c *Ctx) script(ob *Ob, drop int) string {
	var body strings.Builder
	for _, d := range c.decls[6:] {
		body.WriteString(d)
		body.WriteByte('\n')
	}
	facts := "; literals\n"
	body.WriteString(facts)
	on := map[string]bool{}
	for _, g := range conjuncts(ob.Guard, nil) {
		on[g] = true
	}
	opt := map[string]string{}
	for _, t := range c.items[:ob.at] {
		if elsewhere(t, on) {
			continue
		}
		if w := c.optional[t]; w != "" {
			opt[w] += "(assert " + t + ")\n"
			continue
		}
		body.WriteString("(assert " + t + ")\n")
	}
	for _, w := range sortedKeys(opt) {
		if strings.Contains(body.String()+ob.Goal, w) {
			body.WriteString(opt[w])
		}
	}
	fmt.Fprintf(&body, "; %s %s: %s\n(assert %s)\n(assert (not %s))\n(check-sat)\n", ob.Func, ob.Name, strings.ReplaceAll(ob.Text, "\n", " "), ob.Guard, ob.Goal)
	var out strings.Builder
	out.WriteString(prelude)
	for _, d := range c.decls[:6] {
		out.WriteString(d + "\n")
	}
	if th := c.db.theoriesFor(body.String()); strings.Contains(th, "; type tags") && !c.have["typetags"] {
		c.unsup("types named in a contract outside of package types")
	}
	th, extra := litNames(c.db.theoriesFor(body.String()), c.lits)
	out.WriteString(extraLits(extra))
	out.WriteString(th)
	lf := c.litFacts(extra...)
	if strings.Contains(th, "(declare-fun dparse ") {
		for _, s := range sortedKeys(c.lits) {
			if s != "" && !strings.ContainsAny(s, ".~") {
				lf = append(lf, fmt.Sprintf("(assert (and (= (dparse %s) (psnoc pnil %s)) (= (desc %s) %s)))", c.lits[s], c.lits[s], c.lits[s], c.lits[s]))
			}
		}
	}
	out.WriteString(strings.Replace(body.String(), facts, strings.Join(lf, "\n")+"\n", 1))
	return out.String()
}

var litRe = regexp.MustCompile(`\{\{(.*?)\}\}`)

// litNames replaces {{text}} in a theory by the constant of that literal.
func litNames(s string, lits map[string]string) (string, []string) {
	extra := map[string]bool{}
	s = litRe.ReplaceAllStringFunc(s, func(m string) string {
		t := m[2 : len(m)-2]
		if t == "" {
			return "str!empty"
		}
		if _, ok := lits[t]; !ok {
			extra[t] = true
		}
		return theoryLit(t)
	})
	for t := range lits {
		if t != "" && strings.Contains(s, theoryLit(t)) {
			extra[t] = true
		}
	}
	return s, sortedKeys(extra)
}

func theoryLit(t string) string { return fmt.Sprintf("tlit!%x", t) }

func extraLits(x []string) string {
	var b strings.Builder
	for _, t := range x {
		fmt.Fprintf(&b, "(declare-const %s Str) ; %q\n", theoryLit(t), t)
	}
	return b.String()
}

func words(s string) map[string]bool {
	m := map[string]bool{}
	start := -1
	for i := 0; i <= len(s); i++ {
		ok := i < len(s) && s[i] != ' ' && s[i] != '(' && s[i] != ')' && s[i] != '\n'
		if ok && start < 0 {
			start = i
		}
		if !ok && start >= 0 {
			m[s[start:i]] = true
			start = -1
		}
	}
	return m
}

// theoriesFor selects the theories whose functions are mentioned.
func (db *DB) theoriesFor(s string) string {
	w := words(s)
	in := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, t := range db.Theories {
			if in[t.name] {
				continue
			}
			for _, f := range t.funcs {
				if w[f] {
					in[t.name] = true
					changed = true
					for k := range words(t.text) {
						w[k] = true
					}
					break
				}
			}
		}
	}
	var out strings.Builder
	for _, t := range db.Theories {
		if in[t.name] {
			out.WriteString("; theory " + t.name + "\n" + t.text + "\n")
		}
	}
	return out.String()
}

// verifyFunc verifies one function.
func verifyFunc(p *Prog, db *DB, key string, r *Runner) *FuncReport {
	rep := &FuncReport{Key: key}
	disabled := map[string]bool{}
	var c *Ctx
	for round := 0; ; round++ {
		var err error
		c, err = gen(p, db, key, disabled)
		if err != nil {
			rep.Err = err.Error()
			return rep
		}
		var cands []*Ob
		for _, o := range c.obs {
			if o.Kind == "cand" {
				cands = append(cands, o)
			}
		}
		if len(cands) == 0 {
			break
		}
		bad := false
		var mu sync.Mutex
		r.each(len(cands), func(i int) {
			res := r.quick(c.script(cands[i], 0), 3*time.Second)
			if res.Answer != "unsat" {
				mu.Lock()
				disabled[cands[i].Text] = true
				bad = true
				mu.Unlock()
			}
		})
		if !bad || round > 8 {
			break
		}
	}
	var obs []*Ob
	for _, o := range c.obs {
		if o.Kind != "cand" {
			obs = append(obs, o)
		}
	}
	rep.Results = make([]Result, len(obs))
	r.each(len(obs), func(i int) {
		s := c.script(obs[i], 0)
		if obs[i].Kind == "cover" {
			a := r.cover(s)
			a.Ob, a.Script = obs[i], s
			a.OK = a.Answer != "unsat"
			rep.Results[i] = a
			return
		}
		a := r.prove(s)
		a.Ob, a.Script = obs[i], s
		a.OK = a.Answer == "unsat"
		rep.Results[i] = a
	})
	for k := range c.assumed {
		rep.Assumed = append(rep.Assumed, k)
	}
	for k := range c.used {
		rep.Used = append(rep.Used, k)
	}
	for k := range c.inlined {
		rep.Inlined = append(rep.Inlined, k)
	}
	for k := range disabled {
		rep.Dropped = append(rep.Dropped, k)
	}
	sort.Strings(rep.Assumed)
	sort.Strings(rep.Used)
	sort.Strings(rep.Inlined)
	return rep
}

var _ = ssa.GlobalDebug

// conjuncts of a guard.
func conjuncts(g string, out []string) []string {
	if !strings.HasPrefix(g, "(and ") {
		return append(out, g)
	}
	for _, x := range splitSorts(g[5 : len(g)-1]) {
		out = conjuncts(x, out)
	}
	return out
}

// elsewhere: is the fact about a path that excludes the one asked about?
func elsewhere(t string, on map[string]bool) bool {
	if !strings.HasPrefix(t, "(=> ") {
		return false
	}
	p := splitSorts(t[4 : len(t)-1])
	if len(p) != 2 {
		return false
	}
	for _, g := range conjuncts(p[0], nil) {
		if n := not(g); on[n] {
			return true
		}
	}
	return false
}
