package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type edge struct {
	from  *ssa.BasicBlock
	guard string
	st    State
}

type ret struct {
	guard string
	st    State
	vals  []*Val
}

type deferred struct {
	guard string
	call  *ssa.CallCommon
	args  []*Val
	fn    *Val
}

// frame is the execution of one function body.
type frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*Val
	edges  map[*ssa.BasicBlock][]edge
	rets   []ret
	defers []deferred
	depth  int
	con    *Contract
	loops  map[*ssa.BasicBlock]*loop
	order  []*ssa.BasicBlock
	entry  State
	names  map[string][]ssa.Value
	again  map[string]bool // parameters given a call's result
	top    bool
	loopN  map[*ssa.BasicBlock]string // current iteration count
	env0   *env
}

type loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	n    int // ordinal in source order, from 1
}

func newFrame(fn *ssa.Function, depth int) *frame {
	fr := &frame{fn: fn, vals: map[ssa.Value]*Val{}, edges: map[*ssa.BasicBlock][]edge{}, depth: depth, loopN: map[*ssa.BasicBlock]string{}}
	fr.order = rpo(fn)
	fr.loops = loopsOf(fn, fr.order)
	fr.names = map[string][]ssa.Value{}
	fr.again = map[string]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.DebugRef:
				if id, ok := x.Expr.(interface{ String() string }); ok && x.Object() != nil {
					_ = id
					if _, ok := x.X.(*ssa.Extract); ok {
						for _, p := range fn.Params {
							if p.Object() == x.Object() {
								fr.again[p.Name()] = true
							}
						}
					}
					if v, ok := x.Object().(*types.Var); ok && v.IsField() {
						continue
					}
					fr.names[x.Object().Name()] = append(fr.names[x.Object().Name()], x.X)
				}
			case *ssa.Phi:
				if x.Comment != "" {
					fr.names[x.Comment] = append(fr.names[x.Comment], x)
				}
			case *ssa.Alloc:
				if x.Comment != "" {
					fr.names[x.Comment] = append(fr.names[x.Comment], x)
				}
			}
		}
	}
	return fr
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		out = append(out, b)
	}
	if len(fn.Blocks) > 0 {
		visit(fn.Blocks[0])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func loopsOf(fn *ssa.Function, order []*ssa.BasicBlock) map[*ssa.BasicBlock]*loop {
	m := map[*ssa.BasicBlock]*loop{}
	for _, b := range order {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := m[h]
			if l == nil {
				l = &loop{head: h, body: map[*ssa.BasicBlock]bool{h: true}}
				m[h] = l
			}
			var add func(x *ssa.BasicBlock)
			add = func(x *ssa.BasicBlock) {
				if l.body[x] {
					return
				}
				l.body[x] = true
				for _, p := range x.Preds {
					add(p)
				}
			}
			add(b)
		}
	}
	var hs []*loop
	for _, l := range m {
		hs = append(hs, l)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].head.Index < hs[j].head.Index })
	// source order: by position of the first positioned instruction of the body
	pos := func(l *loop) token.Pos {
		best := token.NoPos
		for b := range l.body {
			for _, in := range b.Instrs {
				if p := in.Pos(); p.IsValid() && (best == token.NoPos || p < best) {
					if _, ok := in.(*ssa.Phi); ok {
						continue
					}
					best = p
				}
			}
		}
		return best
	}
	sort.SliceStable(hs, func(i, j int) bool {
		if len(hs[i].body) != len(hs[j].body) && (hs[i].body[hs[j].head] || hs[j].body[hs[i].head]) {
			return hs[i].body[hs[j].head]
		}
		return pos(hs[i]) < pos(hs[j])
	})
	for i, l := range hs {
		l.n = i + 1
	}
	return m
}

// exec runs the body of a function from a state; the returns are left in
// fr.rets.
func (c *Ctx) exec(fr *frame, st State, guard string) {
	if len(fr.order) == 0 {
		c.unsup("%s has no body", fr.fn)
	}
	fr.entry = st.clone()
	start := fr.order[0]
	fr.edges[start] = []edge{{nil, guard, st}}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		all[b] = true
	}
	c.region(fr, all, nil)
}

// region runs the blocks of a set in order. skip is the header of the loop
// being run, if any.
func (c *Ctx) region(fr *frame, set map[*ssa.BasicBlock]bool, skip *ssa.BasicBlock) {
	done := map[*ssa.BasicBlock]bool{}
	for _, b := range fr.order {
		if !set[b] || done[b] || b == skip {
			continue
		}
		if l := fr.loops[b]; l != nil {
			c.doLoop(fr, l)
			for x := range l.body {
				done[x] = true
			}
			continue
		}
		es := fr.edges[b]
		if len(es) == 0 {
			continue
		}
		g, st := c.join(b, es)
		c.phis(fr, b, es)
		c.block(fr, b, g, st)
	}
}

func (c *Ctx) join(b *ssa.BasicBlock, es []edge) (string, State) {
	var gs []string
	var sts []State
	for _, e := range es {
		gs = append(gs, e.guard)
		sts = append(sts, e.st)
	}
	g := gs[0]
	if len(gs) > 1 {
		g = c.def("g", "Bool", or(gs...))
	}
	return g, c.merge(gs, sts)
}

func (c *Ctx) phiVal(fr *frame, p *ssa.Phi, b *ssa.BasicBlock, es []edge) *Val {
	var out *Val
	var vals []*Val
	for _, e := range es {
		i := -1
		for k, pr := range b.Preds {
			if pr == e.from {
				i = k
			}
		}
		vals = append(vals, c.value(fr, p.Edges[i], e.st))
	}
	same := true
	for _, v := range vals[1:] {
		if v != vals[0] && (v.X == "" || v.X != vals[0].X || v.Fn != nil) {
			same = false
		}
	}
	if same && vals[0].JCell == "" {
		return vals[0]
	}
	t := c.term(vals[len(vals)-1], es[len(vals)-1].st)
	for i := len(vals) - 2; i >= 0; i-- {
		t = ite(es[i].guard, c.term(vals[i], es[i].st), t)
	}
	out = c.val(p.Type(), c.def("phi_"+p.Comment, c.sortOf(p.Type()), t))
	return out
}

func (c *Ctx) phis(fr *frame, b *ssa.BasicBlock, es []edge) {
	nv := map[*ssa.Phi]*Val{}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			break
		}
		nv[p] = c.phiVal(fr, p, b, es)
	}
	for p, v := range nv {
		fr.vals[p] = v
	}
}

func (fr *frame) addEdge(from, to *ssa.BasicBlock, guard string, st State) {
	if guard == "false" {
		return
	}
	fr.edges[to] = append(fr.edges[to], edge{from, guard, st})
}

func (c *Ctx) block(fr *frame, b *ssa.BasicBlock, g string, st State) {
	hinted := map[string]ssa.Value{}
	for at, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.DebugRef:
			if x.Object() == nil || fr.con == nil || len(fr.con.Hints) == 0 || x.IsAddr {
				break
			}
			if d, ok := x.X.(ssa.Instruction); ok && d.Block() == b && hinted[x.Object().Name()] != x.X {
				if _, phi := x.X.(*ssa.Phi); !phi {
					hinted[x.Object().Name()] = x.X
					c.hint(fr, x.Object().Name(), b, at, nil, nil, g, st)
				}
			}
		case *ssa.If:
			cond := c.term(c.value(fr, x.Cond, st), st)
			cond = c.def("c", "Bool", cond)
			fr.addEdge(b, b.Succs[0], and(g, cond), st.clone())
			fr.addEdge(b, b.Succs[1], and(g, not(cond)), st.clone())
			return
		case *ssa.Jump:
			fr.addEdge(b, b.Succs[0], g, st)
			return
		case *ssa.Return:
			var vs []*Val
			for _, r := range x.Results {
				vs = append(vs, c.value(fr, r, st))
			}
			fr.rets = append(fr.rets, ret{g, st, vs})
			return
		case *ssa.Panic:
			c.panicAt(g, "panic", c.p.pos(x.Pos()), fr)
			return
		default:
			ng := c.instr(fr, in, g, st)
			if ng == "false" {
				return
			}
			g = ng
			if call, ok := in.(*ssa.Call); ok && fr.con != nil && len(fr.con.Hints) > 0 {
				if k := c.calleeKey(fr, call, st); k != "" {
					c.hint(fr, "call "+k, b, at, fr.vals[call], call.Call.Signature(), g, st)
				}
			}
		}
	}
}

func (c *Ctx) panicAt(g, what, pos string, fr *frame) {
	if c.con != nil && c.con.Safe && c.dry == 0 {
		c.counts["safe"]++
		c.oblige(&Ob{Name: fmt.Sprintf("safe#%d", c.counts["safe"]), Kind: "safety", Text: "no panic: " + what, Pos: pos, Guard: g, Goal: "false"})
		return
	}
	c.assumeIf(g, "false")
}

// check is a condition the operation panics without.
func (c *Ctx) check(g, cond, what string, pos token.Pos) {
	if cond == "true" {
		return
	}
	if c.con != nil && c.con.Safe {
		if c.dry == 0 {
			c.counts["safe"]++
			c.oblige(&Ob{Name: fmt.Sprintf("safe#%d", c.counts["safe"]), Kind: "safety", Text: "no panic: " + what, Pos: c.p.pos(pos), Guard: g, Goal: cond})
			return
		}
	}
	c.assumeIf(g, cond)
}

// ---- loops

func (c *Ctx) doLoop(fr *frame, l *loop) {
	es := fr.edges[l.head]
	if len(es) == 0 {
		return
	}
	g0, st0 := c.join(l.head, es)
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	entry := map[*ssa.Phi]*Val{}
	for _, p := range phis {
		entry[p] = c.phiVal(fr, p, l.head, es)
	}
	var spec *LoopSpec
	if fr.con != nil {
		spec = fr.con.Loops[l.n]
	}

	saveEdges := func() map[*ssa.BasicBlock][]edge {
		m := map[*ssa.BasicBlock][]edge{}
		for k, v := range fr.edges {
			m[k] = append([]edge{}, v...)
		}
		return m
	}
	// what does the body modify?
	type target struct {
		full bool
		refs []string
	}
	mod := map[string]*target{}
	base := saveEdges()
	delete(base, l.head)
	startN := c.n
	for round := 0; ; round++ {
		if round > 6 {
			c.unsup("loop analysis does not terminate")
		}
		c.dry++
		items, nrets, ndef, nw := len(c.items), len(fr.rets), len(fr.defers), len(c.writes)
		counts := map[string]int{}
		for k, v := range c.counts {
			counts[k] = v
		}
		st := st0.clone()
		for k := range mod {
			c.havoc(st, k, g0)
		}
		hv := st.clone()
		c.havoc(st, "alloc", g0)
		for _, p := range phis {
			fr.vals[p] = c.freshVal(p.Type(), "lp_"+p.Comment, st, g0)
		}
		fr.edges = map[*ssa.BasicBlock][]edge{}
		fr.loopN[l.head] = c.fresh("it", "Int")
		n1 := c.n
		c.block(fr, l.head, g0, st)
		c.region(fr, l.body, l.head)
		changed := false
		add := func(k string) *target {
			if mod[k] == nil {
				mod[k] = &target{}
				changed = true
			}
			return mod[k]
		}
		for _, e := range fr.edges[l.head] {
			for k, v := range e.st {
				if k == "alloc" {
					continue
				}
				if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "J:") || strings.HasPrefix(k, "it:") {
					if _, ok := st0[k]; !ok {
						if !strings.HasPrefix(k, "L:fv") {
							continue
						}
					}
				}
				if v != c.get(hv, k) && mod[k] == nil && !heapKey(k) {
					add(k)
				}
			}
		}
		for _, w := range c.writes[nw:] {
			if !heapKey(w.key) {
				continue
			}
			t := add(w.key)
			if t.full || w.fresh && symAfter(w.ref, n1) {
				continue
			}
			if w.ref == "" || symAfter(w.ref, startN) {
				t.full = true
				changed = true
				continue
			}
			seen := false
			for _, r := range t.refs {
				seen = seen || r == w.ref
			}
			if !seen {
				t.refs = append(t.refs, w.ref)
				changed = true
			}
		}
		c.items, fr.rets, fr.defers = c.items[:items], fr.rets[:nrets], fr.defers[:ndef]
		if c.dry == 1 {
			c.writes = c.writes[:nw]
		}
		c.counts = counts
		c.dry--
		if !changed {
			break
		}
	}
	// writes inside stay visible to an enclosing analysis
	name := fmt.Sprintf("loop%d", l.n)
	if fr.con == nil || fr.fn != c.fnOf(c.key) {
		name = c.keyOf(fr.fn) + "." + name
	}

	// candidates
	var cands []cand
	for _, p := range phis {
		if c.sortOf(p.Type()) == "Slice" {
			p := p
			cands = append(cands, cand{"fresh " + p.Comment, func(v map[*ssa.Phi]*Val, st State) string {
				x := c.term(v[p], st)
				return "(or (= (cap. " + x + ") 0) (<= " + c.alloc0 + " (row. " + x + ")))"
			}})
		}
	}
	for _, p := range phis {
		if f := c.boundCand(fr, l, p, st0); f != nil {
			cands = append(cands, cand{"bound " + p.Comment, f})
		}
	}
	var mk []string
	for k := range mod {
		mk = append(mk, k)
	}
	sort.Strings(mk)
	allocE := c.get(st0, "alloc")
	for _, k := range mk {
		k := k
		if strings.HasPrefix(k, "L:") && c.keySort(k) == "Slice" {
			cands = append(cands, cand{"fresh " + k, func(_ map[*ssa.Phi]*Val, st State) string {
				x := c.get(st, k)
				return "(or (= (cap. " + x + ") 0) (<= " + c.alloc0 + " (row. " + x + ")))"
			}})
		}
		if heapKey(k) && mod[k].full {
			h0 := c.get(st0, k)
			cands = append(cands, cand{"frame " + k, func(_ map[*ssa.Phi]*Val, st State) string {
				x := c.get(st, k)
				if x == h0 {
					return "true"
				}
				return fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s i) (select %s i))) :pattern ((select %s i))))", allocE, x, h0, x)
			}})
		}
	}
	var live []cand
	for _, x := range cands {
		if !c.disabled[name+" "+x.name] {
			live = append(live, x)
		}
	}

	// establish
	mkEnv := func(vals map[*ssa.Phi]*Val, st State, n string) *env {
		return c.loopEnv(fr, l, vals, st, n)
	}
	inv := func(kind string, g string, vals map[*ssa.Phi]*Val, st State, n string) {
		if c.dry > 0 {
			return
		}
		for _, x := range live {
			if t := x.f(vals, st); t != "true" {
				c.obligeOnly(&Ob{Name: name + "/" + kind + " " + x.name, Kind: "cand", Text: name + " " + x.name, Guard: g, Goal: t})
			}
		}
		if spec == nil {
			return
		}
		for i, cl := range spec.Inv {
			c.obligeOnly(&Ob{Name: fmt.Sprintf("%s/%s#%d", name, kind, i+1), Kind: "invariant", Text: cl.Text, Guard: g, Goal: c.clause(cl, mkEnv(vals, st, n))})
		}
	}
	fr.edges = base
	inv("init", g0, entry, st0, "0")

	// an arbitrary iteration
	st := st0.clone()
	for _, k := range mk {
		t := mod[k]
		switch {
		case !heapKey(k):
			c.havoc(st, k, g0)
			for _, f := range c.introFactsIf(k, st[k], "") {
				_ = f
			}
		case t.full:
			c.havoc(st, k, g0)
			for _, f := range c.frameFacts(k, st[k]) {
				c.assume(f)
			}
		default:
			x := c.get(st, k)
			es := elemSort(c.keySort(k))
			for _, r := range t.refs {
				x = sto(x, r, c.fresh("hv", es))
			}
			if len(t.refs) > 0 {
				st[k] = c.def("hv_"+k, c.keySort(k), x)
			}
		}
	}
	st["alloc"] = c.fresh("alloc", "Int")
	c.assume("(<= " + allocE + " " + st["alloc"] + ")")
	for _, k := range mk {
		for _, f := range c.introFacts(k, c.keySort(k), c.get(st, k), st["alloc"]) {
			c.assume(f)
		}
	}
	n := c.fresh("it", "Int")
	c.assume("(<= 0 " + n + ")")
	vals := map[*ssa.Phi]*Val{}
	for _, p := range phis {
		vals[p] = c.freshVal(p.Type(), "lp_"+p.Comment, st, g0)
		fr.vals[p] = vals[p]
		if s, ok := linear(p, l); ok {
			c.assume(eq(vals[p].X, add(entry[p].X, "(* "+num(s)+" "+n+")")))
		}
	}
	for _, x := range live {
		c.assumeIf(g0, x.f(vals, st))
	}
	if spec != nil && c.dry == 0 {
		for _, cl := range spec.Inv {
			c.assumeIf(g0, c.clause(cl, mkEnv(vals, st, n)))
		}
	} else if spec != nil {
		// keep the shape of the state only
	}
	fr.loopN[l.head] = n
	c.block(fr, l.head, g0, st)
	c.region(fr, l.body, l.head)
	for i, e := range fr.edges[l.head] {
		back := map[*ssa.Phi]*Val{}
		for _, p := range phis {
			back[p] = c.phiVal(fr, p, l.head, []edge{e})
		}
		k := "keep"
		if i > 0 {
			k = fmt.Sprintf("keep.%d", i+1)
		}
		inv(k, e.guard, back, e.st, "(+ "+n+" 1)")
	}
	delete(fr.edges, l.head)
}

// boundCand: a counter compared with a bound in the loop head stays within it.
func (c *Ctx) boundCand(fr *frame, l *loop, p *ssa.Phi, st0 State) func(map[*ssa.Phi]*Val, State) string {
	step, ok := linear(p, l)
	if !ok || step != 1 && step != -1 {
		return nil
	}
	iff, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	off := 0
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		if x != p {
			return nil
		}
	case *ssa.BinOp:
		k, isc := x.Y.(*ssa.Const)
		if x.Op != token.ADD || x.X != p || !isc {
			return nil
		}
		off = int(k.Int64())
	default:
		return nil
	}
	outside := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		return !ok || !l.body[in.Block()]
	}
	var bound string
	func() {
		defer func() { recover() }()
		if outside(cmp.Y) {
			bound = c.term(c.value(fr, cmp.Y, st0), st0)
			return
		}
		if call, ok := cmp.Y.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && outside(call.Call.Args[0]) {
				v := c.value(fr, call.Call.Args[0], st0)
				switch c.sortOf(v.T) {
				case "Slice":
					bound = "(len. " + c.term(v, st0) + ")"
				case "Str":
					bound = "(slen " + c.term(v, st0) + ")"
				}
			}
		}
	}()
	if bound == "" {
		return nil
	}
	return func(v map[*ssa.Phi]*Val, _ State) string {
		x := add(v[p].X, num(int64(off)))
		switch {
		case cmp.Op == token.LSS && step == 1:
			return "(<= " + x + " " + bound + ")"
		case cmp.Op == token.GEQ && step == -1:
			return "(<= (- " + bound + " 1) " + x + ")"
		case cmp.Op == token.GTR && step == -1:
			return "(<= " + bound + " " + x + ")"
		case cmp.Op == token.LEQ && step == 1:
			return "(<= " + x + " (+ " + bound + " 1))"
		}
		return "true"
	}
}

type cand struct {
	name string
	f    func(vals map[*ssa.Phi]*Val, st State) string
}

func (c *Ctx) introFactsIf(k, x, a string) []string { return nil }

// obligeOnly adds an obligation without assuming it afterwards.
func (c *Ctx) obligeOnly(ob *Ob) {
	if c.dry > 0 {
		return
	}
	ob.Func = c.key
	if ob.Props == nil {
		ob.Props = c.props
	}
	ob.at = len(c.items)
	c.obs = append(c.obs, ob)
}

func heapKey(k string) bool {
	return strings.HasPrefix(k, "H:") || strings.HasPrefix(k, "S:") || strings.HasPrefix(k, "Md:") || strings.HasPrefix(k, "Mv:")
}

func elemSort(s string) string { // (Array Int X) -> X
	return s[len("(Array Int ") : len(s)-1]
}

// symAfter: does the term mention a symbol introduced after count n?
func symAfter(t string, n int) bool {
	for i := 0; i < len(t); i++ {
		if t[i] == '!' {
			j := i + 1
			v := 0
			for j < len(t) && t[j] >= '0' && t[j] <= '9' {
				v = v*10 + int(t[j]-'0')
				j++
			}
			if j > i+1 && v > n && (j == len(t) || t[j] == ' ' || t[j] == ')') {
				// literals are numbered separately
				k := strings.LastIndexAny(t[:i], " (") + 1
				if p := t[k:i]; p != "lit" && p != "ent" && p != "fn" {
					return true
				}
			}
		}
	}
	return false
}

// linear reports the constant step of an integer phi.
func linear(p *ssa.Phi, l *loop) (int64, bool) {
	if b, ok := p.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	var step int64
	got := false
	for i, e := range p.Edges {
		if !l.body[p.Block().Preds[i]] {
			continue
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) || bo.Op != token.ADD && bo.Op != token.SUB {
			return 0, false
		}
		k, ok := bo.Y.(*ssa.Const)
		if !ok {
			return 0, false
		}
		v := k.Int64()
		if bo.Op == token.SUB {
			v = -v
		}
		if got && v != step {
			return 0, false
		}
		step, got = v, true
	}
	return step, got
}

func (c *Ctx) freshVal(t types.Type, name string, st State, g string) *Val {
	if tup, ok := t.(*types.Tuple); ok {
		v := &Val{T: t}
		for i := 0; i < tup.Len(); i++ {
			v.Tup = append(v.Tup, c.freshVal(tup.At(i).Type(), name, st, g))
		}
		return v
	}
	s := c.sortOf(t)
	x := c.fresh(name, s)
	if w := c.wfTerm(s, x, c.get(st, "alloc")); w != "true" {
		c.assume(w)
	}
	c.rangeFact(t, x)
	return c.val(t, x)
}

// rangeFact bounds unsigned values.
func (c *Ctx) rangeFact(t types.Type, x string) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		c.assume("(<= 0 " + x + ")")
	}
}

func (c *Ctx) keyOf(fn *ssa.Function) string {
	if k := c.p.Keys[fn]; k != "" {
		return k
	}
	return fn.String()
}

func (c *Ctx) fnOf(key string) *ssa.Function { return c.p.Funcs[key] }

// ---- values

func (c *Ctx) value(fr *frame, v ssa.Value, st State) *Val {
	if x, ok := fr.vals[v]; ok {
		return x
	}
	switch x := v.(type) {
	case *ssa.Const:
		return c.constant(x)
	case *ssa.Global:
		return c.global(x)
	case *ssa.Function:
		return &Val{T: x.Type(), S: "Fn", X: c.fnConst(x), Fn: x}
	case *ssa.Builtin:
		return &Val{T: x.Type()}
	}
	c.unsup("value %s (%T) of %s used before definition", v.Name(), v, fr.fn)
	return nil
}

func (c *Ctx) global(g *ssa.Global) *Val {
	t := g.Type().Underlying().(*types.Pointer).Elem()
	name := g.Name()
	if g.Pkg != nil {
		name = c.p.short(g.Pkg.Pkg) + "." + name
	}
	k := c.regKey("G:"+name, c.sortOf(t))
	c.globalFacts(g, k, t)
	return &Val{T: g.Type(), S: "Ref", LV: &LV{key: k, T: t}}
}

// globalFacts states the value of globals that are never assigned.
func (c *Ctx) globalFacts(g *ssa.Global, k string, t types.Type) {
	if c.have["gf "+k] || c.p.Stored[g] {
		return
	}
	c.have["gf "+k] = true
	if src, ok := c.p.regexpSource(g); ok && c.db.Funcs["rsrc"].Res != "" {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (rsrc %s) %s))", c.get(State{}, k), c.lit(src)))
		return
	}
	ss, ok := c.p.constStrings(g)
	if !ok {
		if isError(t) && g.Pkg != nil {
			x := c.get(State{}, k)
			c.decls = append(c.decls, "(assert (not (= "+x+" anil))) ; error variable "+k)
		}
		return
	}
	x := c.get(State{}, k)
	row := c.get(State{}, c.skey("Str"))
	c.decls = append(c.decls, fmt.Sprintf("(assert (= (len. %s) %d))", x, len(ss)))
	for i, s := range ss {
		c.decls = append(c.decls, fmt.Sprintf("(assert (= (select (select %s (row. %s)) (idx (off. %s) %d)) %s))", row, x, x, i, c.lit(s)))
	}
}

func isError(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

func (c *Ctx) constant(k *ssa.Const) *Val {
	t := k.Type()
	s := c.sortOf(t)
	if k.Value == nil {
		return c.val(t, c.zero(t))
	}
	switch k.Value.Kind() {
	case constant.Bool:
		return &Val{T: t, S: s, X: fmt.Sprint(constant.BoolVal(k.Value))}
	case constant.String:
		return &Val{T: t, S: s, X: c.lit(constant.StringVal(k.Value))}
	case constant.Int:
		if s == "F64" {
			return &Val{T: t, S: s, X: c.flit(k.Value.ExactString())}
		}
		x := k.Value.ExactString()
		if strings.HasPrefix(x, "-") {
			x = "(- " + x[1:] + ")"
		}
		return &Val{T: t, S: s, X: x}
	case constant.Float:
		f, _ := constant.Float64Val(k.Value)
		return &Val{T: t, S: s, X: c.flit(fmt.Sprint(f))}
	}
	c.unsup("constant %s", k)
	return nil
}

// term is the SMT term of a value.
func (c *Ctx) term(v *Val, st State) string {
	switch {
	case v.JCell != "":
		return c.get(st, v.JCell)
	case v.X != "":
		return v.X
	case v.Fn != nil:
		v.X = c.closureTerm(v, st)
		return v.X
	case v.LV != nil:
		return c.snapshot(v, st)
	case v.Tup != nil:
		c.unsup("tuple used as a value")
	}
	c.unsup("value without a term (%v)", v.T)
	return ""
}

func (c *Ctx) closureTerm(v *Val, st State) string {
	k := c.keyOf(v.Fn)
	f := "clo!" + san(k)
	var sorts, args []string
	for i, b := range v.Binds {
		// captured variables are read when the closure is made: they are
		// cells, their content at this point is what the function value holds
		t := v.Fn.FreeVars[i].Type()
		if b.LV != nil && b.X == "" {
			sorts = append(sorts, c.sortOf(t.Underlying().(*types.Pointer).Elem()))
			args = append(args, c.load(st, b.LV))
			continue
		}
		if b.Fn != nil && b.X == "" {
			continue
		}
		sorts = append(sorts, c.sortOf(b.T))
		args = append(args, c.term(b, st))
	}
	c.decl(f, fmt.Sprintf("(declare-fun %s (%s) Fn)", f, strings.Join(sorts, " ")))
	if len(args) == 0 {
		c.assume("(not (= " + f + " 0))")
		return f
	}
	x := c.def("clo", "Fn", "("+f+" "+strings.Join(args, " ")+")")
	c.assume("(not (= " + x + " 0))")
	return x
}

// snapshot makes a reference for an interior pointer or a local cell whose
// address escapes after all: a fresh object with its current content.
func (c *Ctx) snapshot(v *Val, st State) string {
	t := v.T.Underlying().(*types.Pointer).Elem()
	x := c.load(st, v.LV)
	r := c.newRef(st)
	c.store(st, c.heapLV(t, r), x, "true")
	c.assumed["address of a part of an object is handed on as a reference to a copy of it ("+c.key+")"] = true
	return r
}

// isBuffer: is a variable of type t told apart by its address (see ghost bufc)?
func isBuffer(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "bytes" && n.Obj().Name() == "Buffer"
}

// localAlloc: does the address of a variable stay in this activation?
func (c *Ctx) localAlloc(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rs := v.Referrers()
	if rs == nil {
		return true
	}
	for _, r := range *rs {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			// taking the address of a part copies it (see snapshot)
			_ = x
		case *ssa.IndexAddr:
			if !c.localAlloc(x, seen) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					fv := x.Fn.(*ssa.Function).FreeVars[i]
					if !c.localAlloc(fv, seen) {
						return false
					}
				}
			}
		case *ssa.Call:
		case *ssa.Defer:
		case *ssa.MakeInterface:
			for _, rr := range *x.Referrers() {
				switch rr.(type) {
				case *ssa.Call, *ssa.DebugRef:
				default:
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// calleeKey names what a call calls.
func (c *Ctx) calleeKey(fr *frame, call *ssa.Call, st State) string {
	if f := call.Call.StaticCallee(); f != nil {
		return c.keyOf(f)
	}
	if call.Call.IsInvoke() {
		return call.Call.Method.Name()
	}
	if v := fr.vals[call.Call.Value]; v != nil && v.Fn != nil {
		return c.keyOf(v.Fn)
	}
	if n, ok := types.Unalias(call.Call.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
		return c.p.short(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return ""
}
