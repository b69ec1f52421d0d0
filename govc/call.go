package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 8

// callArgs evaluates callee and arguments of a call.
func (c *Ctx) callArgs(fr *frame, cc *ssa.CallCommon, st State) (*Val, []*Val) {
	var args []*Val
	var fn *Val
	fn = c.value(fr, cc.Value, st)
	for _, a := range cc.Args {
		args = append(args, c.value(fr, a, st))
	}
	return fn, args
}

func (c *Ctx) call(fr *frame, cc *ssa.CallCommon, in *ssa.Call, g string, st State) (*Val, string) {
	fn, args := c.callArgs(fr, cc, st)
	r, ng := c.invoke(fr, cc, fn, args, in, g, st)
	if t := c.tracks(fr, cc); t != "" && ng != "false" && r != nil {
		if n := cc.Signature().Results().Len(); n > 0 && isError(cc.Signature().Results().At(n-1).Type()) {
			v := r
			if n > 1 {
				v = r.Tup[n-1]
			}
			k := c.ghostKey(t)
			st[k] = c.def("st_"+k, "Bool", or(c.get(st, k), not(eq(c.term(v, st), "anil"))))
			c.wrote(k, "", "", ng)
		}
	}
	return r, ng
}

// tracks is the ghost which says whether a call of the function under
// verification failed; calls within inlined functions do not count.
func (c *Ctx) tracks(fr *frame, cc *ssa.CallCommon) string {
	if c.con == nil || fr.depth > 0 {
		return ""
	}
	if f := cc.StaticCallee(); f != nil {
		for _, k := range c.con.Untracked {
			if c.keyOf(f) == k {
				return ""
			}
		}
	}
	return c.con.Tracks
}

// abstract is a call which may do anything but what ghosts tell, and returns
// anything.
func (c *Ctx) abstract(key string, sig *types.Signature, g string, st State) *Val {
	c.assumed["abstract call: "+key+" (returns anything, changes anything but what the ghosts of this property record)"] = true
	keep := State{}
	for k, v := range st {
		if strings.HasPrefix(k, "gh:") {
			keep[k] = v
		}
	}
	c.effect(modTarget{key: "*"}, g, st)
	for k := range c.kinds {
		if strings.HasPrefix(k, "gh:") {
			if v, ok := keep[k]; ok {
				st[k] = v
			} else {
				delete(st, k)
			}
		}
	}
	a0 := c.get(st, "alloc")
	st["alloc"] = c.fresh("alloc", "Int")
	c.assume("(<= " + a0 + " " + st["alloc"] + ")")
	return c.results(sig, "r_"+key, g, st)
}

// invoke performs a call. It returns the results and the condition under
// which control comes back.
func (c *Ctx) invoke(fr *frame, cc *ssa.CallCommon, fn *Val, args []*Val, in *ssa.Call, g string, st State) (*Val, string) {
	pos := cc.Pos()
	if cc.IsInvoke() {
		m := cc.Method
		recv := fn
		key := ""
		if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok {
			if n.Obj().Pkg() != nil {
				key = c.p.short(n.Obj().Pkg()) + "." + n.Obj().Name() + "." + m.Name()
			} else {
				key = n.Obj().Name() + "." + m.Name()
			}
		} else if m.Pkg() != nil {
			key = c.p.short(m.Pkg()) + "." + m.Name()
		}
		if con := c.db.Contracts[key]; con != nil {
			return c.apply(con, key, sigNames(m.Type().(*types.Signature), true), append([]*Val{recv}, args...), m.Type().(*types.Signature), g, st, pos, nil)
		}
		// statically known dynamic type
		if len(recv.Tup) == 1 && recv.Tup[0].T != nil {
			if f := c.p.SSA.LookupMethod(recv.Tup[0].T, m.Pkg(), m.Name()); f != nil {
				return c.static(fr, f, nil, append([]*Val{recv.Tup[0]}, args...), g, st, pos)
			}
		}
		c.check(g, not(eq(c.term(recv, st), "anil")), "interface is not nil", pos)
		return c.unknown(key, m.Type().(*types.Signature), args, g, st), g
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b.Name(), cc, args, in, g, st)
	}
	if f := cc.StaticCallee(); f != nil && fn.Fn == nil {
		fn = &Val{T: f.Type(), Fn: f}
	}
	if fn.Fn != nil {
		return c.static(fr, fn.Fn, fn.Binds, args, g, st, pos)
	}
	// dynamic call
	key := ""
	if n, ok := types.Unalias(cc.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
		key = c.p.short(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	sig := cc.Value.Type().Underlying().(*types.Signature)
	if key == "" {
		if p, ok := cc.Value.(*ssa.Parameter); ok {
			key = c.keyOf(p.Parent()) + ":" + p.Name()
		} else if p, ok := cc.Value.(*ssa.FreeVar); ok {
			key = c.keyOf(p.Parent()) + ":" + p.Name()
		}
	}
	if con := c.db.Contracts["func "+key]; con != nil {
		return c.apply(con, key, append([]string{"self"}, sigNames(sig, false)...), append([]*Val{fn}, args...), sig, g, st, pos, nil)
	}
	return c.unknown("function value "+key, sig, args, g, st), g
}

func sigNames(sig *types.Signature, recv bool) []string {
	var out []string
	if recv {
		out = append(out, "self")
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Name())
	}
	return out
}

func fnNames(f *ssa.Function) []string {
	var out []string
	for _, p := range f.Params {
		out = append(out, p.Name())
	}
	return out
}

func (c *Ctx) static(fr *frame, f *ssa.Function, binds []*Val, args []*Val, g string, st State, pos token.Pos) (*Val, string) {
	key := c.keyOf(f)
	if f.Synthetic != "" && f.Blocks != nil && c.db.Contracts[key] == nil || strings.Contains(f.Synthetic, "wrapper") || strings.Contains(f.Synthetic, "bound method") {
		if f.Blocks != nil {
			return c.inline(fr, f, key, binds, args, g, st)
		}
	}
	con := c.db.Contracts[key]
	for _, a := range args {
		if f.Signature.Recv() != nil || len(a.Tup) != 1 || a.S != "Any" || a.Tup[0].T == nil {
			continue
		}
		// library functions may have a contract for an argument of one type
		k := key + "@" + types.TypeString(a.Tup[0].T, c.p.short)
		if x := c.db.Contracts[k]; x != nil {
			con, key = x, k
			break
		}
	}
	if con != nil && !con.Inline && len(con.Props) > 0 && c.con != nil && c.con.Abstract && !c.concerns(con.Props) {
		return c.abstract(key, f.Signature, g, st), g
	}
	if con != nil && !con.Inline {
		if f.Blocks != nil && !con.Trusted {
			c.used[key] = true
		}
		var names []string
		if f.Params != nil {
			names = fnNames(f)
		} else {
			names = sigNames(f.Signature, false)
			if f.Signature.Recv() != nil {
				names = append([]string{f.Signature.Recv().Name()}, names...)
			}
		}
		return c.apply(con, key, names, args, f.Signature, g, st, pos, func(e *env) {
			for i, b := range binds {
				e.names[f.FreeVars[i].Name()] = c.freeVar(f.FreeVars[i], b)
			}
		})
	}
	inRepo := f.Blocks != nil
	for _, s := range c.stack {
		if s == key {
			c.unsup("recursive call of %s, which has no contract", key)
		}
	}
	if inRepo && (len(c.stack) < maxDepth) && (f.Pkg == nil || c.p.Repo[f.Pkg.Pkg.Path()] || f.Parent() != nil) {
		return c.inline(fr, f, key, binds, args, g, st)
	}
	if r := c.intrinsic(key, f, args, g, st); r != nil {
		return r, g
	}
	return c.unknown(key, f.Signature, args, g, st), g
}

// freeVar: captured variables are seen by name in contracts, not by address.
func (c *Ctx) freeVar(fv *ssa.FreeVar, b *Val) *Val {
	if _, ok := fv.Type().Underlying().(*types.Pointer); ok && b.LV != nil {
		return &Val{T: fv.Type(), S: "auto", LV: b.LV, X: b.X}
	}
	return b
}

func (c *Ctx) inline(fr *frame, f *ssa.Function, key string, binds []*Val, args []*Val, g string, st State) (*Val, string) {
	if len(c.stack) > maxDepth+4 {
		c.unsup("inlining too deep at %s", key)
	}
	c.inlined[key] = true
	c.stack = append(c.stack, key)
	defer func() { c.stack = c.stack[:len(c.stack)-1] }()
	nf := newFrame(f, fr.depth+1)
	nf.con = c.db.Contracts[key]
	for i, p := range f.Params {
		nf.vals[p] = args[i]
	}
	for i, b := range binds {
		nf.vals[f.FreeVars[i]] = b
	}
	c.exec(nf, st.clone(), g)
	v, ng, nst := c.joinRets(nf, f.Signature)
	for k := range st {
		delete(st, k)
	}
	for k, x := range nst {
		st[k] = x
	}
	return v, ng
}

func (c *Ctx) joinRets(nf *frame, sig *types.Signature) (*Val, string, State) {
	if len(nf.rets) == 0 {
		v := &Val{T: sig.Results()}
		if sig.Results().Len() == 1 {
			v = c.val(sig.Results().At(0).Type(), c.zero(sig.Results().At(0).Type()))
		} else {
			for i := 0; i < sig.Results().Len(); i++ {
				v.Tup = append(v.Tup, c.val(sig.Results().At(i).Type(), c.zero(sig.Results().At(i).Type())))
			}
		}
		return v, "false", nf.entry.clone()
	}
	var gs []string
	var sts []State
	for _, r := range nf.rets {
		gs = append(gs, r.guard)
		sts = append(sts, r.st)
	}
	n := sig.Results().Len()
	out := make([]*Val, n)
	for i := 0; i < n; i++ {
		if len(nf.rets) == 1 {
			out[i] = nf.rets[0].vals[i]
			continue
		}
		last := len(nf.rets) - 1
		t := sig.Results().At(i).Type()
		x := c.term(nf.rets[last].vals[i], nf.rets[last].st)
		for j := last - 1; j >= 0; j-- {
			x = ite(gs[j], c.term(nf.rets[j].vals[i], nf.rets[j].st), x)
		}
		out[i] = c.val(t, c.def("ret", c.sortOf(t), x))
	}
	st := c.merge(gs, sts)
	g := gs[0]
	if len(gs) > 1 {
		g = c.def("g", "Bool", or(gs...))
	}
	if n == 1 {
		return out[0], g, st
	}
	return &Val{T: sig.Results(), Tup: out}, g, st
}

// unknown is a call of something without contract: any result, and whatever
// it was given the address of may change.
func (c *Ctx) unknown(key string, sig *types.Signature, args []*Val, g string, st State) *Val {
	c.assumed["no contract: "+key+" returns anything and changes nothing but what it is given the address of"] = true
	for _, a := range args {
		c.clobber(a, g, st)
	}
	return c.results(sig, "r_"+key, g, st)
}

// clobber havocs local variables whose address is handed over.
func (c *Ctx) clobber(a *Val, g string, st State) {
	if a.S == "Any" && len(a.Tup) == 1 {
		a = a.Tup[0]
	}
	if a.Fn != nil {
		for i, b := range a.Binds {
			if b.LV != nil && b.X == "" && writesVar(a.Fn, i, map[*ssa.Function]bool{}) {
				c.havocLV(b.LV, g, st)
			}
		}
		return
	}
	if a.LV != nil && a.X == "" {
		c.havocLV(a.LV, g, st)
	}
}

func writesVar(f *ssa.Function, i int, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	fv := f.FreeVars[i]
	if fv.Referrers() == nil {
		return false
	}
	for _, r := range *fv.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Addr == fv {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			for j, b := range x.Bindings {
				if b == ssa.Value(fv) && writesVar(x.Fn.(*ssa.Function), j, seen) {
					return true
				}
			}
		default:
			return true
		}
	}
	return false
}

func (c *Ctx) havocLV(l *LV, g string, st State) {
	t := l.T
	_ = t
	x := c.load(st, l)
	_ = x
	s := c.lvSort(l)
	n := c.fresh("hv", s)
	if w := c.wfTerm(s, n, c.get(st, "alloc")); w != "true" {
		c.assume(w)
	}
	c.store(st, l, n, g)
}

func (c *Ctx) lvSort(l *LV) string {
	s := c.sortOf(l.T)
	for _, p := range l.path {
		if p.sort == "" {
			s = p.esort
			continue
		}
		s = c.sortOf(c.structOf[p.sort].Field(p.field).Type())
	}
	return s
}

func (c *Ctx) results(sig *types.Signature, name, g string, st State) *Val {
	n := sig.Results().Len()
	if n == 1 {
		return c.freshVal(sig.Results().At(0).Type(), name, st, g)
	}
	v := &Val{T: sig.Results()}
	for i := 0; i < n; i++ {
		v.Tup = append(v.Tup, c.freshVal(sig.Results().At(i).Type(), name, st, g))
	}
	return v
}

// apply uses the contract of the callee.
func (c *Ctx) apply(con *Contract, key string, names []string, args []*Val, sig *types.Signature, g string, st State, pos token.Pos, more func(*env)) (*Val, string) {
	if con.Trusted {
		c.assumed["trusted contract: "+key] = true
	}
	if len(con.Params) > 0 {
		if len(names) > 0 && names[0] == "self" && len(con.Params) == len(args)-1 {
			names = append([]string{"self"}, con.Params...)
		} else {
			names = con.Params
		}
	}
	pre := st.clone()
	e := c.newEnv(st, key)
	e.guard = g
	for i, n := range names {
		if i < len(args) && n != "" && n != "_" {
			e.names[n] = args[i]
		}
	}
	if more != nil {
		more(e)
	}
	c.lets(con, e)
	for i, cl := range con.Requires {
		if c.dry > 0 {
			break
		}
		c.counts["call "+key]++
		c.oblige(&Ob{Name: fmt.Sprintf("call %s/requires#%d@%d", key, i+1, c.counts["call "+key]), Kind: "requires", Text: cl.Text, Pos: c.p.pos(pos), Guard: g, Goal: c.clause(cl, e), Props: cl.Props})
	}
	preEnv := e.at(pre)
	// effects
	for _, m := range c.targets(con, preEnv) {
		c.effect(m, g, st)
	}
	for _, a := range args {
		if a.Fn != nil && len(a.Binds) > 0 {
			c.clobber(a, g, st)
		}
	}
	if !con.Pure {
		a0 := c.get(st, "alloc")
		st["alloc"] = c.fresh("alloc", "Int")
		c.assume("(<= " + a0 + " " + st["alloc"] + ")")
	}
	res := c.results(sig, "r_"+key, g, st)
	post := c.newEnv(st, key)
	post.guard = g
	for k, v := range e.names {
		post.names[k] = v
	}
	post.old = preEnv
	c.bindResults(con, post, sig, res)
	for _, s := range con.Sets {
		v := c.eval(s.Expr, post)
		st[c.ghostKey(s.Name)] = c.term(v, st)
		c.wrote(c.ghostKey(s.Name), "", "", g)
	}
	if con.NoReturn {
		return res, "false"
	}
	for _, cl := range con.Ensures {
		if !c.concerns(cl.Props) {
			continue // a clause for other properties than those at hand
		}
		c.assumeIf(g, c.clause(cl, post))
	}
	return res, g
}

// concerns reports whether a clause stated for some properties is of use for
// the function at hand.
func (c *Ctx) concerns(props []string) bool {
	if len(props) == 0 || len(c.props) == 0 {
		return true
	}
	for _, a := range props {
		for _, b := range c.props {
			if strings.Trim(a, ",") == strings.Trim(b, ",") {
				return true
			}
		}
	}
	return false
}

func (c *Ctx) bindResults(con *Contract, e *env, sig *types.Signature, res *Val) {
	n := sig.Results().Len()
	get := func(i int) *Val {
		if n == 1 {
			return res
		}
		return res.Tup[i]
	}
	for i := 0; i < n; i++ {
		v := get(i)
		e.names[fmt.Sprintf("r%d", i)] = v
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			e.names[nm] = v
		}
		if isError(sig.Results().At(i).Type()) && i == n-1 {
			e.names["err"] = v
		}
		if i < len(con.Results) {
			e.names[con.Results[i]] = v
		}
	}
	if n > 0 {
		e.names["result"] = get(0)
	}
}

// targets evaluates a modifies clause.
func (c *Ctx) targets(con *Contract, e *env) []modTarget {
	var out []modTarget
	for _, m := range con.Modifies {
		out = append(out, c.target(m, e)...)
	}
	return out
}

func (c *Ctx) effect(m modTarget, g string, st State) {
	if m.key == "*" {
		// everything that exists may change
		var ks []string
		for k := range c.kinds {
			if heapKey(k) || strings.HasPrefix(k, "gh:") || strings.HasPrefix(k, "G:") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			c.havoc(st, k, g)
			c.writes = append(c.writes, write{k, "0", false})
		}
		return
	}
	if m.lv != nil {
		c.havocLV(m.lv, g, st)
		return
	}
	x := c.get(st, m.key)
	if m.ref == "" {
		c.wrote(m.key, "", "", g)
		n := c.havoc(st, m.key, g)
		for _, f := range c.introFacts(m.key, c.keySort(m.key), n, c.get(st, "alloc")) {
			c.assume(f)
		}
		return
	}
	es := elemSort(c.keySort(m.key))
	if m.some != "" {
		g = and(g, m.some)
	}
	c.wrote(m.key, m.ref, m.from, g)
	v := c.fresh("hv", es)
	if m.from != "" {
		old := sel(x, m.ref)
		c.assume(fmt.Sprintf("(forall ((j Int)) (! (=> (< j %s) (= (select %s j) (select %s j))) :pattern ((select %s j))))", m.from, v, old, v))
	}
	if m.some != "" {
		c.assume("(=> " + not(m.some) + " (= " + v + " " + sel(x, m.ref) + "))")
	}
	st[m.key] = c.def("st_"+m.key, c.keySort(m.key), sto(x, m.ref, v))
}

func (c *Ctx) builtin(name string, cc *ssa.CallCommon, args []*Val, in *ssa.Call, g string, st State) (*Val, string) {
	one := func(t types.Type, x string) (*Val, string) {
		s := c.sortOf(t)
		return &Val{T: t, S: s, X: x}, g
	}
	var rt types.Type = types.Typ[types.Invalid]
	if in != nil {
		rt = in.Type()
	}
	switch name {
	case "len", "cap":
		a := args[0]
		switch a.S {
		case "Str":
			return one(rt, "(slen "+c.term(a, st)+")")
		case "Slice":
			return one(rt, "("+name+". "+c.term(a, st)+")")
		case "JM":
			return one(rt, "(jcard "+c.term(a, st)+")")
		case "Ref":
			if _, ok := a.T.Underlying().(*types.Map); ok {
				mt := a.T.Underlying().(*types.Map)
				return one(rt, c.card(c.sortOf(mt.Key()), c.mapDom(a, st)))
			}
		}
	case "append":
		return c.append(cc, args, g, st), g
	case "copy":
		return c.copy(cc, args, g, st), g
	case "delete":
		m, k := args[0], c.term(args[1], st)
		if m.S == "JM" {
			if m.JCell == "" {
				c.unsup("deletion from a JSON object that was not made here")
			}
			st[m.JCell] = "(jdel " + c.get(st, m.JCell) + " " + k + ")"
			return &Val{}, g
		}
		mt := m.T.Underlying().(*types.Map)
		dk, vk := c.mkeys(c.sortOf(mt.Key()), c.sortOf(mt.Elem()))
		r := c.term(m, st)
		isNil := eq(r, "0")
		d := c.get(st, dk)
		c.wrote(dk, r, "", and(g, not(isNil), sel(sel(d, r), k)))
		c.writes = append(c.writes, write{vk, r, c.isFreshRef(r)})
		st[dk] = c.def("st_Md", c.keySort(dk), sto(d, r, sto(sel(d, r), k, "false")))
		return &Val{}, g
	case "panic":
		c.panicAt(g, "panic", c.p.pos(cc.Pos()), nil)
		return &Val{}, "false"
	case "print", "println":
		return &Val{}, g
	case "recover":
		return &Val{T: rt, S: "Any", X: "anil"}, g
	case "ssa:wrapnilchk":
		return args[0], g
	}
	c.unsup("builtin %s", name)
	return nil, g
}

func (c *Ctx) card(ks, dom string) string {
	f := "mcard_" + san(ks)
	c.decl(f, fmt.Sprintf("(declare-fun %s ((Array %s Bool)) Int)\n(declare-fun %s_w ((Array %s Bool)) %s)\n(assert (forall ((d (Array %s Bool))) (! (and (<= 0 (%s d)) (=> (not (= (%s d) 0)) (select d (%s_w d))) (=> (= (%s d) 0) (= d ((as const (Array %s Bool)) false)))) :pattern ((%s d)))))", f, ks, f, ks, ks, ks, f, f, f, f, ks, f))
	return "(" + f + " " + dom + ")"
}

func (c *Ctx) sliceArgs(s string) (row, off, n, cp string) {
	if strings.HasPrefix(s, "(mkslice ") {
		a := sargs(s)
		return a[0], a[1], a[2], a[3]
	}
	return "(row. " + s + ")", "(off. " + s + ")", "(len. " + s + ")", "(cap. " + s + ")"
}

func (c *Ctx) append(cc *ssa.CallCommon, args []*Val, g string, st State) (out *Val) {
	st0 := args[0].T.Underlying().(*types.Slice)
	es := c.sortOf(st0.Elem())
	k := c.skey(es)
	a := c.def("a", "Slice", c.term(args[0], st))
	var blen string
	var bat func(j string) string
	h := c.get(st, k)
	simple := -1
	if args[1].S == "Str" {
		b := c.term(args[1], st)
		blen = "(slen " + b + ")"
		bat = func(j string) string { return "(sat " + b + " " + j + ")" }
	} else {
		b := c.term(args[1], st)
		r, o, n, _ := c.sliceArgs(b)
		blen = n
		row := c.def("brow", "(Array Int "+es+")", sel(h, r))
		bat = func(j string) string { return sel(row, "(idx "+o+" "+j+")") }
		fmt.Sscan(n, &simple)
	}
	arow, aoff, alen, acap := "(row. "+a+")", "(off. "+a+")", "(len. "+a+")", "(cap. "+a+")"
	n := c.def("n", "Int", "(+ "+alen+" "+blen+")")
	inplace := c.def("fits", "Bool", "(<= "+n+" "+acap+")")
	// in place
	row0 := c.def("arow", "(Array Int "+es+")", sel(h, arow))
	rowT := "(Array Int " + es + ")"
	var rowIn, rowNew string
	if simple >= 0 && simple <= 8 {
		rowIn = row0
		for j := 0; j < simple; j++ {
			rowIn = sto(rowIn, "(idx "+aoff+" (+ "+alen+" "+num(int64(j))+"))", bat(num(int64(j))))
		}
		base := c.fresh("nrow", rowT)
		c.assume(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx 0 j)) (select %s (idx %s j)))) :pattern ((select %s (idx 0 j))) :pattern ((select %s (idx %s j)))))", alen, base, row0, aoff, base, row0, aoff))
		rowNew = base
		for j := 0; j < simple; j++ {
			rowNew = sto(rowNew, "(idx 0 (+ "+alen+" "+num(int64(j))+"))", bat(num(int64(j))))
		}
	} else {
		rowIn = c.fresh("irow", rowT)
		c.assume(fmt.Sprintf("(forall ((i Int)) (! (= (select %s i) (ite (and (<= (+ %s %s) i) (< i (+ %s %s))) %s (select %s i))) :pattern ((select %s i))))", rowIn, aoff, alen, aoff, n, bat("(- i (+ "+aoff+" "+alen+"))"), row0, rowIn))
		rowNew = c.fresh("nrow", rowT)
		c.assume(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx 0 j)) (select %s (idx %s j)))) :pattern ((select %s (idx 0 j))) :pattern ((select %s (idx %s j)))))", alen, rowNew, row0, aoff, rowNew, row0, aoff))
		c.assume(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %s j) (< j %s)) (= (select %s (idx 0 j)) %s)) :pattern ((select %s (idx 0 j)))))", alen, n, rowNew, bat("(- j "+alen+")"), rowNew))
	}
	r := c.newRef(st)
	ncap := c.fresh("cap", "Int")
	c.assume("(<= " + n + " " + ncap + ")")
	empty := eq(blen, "0")
	if simple > 0 {
		empty = "false"
	}
	c.wrote(k, arow, "(+ "+aoff+" "+alen+")", and(g, inplace, not(empty)))
	c.writes = append(c.writes, write{k, r, true})
	st[k] = c.def("st_"+k, c.keySort(k), ite(inplace, sto(h, arow, rowIn), sto(h, r, rowNew)))
	defer func() {
		// what appending leaves where it was, said of the result
		if es != "Str" && es != "Int" {
			rr, ro := c.def("rrow", rowT, sel(st[k], "(row. "+out.X+")")), "(off. "+out.X+")"
			c.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s (idx %s i)) (select %s (idx %s i)))) :pattern ((select %s (idx %s i))) :pattern ((select %s (idx %s i)))))", alen, rr, ro, row0, aoff, row0, aoff, rr, ro))
			if simple < 0 && args[1].S != "Str" {
				c.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) (= (select %s (idx %s (+ %s i))) %s)) :pattern (%s)))", blen, rr, ro, alen, bat("i"), bat("i")))
			}
			for j := 0; j < simple && simple <= 8; j++ {
				c.assume(eq(fmt.Sprintf("(select %s (idx %s (+ %s %d)))", rr, ro, alen, j), bat(num(int64(j)))))
			}
		}
		// what appending does to the sequence of the elements
		p := map[string]string{"Str": "p", "Any": "y"}[es]
		if p == "" || args[1].S == "Str" {
			return
		}
		seq := fmt.Sprintf("(%sseq %s %s %s)", p, row0, aoff, alen)
		if simple >= 0 && simple <= 8 {
			for j := 0; j < simple; j++ {
				seq = "(" + p + "snoc " + seq + " " + bat(num(int64(j))) + ")"
			}
		} else if p == "p" {
			br, bo, bn, _ := c.sliceArgs(c.term(args[1], st))
			seq = fmt.Sprintf("(pcat %s (pseq %s %s %s))", seq, sel(h, br), bo, bn)
		} else {
			return
		}
		c.assume(fmt.Sprintf("(=> (<= 0 %s) (= (%sseq %s (off. %s) (len. %s)) %s))", alen, p, sel(st[k], "(row. "+out.X+")"), out.X, out.X, seq))
		c.optional[c.items[len(c.items)-1]] = "(" + p + "seq "
	}()
	res := c.def("app", "Slice", ite(inplace, fmt.Sprintf("(mkslice %s %s %s %s)", arow, aoff, n, acap), fmt.Sprintf("(mkslice %s 0 %s %s)", r, n, ncap)))
	return &Val{T: args[0].T, S: "Slice", X: res}
}

func (c *Ctx) copy(cc *ssa.CallCommon, args []*Val, g string, st State) *Val {
	et := args[0].T.Underlying().(*types.Slice).Elem()
	es := c.sortOf(et)
	k := c.skey(es)
	d := c.term(args[0], st)
	drow, doff, dlen, _ := c.sliceArgs(d)
	h := c.get(st, k)
	var blen string
	var bat func(j string) string
	src := ""
	if args[1].S == "Str" {
		b := c.term(args[1], st)
		blen = "(slen " + b + ")"
		bat = func(j string) string { return "(sat " + b + " " + j + ")" }
	} else {
		b := c.term(args[1], st)
		r, o, n, _ := c.sliceArgs(b)
		blen = n
		row := c.def("brow", "(Array Int "+es+")", sel(h, r))
		bat = func(j string) string { return sel(row, "(idx "+o+" "+j+")") }
		src = " :pattern (" + bat("j") + ")"
	}
	n := c.def("n", "Int", ite("(<= "+dlen+" "+blen+")", dlen, blen))
	row0 := c.def("drow", "(Array Int "+es+")", sel(h, drow))
	row := c.fresh("crow", "(Array Int "+es+")")
	c.assume(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %s)) (= (select %s (idx %s j)) %s)) :pattern ((select %s (idx %s j)))%s))", n, row, doff, bat("j"), row, doff, src))
	c.assume(fmt.Sprintf("(forall ((i Int)) (! (=> (or (< i %s) (<= (+ %s %s) i)) (= (select %s i) (select %s i))) :pattern ((select %s i))))", doff, doff, n, row, row0, row))
	c.wrote(k, drow, doff, and(g, "(< 0 "+n+")"))
	st[k] = c.def("st_"+k, c.keySort(k), sto(h, drow, row))
	return &Val{T: types.Typ[types.Int], S: "Int", X: n}
}

// intrinsic models a few library functions that no contract can express
// because they are variadic or generic.
func (c *Ctx) intrinsic(key string, f *ssa.Function, args []*Val, g string, st State) *Val {
	switch key {
	case "fmt.Sprintf":
		return c.sprintf(args, st)
	}
	return nil
}

// varargs returns the boxed values of a variadic argument built at the call.
func (c *Ctx) varargs(s string, st State) ([]string, bool) {
	row, off, n, _ := c.sliceArgs(s)
	k := -1
	if _, err := fmt.Sscan(n, &k); err != nil || k < 0 || k > 20 || off != "0" {
		return nil, s == "nilslice"
	}
	var out []string
	h := c.get(st, c.skey("Any"))
	for i := 0; i < k; i++ {
		out = append(out, sel(sel(h, row), "(idx 0 "+num(int64(i))+")"))
	}
	return out, true
}

// sprintf: literal formats made of %s and %q on strings become
// concatenations, anything else an unknown function of the arguments.
func (c *Ctx) sprintf(args []*Val, st State) *Val {
	format, ok := c.litOf(c.term(args[0], st))
	vs, ok2 := c.varargs(c.term(args[1], st), st)
	if !ok || !ok2 {
		return &Val{T: types.Typ[types.String], S: "Str", X: c.fresh("sprintf", "Str")}
	}
	out := c.lit("")
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' || i+1 >= len(format) {
			j := i
			for j < len(format) && format[j] != '%' {
				j++
			}
			out = c.cat(out, c.lit(format[i:j]))
			i = j - 1
			continue
		}
		i++
		if format[i] == '%' {
			out = c.cat(out, c.lit("%"))
			continue
		}
		if n >= len(vs) {
			return &Val{T: types.Typ[types.String], S: "Str", X: c.fresh("sprintf", "Str")}
		}
		f := "fmt_" + string(format[i])
		c.decl(f, "(declare-fun "+f+" (Any) Str)")
		if format[i] == 's' {
			for _, t := range []types.Type{types.Typ[types.String]} {
				c.decl("fmt_s string", fmt.Sprintf("(assert (forall ((s Str)) (! (= (fmt_s %s) s) :pattern ((fmt_s %s)))))", c.box(t, "s"), c.box(t, "s")))
			}
		}
		out = c.cat(out, c.def("fmt", "Str", "("+f+" "+vs[n]+")"))
		n++
	}
	return &Val{T: types.Typ[types.String], S: "Str", X: out}
}
