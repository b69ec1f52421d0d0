package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (c *Ctx) instr(fr *frame, in ssa.Instruction, g string, st State) string {
	set := func(v ssa.Value, x *Val) { fr.vals[v] = x }
	def := func(v ssa.Value, t string) {
		s := c.sortOf(v.Type())
		if len(t) > 60 {
			t = c.def("v", s, t)
		}
		set(v, c.val(v.Type(), t))
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if at, ok := t.Underlying().(*types.Array); ok {
			row := c.newRef(st)
			es := c.sortOf(at.Elem())
			k := c.skey(es)
			c.store(st, &LV{key: k, ref: row, T: t}, fmt.Sprintf("((as const (Array Int %s)) %s)", es, c.zero(at.Elem())), g)
			set(x, &Val{T: x.Type(), S: "Ref", X: row, LV: &LV{key: k, ref: row, T: t}})
			return g
		}
		if !x.Heap || !isBuffer(t) && c.localAlloc(x, map[ssa.Value]bool{}) {
			c.cells++
			k := c.regKey(fmt.Sprintf("L:%s.%d", san(x.Comment), c.cells), c.sortOf(t))
			st[k] = c.zero(t)
			set(x, &Val{T: x.Type(), S: "Ref", LV: &LV{key: k, T: t}})
			return g
		}
		r := c.newRef(st)
		lv := c.heapLV(t, r)
		c.store(st, lv, c.zero(t), g)
		set(x, &Val{T: x.Type(), S: "Ref", X: r, LV: lv})
	case *ssa.BinOp:
		set(x, c.binop(x, c.value(fr, x.X, st), c.value(fr, x.Y, st), g, st))
	case *ssa.UnOp:
		v := c.value(fr, x.X, st)
		switch x.Op {
		case token.NOT:
			def(x, not(c.term(v, st)))
		case token.SUB:
			if c.sortOf(x.Type()) != "Int" {
				c.unsup("float negation")
			}
			def(x, "(- "+c.term(v, st)+")")
		case token.MUL:
			if gl, ok := x.X.(*ssa.Global); ok {
				c.guarded(gl, "", g, x.Pos(), st)
			}
			lv := c.deref(v, g, x.Pos(), st)
			if f := c.storedClosure(fr, x.X); f != nil {
				set(x, f)
				return g
			}
			t := c.load(st, lv)
			s := c.sortOf(x.Type())
			if heapKey(lv.key) || len(t) > 60 {
				t = c.def("ld", s, t)
			}
			if c.dry == 0 && heapKey(lv.key) {
				if w := c.wfTerm(s, t, c.get(st, "alloc")); w != "true" {
					c.assume(imp(g, w))
				}
			}
			c.rangeFact(x.Type(), t)
			set(x, c.val(x.Type(), t))
		default:
			c.unsup("operator %s", x.Op)
		}
	case *ssa.Call:
		r, ng := c.call(fr, &x.Call, x, g, st)
		set(x, r)
		return ng
	case *ssa.ChangeInterface:
		set(x, retype(c.value(fr, x.X, st), x.Type()))
	case *ssa.ChangeType:
		set(x, retype(c.value(fr, x.X, st), x.Type()))
	case *ssa.MakeInterface:
		v := c.value(fr, x.X, st)
		if v.LV != nil && v.X == "" {
			// the address of a variable boxed for a call
			set(x, &Val{T: x.Type(), S: "Any", Tup: []*Val{v}})
			return g
		}
		set(x, &Val{T: x.Type(), S: "Any", X: c.box(x.X.Type(), c.term(v, st)), Tup: []*Val{v}})
	case *ssa.Convert:
		set(x, c.convert(x.Type(), x.X.Type(), c.value(fr, x.X, st), g, st))
	case *ssa.Extract:
		t := c.value(fr, x.Tuple, st)
		if t.Tup == nil {
			c.unsup("extract from %s", x.Tuple)
		}
		set(x, t.Tup[x.Index])
	case *ssa.Field:
		v := c.value(fr, x.X, st)
		def(x, c.getField(v.S, c.term(v, st), x.Field))
	case *ssa.FieldAddr:
		v := c.value(fr, x.X, st)
		lv := c.deref(v, g, x.Pos(), st)
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		n := lv.field(c.sortOf(pt), x.Field)
		set(x, &Val{T: x.Type(), S: "Ref", LV: n})
	case *ssa.Index:
		v := c.value(fr, x.X, st)
		i := c.term(c.value(fr, x.Index, st), st)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Basic:
			t := c.term(v, st)
			c.check(g, and("(<= 0 "+i+")", "(< "+i+" (slen "+t+"))"), "string index in range", x.Pos())
			def(x, "(sat "+t+" "+i+")")
		case *types.Array:
			c.check(g, and("(<= 0 "+i+")", "(< "+i+" "+num(u.Len())+")"), "index in range", x.Pos())
			def(x, sel(c.term(v, st), i))
		default:
			c.unsup("index of %s", x.X.Type())
		}
	case *ssa.IndexAddr:
		v := c.value(fr, x.X, st)
		i := c.term(c.value(fr, x.Index, st), st)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := c.term(v, st)
			c.check(g, and("(<= 0 "+i+")", "(< "+i+" (len. "+s+"))"), "index in range", x.Pos())
			lv := &LV{key: c.skey(c.sortOf(u.Elem())), ref: "(row. " + s + ")", idx: "(idx (off. " + s + ") " + i + ")", T: u.Elem()}
			if strings.HasPrefix(s, "(mkslice ") {
				a := sargs(s)
				lv.ref = a[0]
				lv.idx = "(idx " + a[1] + " " + i + ")"
			}
			set(x, &Val{T: x.Type(), S: "Ref", LV: lv})
		case *types.Pointer:
			lv := c.deref(v, g, x.Pos(), st)
			at := u.Elem().Underlying().(*types.Array)
			c.check(g, and("(<= 0 "+i+")", "(< "+i+" "+num(at.Len())+")"), "index in range", x.Pos())
			n := *lv
			if n.ref != "" && n.idx == "" && len(n.path) == 0 && strings.HasPrefix(n.key, "S:") {
				n.idx = "(idx 0 " + i + ")"
			} else {
				n.path = append(append([]step{}, lv.path...), step{idx: i, esort: c.sortOf(at.Elem())})
			}
			n.T = at.Elem()
			set(x, &Val{T: x.Type(), S: "Ref", LV: &n})
		default:
			c.unsup("index address of %s", x.X.Type())
		}
	case *ssa.Lookup:
		c.lookup(fr, x, g, st)
	case *ssa.MakeClosure:
		v := &Val{T: x.Type(), S: "Fn", Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			v.Binds = append(v.Binds, c.value(fr, b, st))
		}
		set(x, v)
	case *ssa.MakeMap:
		if isJM(x.Type()) {
			c.cells++
			k := c.regKey(fmt.Sprintf("J:%d", c.cells), "JM")
			st[k] = "jempty"
			set(x, &Val{T: x.Type(), S: "JM", JCell: k})
			return g
		}
		mt := x.Type().Underlying().(*types.Map)
		ks, vs := c.sortOf(mt.Key()), c.sortOf(mt.Elem())
		dk, vk := c.mkeys(ks, vs)
		r := c.newRef(st)
		c.wrote(dk, r, "", g)
		c.wrote(vk, r, "", g)
		st[dk] = c.def("st_Md", c.keySort(dk), sto(c.get(st, dk), r, fmt.Sprintf("((as const (Array %s Bool)) false)", ks)))
		st[vk] = c.def("st_Mv", c.keySort(vk), sto(c.get(st, vk), r, fmt.Sprintf("((as const (Array %s %s)) %s)", ks, vs, c.zero(mt.Elem()))))
		set(x, &Val{T: x.Type(), S: "Ref", X: r})
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		es := c.sortOf(et)
		n := c.term(c.value(fr, x.Len, st), st)
		cp := c.term(c.value(fr, x.Cap, st), st)
		c.check(g, and("(<= 0 "+n+")", "(<= "+n+" "+cp+")"), "make: length and capacity", x.Pos())
		r := c.newRef(st)
		c.store(st, &LV{key: c.skey(es), ref: r, T: et}, fmt.Sprintf("((as const (Array Int %s)) %s)", es, c.zero(et)), g)
		set(x, &Val{T: x.Type(), S: "Slice", X: "(mkslice " + r + " 0 " + n + " " + cp + ")"})
	case *ssa.MakeChan:
		set(x, &Val{T: x.Type(), S: "Ref", X: c.newRef(st)})
	case *ssa.MapUpdate:
		c.guardedMap(c.value(fr, x.Map, st), g, x.Pos(), st)
		c.mapUpdate(c.value(fr, x.Map, st), c.value(fr, x.Key, st), c.value(fr, x.Value, st), g, st, x.Pos())
	case *ssa.Range:
		mv := c.value(fr, x.X, st)
		mt, ok := x.X.Type().Underlying().(*types.Map)
		c.guardedMap(mv, g, x.Pos(), st)
		if !ok {
			c.unsup("range over %s", x.X.Type())
		}
		c.cells++
		ks := c.sortOf(mt.Key())
		k := c.regKey(fmt.Sprintf("it:%d", c.cells), "(Array "+ks+" Bool)")
		st[k] = fmt.Sprintf("((as const (Array %s Bool)) false)", ks)
		if mv.JCell != "" {
			mv = &Val{T: mv.T, S: "JM", X: c.term(mv, st)}
		}
		set(x, &Val{T: mt, Iter: &iter{key: k, ksrt: ks, mapv: mv}})
	case *ssa.Next:
		it := c.value(fr, x.Iter, st).Iter
		mt := it.mapv.T.Underlying().(*types.Map)
		ok := c.fresh("ok", "Bool")
		key := c.fresh("key", it.ksrt)
		dom := c.mapDom(it.mapv, st)
		seen := c.get(st, it.key)
		c.assumeIf(ok, and(sel(dom, key), not(sel(seen, key))))
		c.assumeIf(not(ok), fmt.Sprintf("(forall ((k %s)) (! (=> (select %s k) (select %s k)) :pattern ((select %s k)) :pattern ((select %s k))))", it.ksrt, dom, seen, dom, seen))
		st[it.key] = c.def("seen", c.keySort(it.key), ite(ok, sto(seen, key, "true"), seen))
		val := c.def("mv", c.sortOf(mt.Elem()), sel(c.mapVals(it.mapv, st), key))
		if w := c.wfTerm(c.sortOf(mt.Elem()), val, c.get(st, "alloc")); w != "true" {
			c.assume(imp(and(g, ok), w))
		}
		set(x, &Val{Tup: []*Val{{T: types.Typ[types.Bool], S: "Bool", X: ok}, c.val(mt.Key(), key), c.val(mt.Elem(), val)}})
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			c.invoke(fr, d.call, d.fn, d.args, nil, and(g, d.guard), st)
		}
	case *ssa.Defer:
		fn, args := c.callArgs(fr, &x.Call, st)
		fr.defers = append(fr.defers, deferred{g, &x.Call, args, fn})
	case *ssa.Go:
		c.assumed["goroutine started in "+c.keyOf(fr.fn)+" is not followed"] = true
	case *ssa.Slice:
		c.slice(fr, x, g, st)
	case *ssa.Store:
		if gl, ok := x.Addr.(*ssa.Global); ok {
			c.guarded(gl, "", g, x.Pos(), st)
		}
		a := c.value(fr, x.Addr, st)
		lv := c.deref(a, g, x.Pos(), st)
		v := c.value(fr, x.Val, st)
		if v.Fn != nil && lv.ref == "" && strings.HasPrefix(lv.key, "L:") && storesTo(x.Addr) == 1 {
			c.cellFn[lv.key] = v
		}
		c.store(st, lv, c.term(v, st), g)
	case *ssa.TypeAssert:
		c.typeAssert(fr, x, g, st)
	default:
		c.unsup("instruction %T", in)
	}
	return g
}

func retype(v *Val, t types.Type) *Val {
	n := *v
	n.T = t
	return &n
}

// storedClosure: a variable that is assigned exactly one function literal.
func (c *Ctx) storedClosure(fr *frame, addr ssa.Value) *Val {
	if _, ok := addr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	v := fr.vals[addr]
	if v == nil || v.LV == nil || v.LV.ref != "" {
		return nil
	}
	return c.cellFn[v.LV.key]
}

// deref is the location a pointer value denotes.
func (c *Ctx) deref(v *Val, g string, pos token.Pos, st State) *LV {
	if v.LV == nil {
		c.unsup("dereference of %v", v.T)
	}
	if v.LV.ref != "" && len(v.LV.path) == 0 && v.LV.idx == "" && !c.isFreshRef(v.LV.ref) {
		c.check(g, not(eq(v.LV.ref, "0")), "pointer is not nil", pos)
	}
	return v.LV
}

func (c *Ctx) mapDom(m *Val, st State) string {
	if m.S == "JM" {
		return "(jdom " + c.term(m, st) + ")"
	}
	mt := m.T.Underlying().(*types.Map)
	dk, _ := c.mkeys(c.sortOf(mt.Key()), c.sortOf(mt.Elem()))
	return sel(c.get(st, dk), c.term(m, st))
}

func (c *Ctx) mapVals(m *Val, st State) string {
	if m.S == "JM" {
		return "(jval " + c.term(m, st) + ")"
	}
	mt := m.T.Underlying().(*types.Map)
	_, vk := c.mkeys(c.sortOf(mt.Key()), c.sortOf(mt.Elem()))
	return sel(c.get(st, vk), c.term(m, st))
}

func (c *Ctx) lookup(fr *frame, x *ssa.Lookup, g string, st State) {
	m := c.value(fr, x.X, st)
	c.guardedMap(m, g, x.Pos(), st)
	k := c.term(c.value(fr, x.Index, st), st)
	mt, ok := x.X.Type().Underlying().(*types.Map)
	if !ok {
		s := c.term(m, st)
		c.check(g, and("(<= 0 "+k+")", "(< "+k+" (slen "+s+"))"), "string index in range", x.Pos())
		fr.vals[x] = &Val{T: x.Type(), S: "Int", X: "(sat " + s + " " + k + ")"}
		return
	}
	in := c.def("in", "Bool", sel(c.mapDom(m, st), k))
	s := c.sortOf(mt.Elem())
	v := c.def("mv", s, ite(in, sel(c.mapVals(m, st), k), c.zero(mt.Elem())))
	if w := c.wfTerm(s, v, c.get(st, "alloc")); w != "true" {
		c.assume(imp(g, w))
	}
	if x.CommaOk {
		fr.vals[x] = &Val{Tup: []*Val{c.val(mt.Elem(), v), {T: types.Typ[types.Bool], S: "Bool", X: in}}}
		return
	}
	fr.vals[x] = c.val(mt.Elem(), v)
}

func (c *Ctx) mapUpdate(m, k, v *Val, g string, st State, pos token.Pos) {
	kt, vt := c.term(k, st), c.term(v, st)
	if m.S == "JM" {
		if m.JCell == "" {
			c.unsup("assignment into a JSON object that was not made here")
		}
		st[m.JCell] = c.def("jm", "JM", "(jset "+c.get(st, m.JCell)+" "+kt+" "+vt+")")
		return
	}
	mt := m.T.Underlying().(*types.Map)
	dk, vk := c.mkeys(c.sortOf(mt.Key()), c.sortOf(mt.Elem()))
	r := c.term(m, st)
	if !c.isFreshRef(r) {
		c.check(g, not(eq(r, "0")), "map is not nil", pos)
	}
	c.wrote(dk, r, "", g)
	d, vs := c.get(st, dk), c.get(st, vk)
	st[dk] = c.def("st_Md", c.keySort(dk), sto(d, r, sto(sel(d, r), kt, "true")))
	st[vk] = c.def("st_Mv", c.keySort(vk), sto(vs, r, sto(sel(vs, r), kt, vt)))
	c.writes = append(c.writes, write{vk, r, c.isFreshRef(r)})
}

func (c *Ctx) binop(x *ssa.BinOp, a, b *Val, g string, st State) *Val {
	t := x.Type()
	mk := func(s string) *Val {
		if len(s) > 60 {
			s = c.def("v", c.sortOf(t), s)
		}
		return &Val{T: t, S: c.sortOf(t), X: s}
	}
	switch x.Op {
	case token.EQL, token.NEQ:
		r := c.equal(a, b, st)
		if x.Op == token.NEQ {
			r = not(r)
		}
		return mk(r)
	}
	ta, tb := c.term(a, st), c.term(b, st)
	switch a.S {
	case "Str":
		switch x.Op {
		case token.ADD:
			return mk(c.cat(ta, tb))
		case token.LSS:
			return mk("(slt " + ta + " " + tb + ")")
		case token.GTR:
			return mk("(slt " + tb + " " + ta + ")")
		case token.LEQ:
			return mk(not("(slt " + tb + " " + ta + ")"))
		case token.GEQ:
			return mk(not("(slt " + ta + " " + tb + ")"))
		}
	case "Int":
		op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]
		if op != "" {
			c.assumed["machine integers are treated as mathematical"] = true
			return mk("(" + op + " " + ta + " " + tb + ")")
		}
		f := "intop_" + san(x.Op.String()) + fmt.Sprint(int(x.Op))
		c.decl(f, "(declare-fun "+f+" (Int Int) Int)")
		return mk("(" + f + " " + ta + " " + tb + ")")
	case "Bool":
		switch x.Op {
		case token.AND:
			return mk(and(ta, tb))
		case token.OR:
			return mk(or(ta, tb))
		}
	}
	c.unsup("operator %s on %s", x.Op, x.X.Type())
	return nil
}

// equal compares two Go values with ==.
func (c *Ctx) equal(a, b *Val, st State) string {
	nilv := func(v *Val) bool {
		return v.X == "0" || v.X == "anil" || v.X == "nilslice" || v.X == "jmnil"
	}
	if nilv(a) {
		a, b = b, a
	}
	if nilv(b) {
		switch {
		case a.Fn != nil, a.LV != nil && a.X == "":
			return "false"
		case a.S == "Slice":
			return "(= (row. " + c.term(a, st) + ") 0)"
		case a.S == "Any" && a.X == "":
			return "false"
		}
		return eq(c.term(a, st), b.X)
	}
	if a.LV != nil && a.X == "" || b.LV != nil && b.X == "" {
		if a.LV != nil && b.LV != nil && fmt.Sprint(*a.LV) == fmt.Sprint(*b.LV) {
			return "true"
		}
		if a.LV != nil && a.X == "" && strings.HasPrefix(a.LV.key, "L:") {
			return "false"
		}
	}
	return eq(c.term(a, st), c.term(b, st))
}

func (c *Ctx) convert(to, from types.Type, v *Val, g string, st State) *Val {
	ts, fs := c.sortOf(to), v.S
	x := ""
	if !(v.LV != nil && v.X == "") {
		x = c.term(v, st)
	}
	switch {
	case ts == "Int" && fs == "Int":
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		if fb.Info()&types.IsUnsigned != 0 && tb.Info()&types.IsUnsigned == 0 {
			if _, err := fmt.Sscan(x, new(int)); err == nil {
				return &Val{T: to, S: ts, X: x}
			}
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				// exact two's complement for 64 bit
				return &Val{T: to, S: ts, X: c.def("cv", "Int", ite("(< "+x+" 9223372036854775808)", x, "(- "+x+" 18446744073709551616)"))}
			}
		}
		if fb.Info()&types.IsUnsigned == 0 && tb.Info()&types.IsUnsigned != 0 {
			return &Val{T: to, S: ts, X: c.def("cv", "Int", ite("(<= 0 "+x+")", x, "(+ "+x+" 18446744073709551616)"))}
		}
		return &Val{T: to, S: ts, X: x}
	case ts == fs:
		return retype(v, to)
	case ts == "Str" && fs == "Slice":
		row := c.get(st, c.skey("Int"))
		return &Val{T: to, S: "Str", X: c.def("s", "Str", fmt.Sprintf("(bstr (select %s (row. %s)) (off. %s) (len. %s))", row, x, x, x))}
	case ts == "Slice" && fs == "Str":
		r := c.newRef(st)
		c.store(st, &LV{key: c.skey("Int"), ref: r, T: types.Typ[types.Byte]}, "(sbytes "+x+")", g)
		return &Val{T: to, S: "Slice", X: fmt.Sprintf("(mkslice %s 0 (slen %s) (slen %s))", r, x, x)}
	case ts == "F64" && fs == "Int":
		return &Val{T: to, S: ts, X: "(i2f " + x + ")"}
	case ts == "Str" && fs == "Int":
		return &Val{T: to, S: ts, X: "(rune2s " + x + ")"}
	}
	c.unsup("conversion from %s to %s", from, to)
	return nil
}

func (c *Ctx) slice(fr *frame, x *ssa.Slice, g string, st State) {
	v := c.value(fr, x.X, st)
	bound := func(b ssa.Value, d string) string {
		if b == nil {
			return d
		}
		return c.term(c.value(fr, b, st), st)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := c.term(v, st)
		n := "(slen " + s + ")"
		lo, hi := bound(x.Low, "0"), bound(x.High, n)
		c.check(g, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+n+")"), "slice bounds in range", x.Pos())
		if lo == "0" && hi == n {
			fr.vals[x] = v
			return
		}
		fr.vals[x] = &Val{T: x.Type(), S: "Str", X: c.def("sub", "Str", "(ssub "+s+" "+lo+" "+hi+")")}
	case *types.Slice:
		s := c.term(v, st)
		cp := "(cap. " + s + ")"
		lo, hi := bound(x.Low, "0"), bound(x.High, "(len. "+s+")")
		mx := bound(x.Max, cp)
		c.check(g, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+mx+")", "(<= "+mx+" "+cp+")"), "slice bounds in range", x.Pos())
		fr.vals[x] = &Val{T: x.Type(), S: "Slice", X: c.def("sl", "Slice", fmt.Sprintf("(mkslice (row. %s) %s (- %s %s) (- %s %s))", s, add("(off. "+s+")", lo), hi, lo, mx, lo))}
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		lv := v.LV
		if lv == nil || !strings.HasPrefix(lv.key, "S:") || x.Max != nil {
			c.unsup("slice of an array in place")
		}
		n := num(at.Len())
		lo, hi := bound(x.Low, "0"), bound(x.High, n)
		fr.vals[x] = &Val{T: x.Type(), S: "Slice", X: fmt.Sprintf("(mkslice %s %s %s %s)", lv.ref, lo, sub(hi, lo), sub(n, lo))}
	default:
		c.unsup("slice of %s", x.X.Type())
	}
}

func sub(a, b string) string {
	if b == "0" {
		return a
	}
	return "(- " + a + " " + b + ")"
}

func (c *Ctx) typeAssert(fr *frame, x *ssa.TypeAssert, g string, st State) {
	v := c.value(fr, x.X, st)
	var ok, val string
	zero := ""
	var inner *Val
	if types.IsInterface(x.AssertedType) {
		t := c.term(v, st)
		ok = c.implements(x.AssertedType, t)
		val, zero = t, "anil"
	} else {
		if v.X == "" && len(v.Tup) == 1 && types.Identical(v.Tup[0].T, x.AssertedType) {
			ok, inner = "true", v.Tup[0]
		} else {
			t := c.term(v, st)
			ok = c.isType(x.AssertedType, t)
			val, zero = c.unbox(x.AssertedType, t), c.zero(x.AssertedType)
		}
	}
	ok = c.def("is", "Bool", ok)
	mk := func(t string) *Val {
		if inner != nil {
			return inner
		}
		s := c.sortOf(x.AssertedType)
		t = c.def("as", s, t)
		if w := c.wfTerm(s, t, c.get(st, "alloc")); w != "true" {
			c.assume(imp(and(g, ok), w))
		}
		return c.val(x.AssertedType, t)
	}
	if x.CommaOk {
		if inner == nil {
			val = ite(ok, val, zero)
		}
		fr.vals[x] = &Val{Tup: []*Val{mk(val), {T: types.Typ[types.Bool], S: "Bool", X: ok}}}
		return
	}
	c.check(g, ok, "type assertion holds", x.Pos())
	fr.vals[x] = mk(val)
}

func storesTo(a ssa.Value) int {
	n := 0
	if rs := a.Referrers(); rs != nil {
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == a {
					n++
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == a && writesVar(x.Fn.(*ssa.Function), i, map[*ssa.Function]bool{}) {
						n++
					}
				}
			}
		}
	}
	return n
}

// capturedClosure: a captured variable of function type that the enclosing
// function assigns exactly once, a function literal whose own captured
// variables are all captured here too.
func capturedClosure(fn *ssa.Function, fv int, vals map[ssa.Value]*Val) *Val {
	if fn.Parent() == nil {
		return nil
	}
	var mine *ssa.MakeClosure
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == ssa.Value(fn) {
				if mine != nil {
					return nil
				}
				mine = m
			}
		}
	}
	if mine == nil {
		return nil
	}
	cell, ok := mine.Bindings[fv].(*ssa.Alloc)
	if !ok || storesTo(cell) != 1 {
		return nil
	}
	if _, ok := cell.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); !ok {
		return nil
	}
	for _, r := range *cell.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok || s.Addr != ssa.Value(cell) {
			continue
		}
		m, ok := s.Val.(*ssa.MakeClosure)
		if !ok {
			if f, ok := s.Val.(*ssa.Function); ok {
				return &Val{T: f.Type(), Fn: f}
			}
			return nil
		}
		out := &Val{T: m.Type(), Fn: m.Fn.(*ssa.Function)}
		for _, b := range m.Bindings {
			var v *Val
			for i, b2 := range mine.Bindings {
				if b == b2 {
					v = vals[fn.FreeVars[i]]
				}
			}
			if v == nil {
				return nil
			}
			out.Binds = append(out.Binds, v)
		}
		return out
	}
	return nil
}

// guarded obliges what has to hold where a guarded package variable, or the
// map it holds, is used.
func (c *Ctx) guarded(gl *ssa.Global, or, g string, pos token.Pos, st State) {
	if gl.Pkg == nil || c.dry > 0 {
		return
	}
	name := c.p.short(gl.Pkg.Pkg) + "." + gl.Name()
	cl, ok := c.db.Guards[name]
	if !ok {
		return
	}
	goal := c.clause(cl, c.newEnv(st, "guard"))
	if or != "" {
		goal = "(or " + or + " " + goal + ")"
	}
	c.counts["guard "+name]++
	c.oblige(&Ob{Name: fmt.Sprintf("guard %s@%d", name, c.counts["guard "+name]), Kind: "guard", Text: cl.Text + " where " + name + " is used", Pos: c.p.pos(pos), Guard: g, Goal: goal, Props: cl.Props})
}

func (c *Ctx) guardedMap(m *Val, g string, pos token.Pos, st State) {
	if m.T == nil || m.S == "JM" || len(c.db.Guards) == 0 || c.dry > 0 {
		return
	}
	for name := range c.db.Guards {
		i := strings.IndexByte(name, '.')
		pk := c.p.ByShort[name[:i]]
		if pk == nil || c.p.SSA.Package(pk) == nil {
			continue
		}
		gl, ok := c.p.SSA.Package(pk).Members[name[i+1:]].(*ssa.Global)
		if !ok || !types.Identical(gl.Type().Underlying().(*types.Pointer).Elem().Underlying(), m.T.Underlying()) {
			continue
		}
		k := c.regKey("G:"+name, c.sortOf(m.T))
		c.guarded(gl, not(eq(c.term(m, st), c.get(st, k))), g, pos, st)
	}
}
