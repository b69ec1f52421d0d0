package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Ob is one proof obligation.
type Ob struct {
	Name  string // stable name: function / kind / detail
	Func  string
	Kind  string
	Pos   string
	Text  string // source of the clause
	Guard string
	Goal  string
	Props []string
	at    int // number of items before it
}

type item struct {
	assert string
}

// Ctx holds everything generated for the verification of one function.
type Ctx struct {
	p        *Prog
	db       *DB
	decls    []string
	have     map[string]bool
	items    []string          // assertions, in program order
	optional map[string]string // assertions only wanted where a function is mentioned
	obs      []*Ob
	n        int
	dry      int

	structs  typeutil.Map // *types.Struct -> name
	structOf map[string]*types.Struct
	goType   map[string]types.Type // struct sort -> type
	snames   map[string]bool
	tags     typeutil.Map // type -> int
	tagTypes []types.Type
	lits     map[string]string
	litOrder []string
	flits    map[string]string
	fnIDs    map[string]int
	assumed  map[string]bool // assumptions used (trusted contracts, unknown externs)
	used     map[string]bool // contracts of repo functions used at calls
	inlined  map[string]bool
	impl     map[string]*types.Interface
	key      string
	props    []string
	cells    int
	alloc0   string // allocation counter at entry
	con      *Contract
	modAll   bool
	mods     []modTarget
	stack    []string
	entryEnv *env
	loopErr  []string
	counts   map[string]int
	kinds    map[string]string // sorts of state keys
	cellFn   map[string]*Val
	writes   []write
	disabled map[string]bool // candidate invariants found not to hold
}

type unsupported struct{ msg string }

func (c *Ctx) unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func newCtx(p *Prog, db *DB, key string) *Ctx {
	return &Ctx{p: p, db: db, key: key, have: map[string]bool{}, optional: map[string]string{}, structOf: map[string]*types.Struct{}, goType: map[string]types.Type{}, snames: map[string]bool{},
		lits: map[string]string{}, flits: map[string]string{}, fnIDs: map[string]int{}, counts: map[string]int{}, kinds: map[string]string{}, cellFn: map[string]*Val{},
		assumed: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, impl: map[string]*types.Interface{}}
}

func (c *Ctx) decl(key, text string) {
	if c.have[key] {
		return
	}
	c.have[key] = true
	c.decls = append(c.decls, text)
}

func (c *Ctx) fresh(prefix, sort string) string {
	c.n++
	name := fmt.Sprintf("%s!%d", san(prefix), c.n)
	c.decl(name, fmt.Sprintf("(declare-const %s %s)", name, sort))
	return name
}

// def introduces a name for a term (unless it is short already).
func (c *Ctx) def(prefix, sort, term string) string {
	if len(term) < 24 && !strings.Contains(term, "(") {
		return term
	}
	n := c.fresh(prefix, sort)
	c.assume("(= " + n + " " + term + ")")
	return n
}

func (c *Ctx) assume(t string) {
	if t == "true" {
		return
	}
	c.items = append(c.items, t)
}

func (c *Ctx) assumeIf(guard, t string) {
	if t == "true" {
		return
	}
	c.assume(imp(guard, t))
}

// oblige emits an obligation and continues assuming it.
func (c *Ctx) oblige(ob *Ob) {
	ob.Func = c.key
	if ob.Props == nil {
		ob.Props = c.props
	}
	ob.at = len(c.items)
	if c.dry == 0 {
		c.obs = append(c.obs, ob)
	}
	c.assumeIf(ob.Guard, ob.Goal)
}

func san(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '$', r == '!':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("P")
		case r == '[':
			b.WriteString("L")
		case r == ']':
			b.WriteString("J")
		default:
			b.WriteByte('_')
		}
	}
	if b.Len() == 0 {
		return "x"
	}
	return b.String()
}

func imp(g, t string) string {
	if g == "true" {
		return t
	}
	if t == "true" || g == "false" {
		return "true"
	}
	return "(=> " + g + " " + t + ")"
}

func and(ts ...string) string {
	var out []string
	for _, t := range ts {
		if t == "false" {
			return "false"
		}
		if t != "true" && t != "" {
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return "true"
	case 1:
		return out[0]
	}
	return "(and " + strings.Join(out, " ") + ")"
}

func or(ts ...string) string {
	var out []string
	for _, t := range ts {
		if t == "true" {
			return "true"
		}
		if t != "false" && t != "" {
			out = append(out, t)
		}
	}
	switch len(out) {
	case 0:
		return "false"
	case 1:
		return out[0]
	}
	return "(or " + strings.Join(out, " ") + ")"
}

func not(t string) string {
	switch {
	case t == "true":
		return "false"
	case t == "false":
		return "true"
	case strings.HasPrefix(t, "(not ") && balanced(t[5:len(t)-1]):
		return t[5 : len(t)-1]
	}
	return "(not " + t + ")"
}

func balanced(s string) bool {
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d < 0 {
				return false
			}
		case ' ':
			if d == 0 {
				return false
			}
		}
	}
	return d == 0
}

func ite(c, a, b string) string {
	switch {
	case a == b:
		return a
	case c == "true":
		return a
	case c == "false":
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func eq(a, b string) string {
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

func sel(a, i string) string    { return "(select " + a + " " + i + ")" }
func sto(a, i, v string) string { return "(store " + a + " " + i + " " + v + ")" }

func num(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

// isJM reports the type map[string]interface{}, the objects of JSON documents.
func isJM(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k, ok := m.Key().Underlying().(*types.Basic)
	if !ok || k.Kind() != types.String {
		return false
	}
	i, ok := m.Elem().Underlying().(*types.Interface)
	return ok && i.Empty()
}

func (c *Ctx) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Kind() == types.UntypedNil:
			return "Ref"
		case u.Kind() == types.UnsafePointer:
			return "Ref"
		}
	case *types.Pointer, *types.Chan:
		return "Ref"
	case *types.Signature:
		return "Fn"
	case *types.Map:
		if isJM(u) {
			return "JM"
		}
		return "Ref"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Array:
		return "(Array Int " + c.sortOf(u.Elem()) + ")"
	case *types.Struct:
		return c.structSort(t)
	}
	c.unsup("type %s", t)
	return ""
}

func (c *Ctx) structSort(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	if v := c.structs.At(st); v != nil {
		return v.(string)
	}
	name := "T_"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			name += c.p.short(n.Obj().Pkg()) + "."
		}
		name += n.Obj().Name()
	} else {
		name += "anon"
	}
	name = san(name)
	for c.snames[name] {
		name += "_"
	}
	c.snames[name] = true
	c.structs.Set(st, name)
	c.structOf[name] = st
	c.goType[name] = t
	var fs []string
	var wf []string
	for i := 0; i < st.NumFields(); i++ {
		s := c.sortOf(st.Field(i).Type())
		fs = append(fs, fmt.Sprintf("(%s %s)", facc(name, st, i), s))
		if w := c.wfTerm(s, "("+facc(name, st, i)+" x)", "a"); w != "true" {
			wf = append(wf, w)
		}
	}
	c.decl("sort "+name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " ")))
	if len(wf) > 0 {
		c.decl("wf "+name, fmt.Sprintf("(define-fun wf_%s ((x %s) (a Int)) Bool %s)", name, name, and(wf...)))
	}
	return name
}

func facc(name string, st *types.Struct, i int) string {
	return san(fmt.Sprintf("%s.%s", name[2:], st.Field(i).Name()) + func() string {
		if st.Field(i).Name() == "_" {
			return fmt.Sprint(i)
		}
		return ""
	}())
}

// wfTerm states that a value of the given sort only refers to memory
// allocated before a.
func (c *Ctx) wfTerm(sort, x, a string) string {
	switch {
	case sort == "Ref":
		return fmt.Sprintf("(and (<= 0 %s) (< %s %s))", x, x, a)
	case sort == "Slice":
		return fmt.Sprintf("(wfslice %s %s)", x, a)
	case strings.HasPrefix(sort, "T_"):
		if c.have["wf "+sort] {
			return fmt.Sprintf("(wf_%s %s %s)", sort, x, a)
		}
	}
	return "true"
}

// tag numbers a dynamic type and declares its box and unbox functions.
func (c *Ctx) tag(t types.Type) int {
	if v := c.tags.At(t); v != nil {
		return v.(int)
	}
	k := len(c.tagTypes) + 1
	c.tags.Set(t, k)
	c.tagTypes = append(c.tagTypes, t)
	s := c.sortOf(t)
	c.decl(fmt.Sprintf("box%d", k), fmt.Sprintf("; tag %d = %s\n(declare-fun box%d (%s) Any)\n(declare-fun unbox%d (Any) %s)\n(assert (forall ((v %s)) (! (and (= (tag (box%d v)) %d) (= (unbox%d (box%d v)) v)) :pattern ((box%d v)))))\n(assert (forall ((x Any)) (! (=> (= (tag x) %d) (= (box%d (unbox%d x)) x)) :pattern ((unbox%d x)))))",
		k, t, k, s, k, s, s, k, k, k, k, k, k, k, k, k))
	for _, i := range c.impl {
		c.implFact(t, k, i)
	}
	return k
}

func (c *Ctx) box(t types.Type, x string) string   { return fmt.Sprintf("(box%d %s)", c.tag(t), x) }
func (c *Ctx) unbox(t types.Type, x string) string { return fmt.Sprintf("(unbox%d %s)", c.tag(t), x) }
func (c *Ctx) isType(t types.Type, x string) string {
	return fmt.Sprintf("(= (tag %s) %d)", x, c.tag(t))
}

func (c *Ctx) implName(i *types.Interface, t types.Type) string {
	name := "impl_" + san(types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	if len(name) > 60 {
		name = fmt.Sprintf("%s_%d", name[:40], len(c.impl))
	}
	return name
}

// implements: term stating that the dynamic type of x implements t.
func (c *Ctx) implements(t types.Type, x string) string {
	i := t.Underlying().(*types.Interface)
	if i.Empty() {
		return not(eq(x, "anil"))
	}
	name := c.implName(i, t)
	if _, ok := c.impl[name]; !ok {
		c.impl[name] = i
		c.decl(name, fmt.Sprintf("(declare-fun %s (Int) Bool)\n(assert (not (%s 0)))", name, name))
		for k, tt := range c.tagTypes {
			c.implFact2(name, tt, k+1, i)
		}
	}
	return fmt.Sprintf("(%s (tag %s))", name, x)
}

func (c *Ctx) implFact(t types.Type, k int, i *types.Interface) {
	for n, ii := range c.impl {
		if ii == i {
			c.implFact2(n, t, k, i)
		}
	}
}

func (c *Ctx) implFact2(name string, t types.Type, k int, i *types.Interface) {
	f := fmt.Sprintf("(%s %d)", name, k)
	if !types.Implements(t, i) {
		f = not(f)
	}
	c.decl("impl "+name+fmt.Sprint(k), "(assert "+f+")")
}

// lit returns the constant for a string literal.
func (c *Ctx) lit(s string) string {
	if n, ok := c.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit!%d", len(c.lits))
	if s == "" {
		n = "str!empty"
	} else {
		c.decl(n, fmt.Sprintf("(declare-const %s Str) ; %q", n, s))
	}
	c.lits[s] = n
	c.litOrder = append(c.litOrder, s)
	return n
}

func (c *Ctx) litFacts(theory ...string) []string {
	return litFacts(c.lits, c.litOrder, c.flits, theory)
}

func litFacts(lits map[string]string, order []string, flits map[string]string, theory []string) []string {
	var out []string
	var names []string
	all := append([]string{}, order...)
	for _, s := range theory {
		if n, ok := lits[s]; ok {
			out = append(out, fmt.Sprintf("(assert (= %s %s))", theoryLit(s), n))
		} else {
			all = append(all, s)
		}
	}
	for _, s := range all {
		n, ok := lits[s]
		if !ok {
			n = theoryLit(s)
		}
		names = append(names, n)
		out = append(out, fmt.Sprintf("(assert (= (slen %s) %d))", n, len(s)))
		if len(s) <= 12 {
			for i := 0; i < len(s); i++ {
				out = append(out, fmt.Sprintf("(assert (= (sat %s %d) %d))", n, i, s[i]))
			}
		}
	}
	if len(names) > 1 {
		out = append(out, "(assert (distinct "+strings.Join(names, " ")+"))")
	}
	var fl []string
	for _, n := range flits {
		fl = append(fl, n)
	}
	sort.Strings(fl)
	if len(fl) > 1 {
		out = append(out, "(assert (distinct "+strings.Join(fl, " ")+"))")
	}
	return out
}

func (c *Ctx) litOf(term string) (string, bool) {
	for s, n := range c.lits {
		if n == term {
			return s, true
		}
	}
	return "", false
}

// cat concatenates two strings, folding literals.
func (c *Ctx) cat(a, b string) string {
	pa, pb := c.catParts(a), c.catParts(b)
	parts := append(append([]string{}, pa...), pb...)
	var out []string
	for _, x := range parts {
		if x == "str!empty" {
			continue
		}
		if len(out) > 0 {
			l1, ok1 := c.litOf(out[len(out)-1])
			l2, ok2 := c.litOf(x)
			if ok1 && ok2 {
				out[len(out)-1] = c.lit(l1 + l2)
				continue
			}
		}
		out = append(out, x)
	}
	if len(out) == 0 {
		return c.lit("")
	}
	t := out[len(out)-1]
	for i := len(out) - 2; i >= 0; i-- {
		t = "(scat " + out[i] + " " + t + ")"
	}
	return t
}

func (c *Ctx) catParts(t string) []string {
	if !strings.HasPrefix(t, "(scat ") {
		return []string{t}
	}
	args := sargs(t)
	return append(c.catParts(args[0]), c.catParts(args[1])...)
}

// sargs splits the arguments of an s-expression (f a b c).
func sargs(t string) []string {
	t = t[1 : len(t)-1]
	var out []string
	d, start := 0, 0
	for i := 0; i <= len(t); i++ {
		if i == len(t) || (t[i] == ' ' && d == 0) {
			if i > start {
				out = append(out, t[start:i])
			}
			start = i + 1
			continue
		}
		switch t[i] {
		case '(':
			d++
		case ')':
			d--
		}
	}
	return out[1:]
}

func (c *Ctx) flit(s string) string {
	if n, ok := c.flits[s]; ok {
		return n
	}
	n := "f64!" + san(s)
	c.decl(n, fmt.Sprintf("(declare-const %s F64)", n))
	c.flits[s] = n
	return n
}

// fnConst is the value of a function used as a value.
func (c *Ctx) fnConst(f *ssa.Function) string {
	k := c.p.Keys[f]
	if k == "" {
		k = f.String()
	}
	if _, ok := c.fnIDs[k]; !ok {
		c.fnIDs[k] = -(len(c.fnIDs) + 2)
		n := "fn!" + san(k)
		// function values live outside of the object id space
		c.decl(n, fmt.Sprintf("(define-fun %s () Fn %s)", n, num(int64(c.fnIDs[k]))))
		c.funcValueFacts(f, k, n)
	}
	return "fn!" + san(k)
}

func (c *Ctx) zero(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := c.structSort(t)
		if u.NumFields() == 0 {
			return "mk_" + n
		}
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, c.zero(u.Field(i).Type()))
		}
		return "(mk_" + n + " " + strings.Join(fs, " ") + ")"
	case *types.Array:
		return fmt.Sprintf("((as const %s) %s)", c.sortOf(t), c.zero(u.Elem()))
	}
	return c.zeroSort(c.sortOf(t))
}

func (c *Ctx) zeroSort(s string) string {
	switch s {
	case "Bool":
		return "false"
	case "Int", "Ref", "Fn":
		return "0"
	case "Str":
		return c.lit("")
	case "F64":
		return c.flit("0")
	case "Slice":
		return "nilslice"
	case "Any":
		return "anil"
	case "JM":
		return "jmnil"
	}
	c.unsup("zero of %s", s)
	return ""
}

// getField and setField work on values of struct sorts.
func (c *Ctx) getField(sort string, x string, i int) string {
	st := c.structOf[sort]
	if strings.HasPrefix(x, "(mk_"+sort+" ") {
		return sargs(x)[i]
	}
	return "(" + facc(sort, st, i) + " " + x + ")"
}

func (c *Ctx) setField(sort string, x string, i int, v string) string {
	st := c.structOf[sort]
	fs := make([]string, st.NumFields())
	for j := range fs {
		if j == i {
			fs[j] = v
		} else {
			fs[j] = c.getField(sort, x, j)
		}
	}
	return "(mk_" + sort + " " + strings.Join(fs, " ") + ")"
}
