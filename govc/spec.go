package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type clause struct {
	Text  string
	Expr  ast.Expr
	Props []string
	Pos   string
}

type LoopSpec struct {
	Inv []clause
}

type setClause struct {
	Name string
	Expr ast.Expr
}

// Contract of one function.
type Contract struct {
	Key       string
	File      string
	Params    []string
	Results   []string
	Requires  []clause
	Ensures   []clause
	Modifies  []string
	ModExprs  []ast.Expr
	Lets      []letClause
	Sets      []setClause
	Loops     map[int]*LoopSpec
	Hints     map[string][]clause
	Props     []string
	Pure      bool
	Trusted   bool // not verified: library function or outside of the verifier's reach
	Inline    bool
	NoReturn  bool
	Safe      bool
	Why       string
	Tracks    string   // ghost set when a call made by the function itself returns an error
	Untracked []string // callees whose errors do not matter
	Abstract  bool     // calls of functions under contract for other properties only return anything
	Policy    string   // function type whose contract the function's value has
}

type letClause struct {
	Name string
	Expr ast.Expr
}

// confined names are used by functions under contract for a property, and
// what is part of them, only. With ordered the names are those of functions
// which may iterate over maps, start goroutines or look at the time without
// being under contract.
type confined struct {
	props, names []string
	ordered      bool
}

type macro struct {
	Params []string
	Body   ast.Expr
}

type smtFn struct {
	Args []string
	Res  string
	Th   string
}

type Lemma struct {
	Name, Theory string
}

type theory struct {
	name   string
	text   string
	funcs  []string
	lemmas []string
}

// DB is everything read from the contract and theory files.
type DB struct {
	Contracts map[string]*Contract
	Macros    map[string]*macro
	Sorts     map[string]bool
	Funcs     map[string]smtFn
	Ghosts    map[string]string // name -> sort
	Guards    map[string]clause // package variable -> what holds where it is used
	Confined  []confined
	Theories  []*theory
	Dir       string
}

func splitImp(s string) string {
	// rewrite a ==> b and a <==> b into calls
	var out strings.Builder
	depth := 0
	instr := byte(0)
	start := 0
	var cut func(part string) string
	cut = func(part string) string { return part }
	_ = cut
	// first rewrite inside of brackets
	i := 0
	for i < len(s) {
		ch := s[i]
		if instr != 0 {
			if ch == '\\' && instr == '"' {
				i++
			} else if ch == instr {
				instr = 0
			}
			i++
			continue
		}
		switch ch {
		case '"', '`', '\'':
			instr = ch
		case '(', '[', '{':
			if depth == 0 {
				out.WriteString(s[start : i+1])
				start = i + 1
			}
			depth++
		case ')', ']', '}':
			depth--
			if depth == 0 {
				inner := s[start:i]
				parts := splitTop(inner, ',')
				for k := range parts {
					parts[k] = splitImp(parts[k])
				}
				out.WriteString(strings.Join(parts, ","))
				start = i
			}
		}
		i++
	}
	out.WriteString(s[start:])
	t := out.String()
	if a, b, ok := cutTop(t, "<==>"); ok {
		return "iff(" + splitImp(a) + ", " + splitImp(b) + ")"
	}
	if a, b, ok := cutTop(t, "==>"); ok {
		return "imp(" + a + ", " + splitImp(b) + ")"
	}
	return t
}

func cutTop(s, sep string) (string, string, bool) {
	depth := 0
	instr := byte(0)
	for i := 0; i < len(s); i++ {
		ch := s[i]
		if instr != 0 {
			if ch == '\\' && instr == '"' {
				i++
			} else if ch == instr {
				instr = 0
			}
			continue
		}
		switch ch {
		case '"', '`', '\'':
			instr = ch
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		}
		if depth == 0 && strings.HasPrefix(s[i:], sep) && !(sep == "==>" && i > 0 && s[i-1] == '<') {
			return s[:i], s[i+len(sep):], true
		}
	}
	return "", "", false
}

func splitTop(s string, sep byte) []string {
	var out []string
	for {
		a, b, ok := cutTop(s, string(sep))
		if !ok {
			return append(out, s)
		}
		out = append(out, a)
		s = b
	}
}

func parseSpec(s string) (ast.Expr, error) {
	e, err := parser.ParseExpr(strings.TrimSpace(splitImp(s)))
	if err != nil {
		return nil, fmt.Errorf("%q: %v", s, err)
	}
	return e, nil
}

var keywords = []string{"guard", "hint", "requires", "ensures", "modifies", "invariant", "loop", "props", "pure", "trusted", "inline", "noreturn", "safe", "let", "sets", "define", "func", "extern", "functype", "ghost", "why", "policy", "tracks", "abstract", "confined", "ordered"}

var headRe = regexp.MustCompile(`^(func|extern|functype)\s+(\S+?)(?:\(([^)]*)\))?(?:\s+\(([^)]*)\))?\s*$`)

func loadDB(dir string) (*DB, error) {
	db := &DB{Sorts: map[string]bool{}, Contracts: map[string]*Contract{}, Macros: map[string]*macro{}, Funcs: map[string]smtFn{}, Ghosts: map[string]string{}, Guards: map[string]clause{}, Dir: dir}
	db.parseTheory("prelude", prelude)
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.file(f); err != nil {
			return nil, err
		}
	}
	ts, _ := filepath.Glob(filepath.Join(dir, "theory", "*.smt2"))
	sort.Strings(ts)
	for _, f := range ts {
		if err := db.theory(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func names(s string) []string {
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

func (db *DB) file(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	type stmt struct {
		text string
		line int
	}
	var ss []stmt
	for i, l := range strings.Split(string(b), "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		w := strings.FieldsFunc(t, func(r rune) bool { return r == ' ' || r == '\t' })[0]
		kw := false
		for _, k := range keywords {
			kw = kw || w == k
		}
		if !kw && len(ss) > 0 {
			ss[len(ss)-1].text += " " + t
			continue
		}
		ss = append(ss, stmt{t, i + 1})
	}
	var con *Contract
	var lp *LoopSpec
	for _, s := range ss {
		fail := func(err error) error { return fmt.Errorf("%s:%d: %v", filepath.Base(f), s.line, err) }
		w, rest := s.text, ""
		if i := strings.IndexAny(s.text, " \t"); i >= 0 {
			w, rest = s.text[:i], strings.TrimSpace(s.text[i:])
		}
		if con == nil && w != "func" && w != "extern" && w != "functype" && w != "define" && w != "ghost" && w != "guard" && w != "confined" && w != "ordered" {
			return fail(fmt.Errorf("clause outside of a contract"))
		}
		mk := func() (clause, error) {
			var pr []string
			if strings.HasPrefix(rest, "[C") {
				i := strings.Index(rest, "]")
				pr = strings.Fields(strings.ReplaceAll(rest[1:i], ",", " "))
				rest = strings.TrimSpace(rest[i+1:])
			}
			e, err := parseSpec(rest)
			return clause{rest, e, pr, fmt.Sprintf("%s:%d", filepath.Base(f), s.line)}, err
		}
		switch w {
		case "func", "extern", "functype":
			m := headRe.FindStringSubmatch(s.text)
			if m == nil {
				return fail(fmt.Errorf("bad head %q", s.text))
			}
			con = &Contract{Key: m[2], File: filepath.Base(f), Params: names(m[3]), Results: names(m[4]), Loops: map[int]*LoopSpec{}}
			lp = nil
			k := m[2]
			if m[1] == "functype" {
				k = "func " + k
				con.Trusted = true
			}
			if m[1] == "extern" {
				con.Trusted = true
			}
			if db.Contracts[k] != nil {
				return fail(fmt.Errorf("duplicate contract of %s", k))
			}
			db.Contracts[k] = con
		case "define":
			a, b, ok := cutTop(rest, "=")
			m := regexp.MustCompile(`^(\w+)\(([^)]*)\)\s*$`).FindStringSubmatch(strings.TrimSpace(a))
			if !ok || m == nil {
				return fail(fmt.Errorf("bad definition"))
			}
			e, err := parseSpec(b)
			if err != nil {
				return fail(err)
			}
			if db.Macros[m[1]] != nil {
				return fail(fmt.Errorf("duplicate definition of %s", m[1]))
			}
			db.Macros[m[1]] = &macro{names(m[2]), e}
		case "guard":
			i := strings.IndexByte(rest, ' ')
			g := rest[:i]
			rest = strings.TrimSpace(rest[i:])
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			db.Guards[g] = c
		case "ghost":
			p := strings.SplitN(rest, " ", 2)
			db.Ghosts[p[0]] = strings.TrimSpace(p[1])
		case "requires":
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			con.Requires = append(con.Requires, c)
		case "ensures":
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			con.Ensures = append(con.Ensures, c)
		case "invariant":
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			if lp == nil {
				return fail(fmt.Errorf("invariant outside of a loop"))
			}
			lp.Inv = append(lp.Inv, c)
		case "loop":
			n, err := strconv.Atoi(strings.TrimSuffix(rest, ":"))
			if err != nil {
				return fail(err)
			}
			lp = &LoopSpec{}
			con.Loops[n] = lp
		case "hint":
			i := strings.Index(rest, ":")
			if i < 0 {
				return fail(fmt.Errorf("bad hint"))
			}
			k := strings.TrimSpace(rest[:i])
			rest = strings.TrimSpace(rest[i+1:])
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			if con.Hints == nil {
				con.Hints = map[string][]clause{}
			}
			con.Hints[k] = append(con.Hints[k], c)
		case "modifies":
			for _, x := range splitTop(rest, ',') {
				x = strings.TrimSpace(x)
				con.Modifies = append(con.Modifies, x)
			}
		case "tracks":
			if w := strings.Fields(rest); len(w) > 2 && w[1] == "except" {
				con.Tracks, con.Untracked = w[0], w[2:]
			} else {
				con.Tracks = rest
			}
		case "abstract":
			con.Abstract = true
		case "confined", "ordered":
			c := confined{ordered: w == "ordered"}
			for _, x := range strings.FieldsFunc(rest, func(r rune) bool { return r == ' ' || r == ',' }) {
				if strings.HasPrefix(x, "[C") {
					c.props = append(c.props, strings.Trim(x, "[]"))
				} else {
					c.names = append(c.names, x)
				}
			}
			db.Confined = append(db.Confined, c)
		case "policy":
			con.Policy = strings.TrimSpace(rest)
		case "props":
			con.Props = append(con.Props, strings.Fields(rest)...)
		case "pure":
			con.Pure = true
		case "trusted":
			con.Trusted = true
			con.Why = rest
		case "why":
			con.Why = rest
		case "inline":
			con.Inline = true
		case "noreturn":
			con.NoReturn = true
		case "safe":
			con.Safe = true
		case "let", "sets":
			a, b, ok := cutTop(rest, "=")
			if !ok {
				return fail(fmt.Errorf("bad %s", w))
			}
			e, err := parseSpec(b)
			if err != nil {
				return fail(err)
			}
			if w == "let" {
				con.Lets = append(con.Lets, letClause{strings.TrimSpace(a), e})
			} else {
				con.Sets = append(con.Sets, setClause{strings.TrimSpace(a), e})
			}
		}
	}
	return nil
}

var declRe = regexp.MustCompile(`(?m)^\((declare-fun|define-fun|declare-const|define-fun-rec)\s+(\S+)\s+(.*)$`)

func (db *DB) theory(f string) error {
	b, err := os.ReadFile(f)
	if err != nil {
		return err
	}
	db.Theories = append(db.Theories, db.parseTheory(strings.TrimSuffix(filepath.Base(f), ".smt2"), string(b)))
	return nil
}

func (db *DB) parseTheory(name, text string) *theory {
	th := &theory{name: name, text: text}
	for _, m := range declRe.FindAllStringSubmatch(th.text, -1) {
		rest := strings.TrimSpace(m[3])
		var args []string
		res := ""
		switch m[1] {
		case "declare-const":
			res = strings.TrimSuffix(strings.SplitN(rest, ";", 2)[0], ")")
			res = strings.TrimSpace(res)
		default:
			end := matching(rest, 0)
			al := rest[1:end]
			tail := strings.TrimSpace(rest[end+1:])
			for _, a := range splitSorts(al) {
				if m[1] != "declare-fun" {
					a = strings.TrimSpace(a[1 : len(a)-1])
					a = strings.TrimSpace(a[strings.IndexAny(a, " \t"):])
				}
				args = append(args, a)
			}
			if strings.HasPrefix(tail, "(") {
				res = tail[:matching(tail, 0)+1]
			} else {
				res = strings.FieldsFunc(tail, func(r rune) bool { return r == ' ' || r == ')' || r == '\t' })[0]
			}
		}
		db.Funcs[m[2]] = smtFn{args, res, th.name}
		th.funcs = append(th.funcs, m[2])
	}
	for _, m := range regexp.MustCompile(`(?m)^\(declare-sort (\S+) `).FindAllStringSubmatch(th.text, -1) {
		db.Sorts[m[1]] = true
		th.funcs = append(th.funcs, m[1])
	}
	for _, l := range strings.Split(th.text, "\n") {
		if strings.HasPrefix(l, ";lemma ") {
			th.lemmas = append(th.lemmas, strings.Fields(l)[1])
		}
	}
	return th
}

func matching(s string, i int) int {
	d := 0
	for ; i < len(s); i++ {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return i
			}
		}
	}
	return len(s) - 1
}

func splitSorts(s string) []string {
	var out []string
	s = strings.TrimSpace(s)
	for s != "" {
		if s[0] == '(' {
			e := matching(s, 0)
			out = append(out, s[:e+1])
			s = strings.TrimSpace(s[e+1:])
			continue
		}
		i := strings.IndexAny(s, " \t")
		if i < 0 {
			i = len(s)
		}
		out = append(out, s[:i])
		s = strings.TrimSpace(s[i:])
	}
	return out
}

// ---- evaluation

type env struct {
	c     *Ctx
	key   string // function whose scope names are resolved in
	names map[string]*Val
	st    State
	old   *env
	look  func(name string) *Val
	guard string
	slice func() *Val
	iters func() []*iter
	outer []*env // what enclosing loops have of n and iters, the innermost first
	n     string
	depth int
}

func (c *Ctx) newEnv(st State, key string) *env {
	return &env{c: c, key: key, names: map[string]*Val{}, st: st}
}

func (e *env) at(st State) *env {
	n := *e
	n.st = st
	n.names = map[string]*Val{}
	for k, v := range e.names {
		n.names[k] = v
	}
	return &n
}

var structRe = regexp.MustCompile(`T_(\w+)\.(\w+)`)

func (c *Ctx) ghostKey(name string) string {
	name = strings.TrimPrefix(name, "ghost.")
	s, ok := c.db.Ghosts[name]
	if !ok {
		c.unsup("unknown ghost %s", name)
	}
	for _, m := range structRe.FindAllStringSubmatch(s, -1) { // declares the sort
		if pk := c.p.ByShort[m[1]]; pk != nil {
			if o := pk.Scope().Lookup(m[2]); o != nil {
				c.sortOf(o.Type())
			}
		}
	}
	return c.regKey("gh:"+name, s)
}

func (c *Ctx) lets(con *Contract, e *env) {
	for _, l := range con.Lets {
		v := c.eval(l.Expr, e)
		e.names[l.Name] = v
	}
}

// clause evaluates a boolean clause.
func (c *Ctx) clause(cl clause, e *env) string {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				panic(unsupported{cl.Pos + ": " + u.msg})
			}
			panic(r)
		}
	}()
	v := c.eval(cl.Expr, e)
	if v.S != "Bool" {
		c.unsup("clause %q is not a condition", cl.Text)
	}
	return v.X
}

func (c *Ctx) eterm(v *Val, e *env) string {
	if v.S == "auto" {
		v = c.auto(v, e)
	}
	return c.term(v, e.st)
}

// auto reads a variable seen by name.
func (c *Ctx) auto(v *Val, e *env) *Val {
	t := v.T.Underlying().(*types.Pointer).Elem()
	if f := c.cellFn[v.LV.key]; f != nil {
		return f
	}
	return c.val(t, c.load(e.st, v.LV))
}

func (c *Ctx) eval(x ast.Expr, e *env) *Val {
	v := c.eval0(x, e)
	if v.S == "auto" {
		return c.auto(v, e)
	}
	return v
}

func boolv(t string) *Val { return &Val{T: types.Typ[types.Bool], S: "Bool", X: t} }
func intv(t string) *Val  { return &Val{T: types.Typ[types.Int], S: "Int", X: t} }

func (c *Ctx) eval0(x ast.Expr, e *env) *Val {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return c.eval0(x.X, e)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			return intv(x.Value)
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return &Val{T: types.Typ[types.String], S: "Str", X: c.lit(s)}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(x.Value[1:], '\'')
			return intv(fmt.Sprint(r))
		case token.FLOAT:
			f, _ := strconv.ParseFloat(x.Value, 64)
			return &Val{T: types.Typ[types.Float64], S: "F64", X: c.flit(fmt.Sprint(f))}
		}
	case *ast.Ident:
		return c.ident(x.Name, e)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if id.Name == "ghost" {
				k := c.ghostKey(x.Sel.Name)
				return &Val{S: c.keySort(k), X: c.get(e.st, k)}
			}
			if e.names[id.Name] == nil && (e.look == nil || e.look(id.Name) == nil) {
				if pk := c.p.ByShort[id.Name]; pk != nil {
					return c.object(pk, x.Sel.Name, e)
				}
			}
		}
		return c.selector(c.eval(x.X, e), x.Sel.Name, e)
	case *ast.StarExpr:
		v := c.eval(x.X, e)
		return c.star(v, e)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return boolv(not(c.eterm(c.eval(x.X, e), e)))
		case token.SUB:
			return intv("(- " + c.eterm(c.eval(x.X, e), e) + ")")
		}
	case *ast.BinaryExpr:
		return c.ebin(x, e)
	case *ast.IndexExpr:
		v := c.eval(x.X, e)
		i := c.eval(x.Index, e)
		return c.eindex(v, i, e)
	case *ast.CompositeLit:
		t := c.resolveType(x.Type, e)
		s := c.sortOf(t)
		cur := c.zero(t)
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			c.unsup("composite %s", t)
		}
		for _, el := range x.Elts {
			kv := el.(*ast.KeyValueExpr)
			cur = c.updField(s, st, cur, kv.Key.(*ast.Ident).Name, c.eval(kv.Value, e), e)
		}
		return &Val{T: t, S: s, X: cur}
	case *ast.CallExpr:
		return c.ecall(x, e)
	}
	c.unsup("expression %T", x)
	return nil
}

func (c *Ctx) updField(s string, st *types.Struct, cur, name string, v *Val, e *env) string {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return c.setField(s, cur, i, c.coerce(v, c.sortOf(st.Field(i).Type()), e))
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if in, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Embedded() && hasField(in, name) {
			is := c.sortOf(st.Field(i).Type())
			return c.setField(s, cur, i, c.updField(is, in, c.getField(s, cur, i), name, v, e))
		}
	}
	c.unsup("no field %s", name)
	return ""
}

func hasField(st *types.Struct, name string) bool {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
		if in, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Embedded() && hasField(in, name) {
			return true
		}
	}
	return false
}

// coerce fits a value to a sort: nil to its zero, concrete values boxed.
func (c *Ctx) coerce(v *Val, sort string, e *env) string {
	if v.S == "nil" {
		return c.zeroSort(sort)
	}
	if sort == "Any" && v.S != "Any" {
		if v.T == nil && v.S == "JM" {
			return "(box1 " + c.eterm(v, e) + ")"
		}
		if v.T == nil {
			c.unsup("cannot box a value of sort %s", v.S)
		}
		return c.box(v.T, c.eterm(v, e))
	}
	t := c.eterm(v, e)
	if sort == "Ref" || sort == "Fn" {
		return t
	}
	if v.S != sort {
		c.unsup("sort mismatch: %s for %s (%s)", v.S, sort, t)
	}
	return t
}

func (c *Ctx) ident(name string, e *env) *Val {
	switch name {
	case "true", "false":
		return boolv(name)
	case "nil":
		return &Val{S: "nil", X: "nil"}
	case "N":
		if e.n != "" {
			return intv(e.n)
		}
	case "N1", "N2":
		if i := int(name[1] - '1'); i < len(e.outer) && e.outer[i].n != "" {
			return intv(e.outer[i].n)
		}
	}
	if v := e.names[name]; v != nil {
		return v
	}
	if e.look != nil {
		if v := e.look(name); v != nil {
			return v
		}
	}
	if f, ok := c.db.Funcs[name]; ok && len(f.Args) == 0 {
		return &Val{S: f.Res, X: name}
	}
	if pk := c.pkgOf(e.key); pk != nil {
		if o := pk.Scope().Lookup(name); o != nil {
			return c.object(pk, name, e)
		}
	}
	c.unsup("unknown name %s", name)
	return nil
}

func (c *Ctx) pkgOf(key string) *types.Package {
	if i := strings.Index(key, "."); i > 0 {
		return c.p.ByShort[key[:i]]
	}
	return nil
}

func (c *Ctx) object(pk *types.Package, name string, e *env) *Val {
	switch o := pk.Scope().Lookup(name).(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.String:
			return &Val{T: o.Type(), S: "Str", X: c.lit(constant.StringVal(o.Val()))}
		case constant.Bool:
			return boolv(fmt.Sprint(constant.BoolVal(o.Val())))
		case constant.Int:
			x := o.Val().ExactString()
			if strings.HasPrefix(x, "-") {
				x = "(- " + x[1:] + ")"
			}
			return &Val{T: o.Type(), S: "Int", X: x}
		}
	case *types.Var:
		if sp := c.p.SSA.Package(pk); sp != nil {
			if g, ok := sp.Members[name].(*ssa.Global); ok {
				gv := c.global(g)
				return c.val(o.Type(), c.load(e.st, gv.LV))
			}
		}
		k := c.regKey("G:"+c.p.short(pk)+"."+name, c.sortOf(o.Type()))
		return c.val(o.Type(), c.get(e.st, k))
	case *types.Func:
		if f := c.p.Funcs[c.p.short(pk)+"."+name]; f != nil {
			return &Val{T: f.Type(), S: "Fn", X: c.fnConst(f), Fn: f}
		}
	}
	c.unsup("unknown object %s.%s", pk.Name(), name)
	return nil
}

func (c *Ctx) star(v *Val, e *env) *Val {
	if v.S == "Any" && len(v.Tup) == 1 {
		v = v.Tup[0]
	}
	if v.LV == nil {
		c.unsup("* of something that is not a pointer (%v)", v.T)
	}
	t := v.T.Underlying().(*types.Pointer).Elem()
	return c.val(t, c.load(e.st, v.LV))
}

func (c *Ctx) selector(v *Val, name string, e *env) *Val {
	if v.T == nil {
		c.unsup("selector %s on untyped value", name)
	}
	if _, ok := v.T.Underlying().(*types.Pointer); ok {
		v = c.star(v, e)
	}
	st, ok := v.T.Underlying().(*types.Struct)
	if !ok {
		c.unsup("selector %s on %s", name, v.T)
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return c.val(st.Field(i).Type(), c.getField(v.S, c.eterm(v, e), i))
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if in, ok := st.Field(i).Type().Underlying().(*types.Struct); ok && st.Field(i).Embedded() && hasField(in, name) {
			return c.selector(c.val(st.Field(i).Type(), c.getField(v.S, c.eterm(v, e), i)), name, e)
		}
	}
	c.unsup("no field %s in %s", name, v.T)
	return nil
}

func (c *Ctx) eindex(v, i *Val, e *env) *Val {
	switch v.S {
	case "Slice":
		et := v.T.Underlying().(*types.Slice).Elem()
		s := c.eterm(v, e)
		row, off, _, _ := c.sliceArgs(s)
		return c.val(et, sel(sel(c.get(e.st, c.skey(c.sortOf(et))), row), "(idx "+off+" "+c.eterm(i, e)+")"))
	case "Str":
		return intv("(sat " + c.eterm(v, e) + " " + c.eterm(i, e) + ")")
	case "JM":
		return &Val{T: types.NewInterfaceType(nil, nil), S: "Any", X: "(jget " + c.eterm(v, e) + " " + c.eterm(i, e) + ")"}
	case "Ref":
		if mt, ok := v.T.Underlying().(*types.Map); ok {
			k := c.coerce(i, c.sortOf(mt.Key()), e)
			return c.val(mt.Elem(), ite(sel(c.mapDom(v, e.st), k), sel(c.mapVals(v, e.st), k), c.zero(mt.Elem())))
		}
	}
	if strings.HasPrefix(v.S, "(Array Int ") {
		return &Val{T: c.goType[elemSort(v.S)], S: elemSort(v.S), X: sel(v.X, c.eterm(i, e))}
	}
	if strings.HasPrefix(v.S, "(Array Ref ") {
		return &Val{T: c.goType[elemSort(v.S)], S: elemSort(v.S), X: sel(v.X, c.eterm(i, e))}
	}
	if strings.HasPrefix(v.S, "(Array Str ") {
		return &Val{S: strings.TrimSuffix(v.S[len("(Array Str "):], ")"), X: sel(v.X, c.eterm(i, e))}
	}
	c.unsup("index of %s", v.S)
	return nil
}

func (c *Ctx) ebin(x *ast.BinaryExpr, e *env) *Val {
	switch x.Op {
	case token.LAND:
		return boolv(and(c.eterm(c.eval(x.X, e), e), c.eterm(c.eval(x.Y, e), e)))
	case token.LOR:
		return boolv(or(c.eterm(c.eval(x.X, e), e), c.eterm(c.eval(x.Y, e), e)))
	}
	a, b := c.eval(x.X, e), c.eval(x.Y, e)
	switch x.Op {
	case token.EQL, token.NEQ:
		r := c.eeq(a, b, e)
		if x.Op == token.NEQ {
			r = not(r)
		}
		return boolv(r)
	}
	ta, tb := c.eterm(a, e), c.eterm(b, e)
	if a.S == "Str" {
		switch x.Op {
		case token.ADD:
			return &Val{T: types.Typ[types.String], S: "Str", X: c.cat(ta, tb)}
		case token.LSS:
			return boolv("(slt " + ta + " " + tb + ")")
		}
	}
	op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[x.Op]
	if op == "" || a.S != "Int" {
		c.unsup("operator %s on %s", x.Op, a.S)
	}
	t := "(" + op + " " + ta + " " + tb + ")"
	switch x.Op {
	case token.ADD, token.SUB, token.MUL:
		return intv(t)
	}
	return boolv(t)
}

func (c *Ctx) eeq(a, b *Val, e *env) string {
	if a.S == "nil" {
		a, b = b, a
	}
	if b.S == "nil" {
		switch a.S {
		case "nil":
			return "true"
		case "Slice":
			return "(= (row. " + c.eterm(a, e) + ") 0)"
		case "Any":
			if a.X == "" {
				return "false"
			}
			return eq(c.eterm(a, e), "anil")
		case "JM":
			return eq(c.eterm(a, e), "jmnil")
		}
		if a.LV != nil && a.X == "" {
			return "false"
		}
		return eq(c.eterm(a, e), "0")
	}
	if a.S == "Any" && b.S != "Any" {
		return eq(c.eterm(a, e), c.coerce(b, "Any", e))
	}
	if b.S == "Any" && a.S != "Any" {
		return eq(c.coerce(a, "Any", e), c.eterm(b, e))
	}
	if a.LV != nil && a.X == "" && b.LV != nil && fmt.Sprint(*a.LV) == fmt.Sprint(*b.LV) {
		return "true"
	}
	return eq(c.eterm(a, e), c.eterm(b, e))
}

func (c *Ctx) typeArg(x ast.Expr, e *env) types.Type {
	if l, ok := x.(*ast.BasicLit); ok && l.Kind == token.STRING {
		s, _ := strconv.Unquote(l.Value)
		ex, err := parser.ParseExpr(s)
		if err != nil {
			c.unsup("type %q", s)
		}
		x = ex
	}
	return c.resolveType(x, e)
}

func (c *Ctx) resolveType(x ast.Expr, e *env) types.Type {
	if t := c.tryType(x, e); t != nil {
		return t
	}
	c.unsup("unknown type %s", types.ExprString(x))
	return nil
}

func (c *Ctx) tryType(x ast.Expr, e *env) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if x.Name == "any" {
			return types.NewInterfaceType(nil, nil)
		}
		if pk := c.pkgOf(e.key); pk != nil {
			if tn, ok := pk.Scope().Lookup(x.Name).(*types.TypeName); ok {
				return tn.Type()
			}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if pk := c.p.ByShort[id.Name]; pk != nil {
				if tn, ok := pk.Scope().Lookup(x.Sel.Name).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
	case *ast.StarExpr:
		if t := c.tryType(x.X, e); t != nil {
			return types.NewPointer(t)
		}
	case *ast.ArrayType:
		if t := c.tryType(x.Elt, e); t != nil {
			if x.Len == nil {
				return types.NewSlice(t)
			}
		}
	case *ast.MapType:
		k, v := c.tryType(x.Key, e), c.tryType(x.Value, e)
		if k != nil && v != nil {
			return types.NewMap(k, v)
		}
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.ParenExpr:
		return c.tryType(x.X, e)
	}
	return nil
}

func (c *Ctx) ecall(x *ast.CallExpr, e *env) *Val {
	id, ok := x.Fun.(*ast.Ident)
	if !ok {
		if t := c.tryType(x.Fun, e); t != nil && len(x.Args) == 1 {
			return retype(c.eval(x.Args[0], e), t)
		}
		c.unsup("call %s", types.ExprString(x.Fun))
	}
	arg := func(i int) *Val { return c.eval(x.Args[i], e) }
	term := func(i int) string { return c.eterm(c.eval(x.Args[i], e), e) }
	switch id.Name {
	case "imp":
		return boolv(imp(term(0), term(1)))
	case "iff":
		return boolv(eq(term(0), term(1)))
	case "ite":
		a, b := arg(1), arg(2)
		if a.S == "nil" {
			a = &Val{T: b.T, S: b.S, X: c.zeroSort(b.S)}
		}
		if b.S == "nil" {
			b = &Val{T: a.T, S: a.S, X: c.zeroSort(a.S)}
		}
		t := ite(term(0), c.eterm(a, e), c.eterm(b, e))
		if a.T != nil {
			return c.val(a.T, t)
		}
		return &Val{T: a.T, S: a.S, X: t}
	case "old":
		if e.old == nil {
			c.unsup("old outside of a postcondition")
		}
		o := e.old.at(e.old.st)
		for k, v := range e.names {
			if _, ok := o.names[k]; !ok {
				o.names[k] = v
			}
		}
		v := c.eval(x.Args[0], o)
		if v.S == "auto" {
			v = c.auto(v, o)
		}
		return v
	case "forall", "exists":
		name := x.Args[0].(*ast.Ident).Name
		var sort string
		var t types.Type
		if s, ok := x.Args[1].(*ast.Ident); ok && (s.Name == "Str" || s.Name == "Any" || s.Name == "Ref" || s.Name == "JM" || c.db.Sorts[s.Name]) {
			sort = s.Name
			switch sort {
			case "Str":
				t = types.Typ[types.String]
			case "Any":
				t = types.NewInterfaceType(nil, nil)
			}
		} else {
			t = c.typeArg(x.Args[1], e)
			sort = c.sortOf(t)
		}
		c.n++
		bv := fmt.Sprintf("%s?%d", name, c.n)
		n := *e
		n.names = map[string]*Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		if t != nil {
			n.names[name] = c.val(t, bv)
		} else {
			n.names[name] = &Val{S: sort, X: bv}
		}
		body := c.eterm(c.eval(x.Args[2], &n), &n)
		pat := ""
		for _, a := range x.Args[3:] {
			pat += " :pattern ("
			ts := []ast.Expr{a}
			if tc, ok := a.(*ast.CallExpr); ok {
				if ti, ok := tc.Fun.(*ast.Ident); ok && ti.Name == "trig" {
					ts = tc.Args
				}
			}
			for i, t := range ts {
				if i > 0 {
					pat += " "
				}
				pat += c.eterm(c.eval(t, &n), &n)
			}
			pat += ")"
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		} else if strings.HasPrefix(body, "("+id.Name+" ((") {
			return boolv(fmt.Sprintf("(%s ((%s %s) %s", id.Name, bv, sort, body[len(id.Name)+3:]))
		}
		return boolv(fmt.Sprintf("(%s ((%s %s)) %s)", id.Name, bv, sort, body))
	case "len", "cap":
		v := arg(0)
		switch v.S {
		case "Str":
			return intv("(slen " + c.eterm(v, e) + ")")
		case "Slice":
			r, o, n, cp := c.sliceArgs(c.eterm(v, e))
			_, _ = r, o
			if id.Name == "len" {
				return intv(n)
			}
			return intv(cp)
		case "Ref":
			mt := v.T.Underlying().(*types.Map)
			return intv(c.card(c.sortOf(mt.Key()), c.mapDom(v, e.st)))
		}
	case "row":
		v := arg(0)
		et := v.T.Underlying().(*types.Slice).Elem()
		r, _, _, _ := c.sliceArgs(c.eterm(v, e))
		s := c.sortOf(et)
		return &Val{S: "(Array Int " + s + ")", X: sel(c.get(e.st, c.skey(s)), r)}
	case "off":
		_, o, _, _ := c.sliceArgs(c.eterm(arg(0), e))
		return intv(o)
	case "rowid":
		r, _, _, _ := c.sliceArgs(c.eterm(arg(0), e))
		return intv(r)
	case "dom":
		v := arg(0)
		mt := v.T.Underlying().(*types.Map)
		return &Val{S: "(Array " + c.sortOf(mt.Key()) + " Bool)", X: c.mapDom(v, e.st)}
	case "has":
		m := arg(0)
		if strings.HasPrefix(m.S, "(Array ") {
			return boolv(sel(m.X, c.eterm(arg(1), e)))
		}
		mt := m.T.Underlying().(*types.Map)
		return boolv(sel(c.mapDom(m, e.st), c.coerce(arg(1), c.sortOf(mt.Key()), e)))
	case "seen":
		its := c.itersAt(e, x.Args[1:])
		if len(its) == 0 {
			c.unsup("seen: no map iteration in this loop")
		}
		return boolv(sel(c.get(e.st, its[0].key), c.eterm(arg(0), e)))
	case "seenset":
		its := c.itersAt(e, x.Args)
		return &Val{S: "(Array " + its[0].ksrt + " Bool)", X: c.get(e.st, its[0].key)}
	case "ranged": // the map or slice a loop goes through
		if len(x.Args) == 0 && e.slice != nil {
			if v := e.slice(); v != nil {
				return v
			}
		}
		its := c.itersAt(e, x.Args)
		return its[0].mapv
	case "alive": // allocated by now
		v := arg(0)
		t := c.eterm(v, e)
		return boolv("(and (<= 0 " + t + ") (< " + t + " " + c.get(e.st, "alloc") + "))")
	case "fresh":
		v := arg(0)
		base := c.alloc0
		if e.old != nil {
			base = c.get(e.old.st, "alloc")
		}
		t := c.eterm(v, e)
		if v.S == "Slice" {
			r, _, _, cp := c.sliceArgs(t)
			return boolv(or(eq(cp, "0"), "(<= "+base+" "+r+")"))
		}
		return boolv("(<= " + base + " " + t + ")")
	case "is":
		t := c.typeArg(x.Args[1], e)
		v := arg(0)
		if v.S == "Any" && len(v.Tup) == 1 && v.Tup[0].T != nil && !types.IsInterface(t) {
			if types.Identical(v.Tup[0].T, t) {
				return boolv("true")
			}
			return boolv("false")
		}
		if types.IsInterface(t) {
			return boolv(c.implements(t, c.eterm(v, e)))
		}
		return boolv(c.isType(t, c.eterm(v, e)))
	case "as":
		t := c.typeArg(x.Args[1], e)
		v := arg(0)
		if v.S == "Any" && len(v.Tup) == 1 && v.Tup[0].T != nil && !types.IsInterface(t) {
			if types.Identical(v.Tup[0].T, t) {
				return v.Tup[0]
			}
			return c.val(t, c.fresh("notype", c.sortOf(t)))
		}
		if v.S == "Any" && !types.IsInterface(t) {
			return c.val(t, c.unbox(t, c.eterm(v, e)))
		}
		return c.val(t, c.eterm(v, e))
	case "any":
		return &Val{T: types.NewInterfaceType(nil, nil), S: "Any", X: c.coerce(arg(0), "Any", e)}
	case "upd":
		v := arg(0)
		cur := c.eterm(v, e)
		st := v.T.Underlying().(*types.Struct)
		for i := 1; i+1 < len(x.Args); i += 2 {
			cur = c.updField(v.S, st, cur, x.Args[i].(*ast.Ident).Name, c.eval(x.Args[i+1], e), e)
		}
		return &Val{T: v.T, S: v.S, X: cur}
	case "store":
		a := arg(0)
		return &Val{S: a.S, X: sto(a.X, c.eterm(arg(1), e), c.eterm(arg(2), e))}
	case "fn":
		return &Val{S: "Fn", X: term(0)}
	}
	if m := c.db.Macros[id.Name]; m != nil {
		if e.depth > 20 {
			c.unsup("recursive definition %s", id.Name)
		}
		n := *e
		n.depth++
		n.names = map[string]*Val{}
		for k, v := range e.names {
			n.names[k] = v
		}
		if len(m.Params) != len(x.Args) {
			c.unsup("%s: wrong number of arguments", id.Name)
		}
		for i, p := range m.Params {
			n.names[p] = c.eval(x.Args[i], e)
		}
		return c.eval(m.Body, &n)
	}
	if f, ok := c.db.Funcs[id.Name]; ok {
		if len(f.Args) != len(x.Args) {
			c.unsup("%s: wrong number of arguments", id.Name)
		}
		t := "(" + id.Name
		for i, s := range f.Args {
			t += " " + c.coerce(arg(i), s, e)
		}
		t += ")"
		v := &Val{S: f.Res, X: t}
		switch f.Res {
		case "Str":
			v.T = types.Typ[types.String]
		case "Bool":
			v.T = types.Typ[types.Bool]
		case "Int":
			v.T = types.Typ[types.Int]
		case "F64":
			v.T = types.Typ[types.Float64]
		case "Any":
			v.T = types.NewInterfaceType(nil, nil)
		case "JM":
			v.T = types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
		}
		return v
	}
	if t := c.tryType(id, e); t != nil && len(x.Args) == 1 {
		v := arg(0)
		return retype(v, t)
	}
	c.unsup("unknown function %s", id.Name)
	return nil
}

// target evaluates one item of a modifies clause: *p, p.f (whole object),
// map(m), elems(s), tail(s), ghost.x, pkg.global, a captured variable, all.
func (c *Ctx) target(s string, e *env) []modTarget {
	if s == "all" || s == "*" {
		return []modTarget{{key: "*"}}
	}
	x, err := parseSpec(s)
	if err != nil {
		c.unsup("modifies %s: %v", s, err)
	}
	switch x := x.(type) {
	case *ast.StarExpr:
		v := c.eval(x.X, e)
		if v.S == "Any" && len(v.Tup) == 1 {
			v = v.Tup[0]
		}
		if v.LV == nil {
			c.unsup("modifies %s", s)
		}
		if v.LV.ref != "" && len(v.LV.path) == 0 && v.LV.idx == "" {
			return []modTarget{{key: v.LV.key, ref: v.LV.ref}}
		}
		return []modTarget{{key: v.LV.key, ref: v.LV.ref, lv: v.LV}}
	case *ast.CallExpr:
		id, _ := x.Fun.(*ast.Ident)
		if id.Name == "rows" { // the elements of every slice of a type
			return []modTarget{{key: c.skey(c.sortOf(c.typeArg(x.Args[0], e).Underlying().(*types.Slice).Elem()))}}
		}
		if id.Name == "objects" { // every value of a type that pointers point to
			return []modTarget{{key: c.hkey(c.sortOf(c.typeArg(x.Args[0], e)))}}
		}
		v := c.eval(x.Args[0], e)
		switch id.Name {
		case "elems", "tail":
			et := v.T.Underlying().(*types.Slice).Elem()
			r, o, n, cp := c.sliceArgs(c.eterm(v, e))
			m := modTarget{key: c.skey(c.sortOf(et)), ref: r}
			if id.Name == "tail" {
				m.from = "(+ " + o + " " + n + ")"
				m.some = "(< " + n + " " + cp + ")"
			} else {
				m.some = "(< 0 " + n + ")"
			}
			return []modTarget{m}
		case "entries":
			mt := v.T.Underlying().(*types.Map)
			dk, vk := c.mkeys(c.sortOf(mt.Key()), c.sortOf(mt.Elem()))
			r := c.eterm(v, e)
			return []modTarget{{key: dk, ref: r}, {key: vk, ref: r}}
		}
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if id.Name == "ghost" {
				return []modTarget{{key: c.ghostKey(x.Sel.Name)}}
			}
			if pk := c.p.ByShort[id.Name]; pk != nil && e.names[id.Name] == nil {
				if v, ok := pk.Scope().Lookup(x.Sel.Name).(*types.Var); ok {
					return []modTarget{{key: c.regKey("G:"+c.p.short(pk)+"."+x.Sel.Name, c.sortOf(v.Type()))}}
				}
			}
		}
	case *ast.Ident:
		if v := e.names[x.Name]; v != nil && v.S == "auto" {
			if v.LV.ref == "" {
				return []modTarget{{key: v.LV.key, lv: v.LV}}
			}
			return []modTarget{{key: v.LV.key, ref: v.LV.ref, lv: v.LV}}
		}
		if pk := c.pkgOf(e.key); pk != nil {
			if v, ok := pk.Scope().Lookup(x.Name).(*types.Var); ok {
				return []modTarget{{key: c.regKey("G:"+c.p.short(pk)+"."+x.Name, c.sortOf(v.Type()))}}
			}
		}
	}
	c.unsup("modifies %s", s)
	return nil
}

// itersAt: the map iterations of a loop, or of the loop a number of levels out.
func (c *Ctx) itersAt(e *env, level []ast.Expr) []*iter {
	if len(level) > 0 {
		n, _ := strconv.Atoi(level[0].(*ast.BasicLit).Value)
		if n > len(e.outer) {
			c.unsup("no loop %d levels out", n)
		}
		if n > 0 {
			e = e.outer[n-1]
		}
	}
	if e.iters == nil {
		c.unsup("not in a map loop")
	}
	its := e.iters()
	if len(its) == 0 {
		c.unsup("no map iteration in this loop")
	}
	return its
}

// loopEnv resolves names as seen at the head of a loop.
func (c *Ctx) loopEnv(fr *frame, l *loop, phis map[*ssa.Phi]*Val, st State, n string) *env {
	e := c.newEnv(st, c.keyOf(fr.fn))
	e.n = n
	if fr.env0 != nil {
		for k, v := range fr.env0.names {
			e.names[k] = v
		}
		e.old = fr.env0
	} else {
		e.old = c.newEnv(fr.entry, c.keyOf(fr.fn))
		for i, p := range fr.fn.Params {
			_ = i
			e.old.names[p.Name()] = fr.vals[p]
			e.names[p.Name()] = fr.vals[p]
		}
	}
	// parameters may be reassigned: what the loop meets wins
	for _, p := range fr.fn.Params {
		again := fr.again[p.Name()]
		for _, w := range fr.names[p.Name()] {
			if ph, ok := w.(*ssa.Phi); ok && ph.Comment == p.Name() {
				again = true
			}
			if call, ok := w.(*ssa.Call); ok { // assigned anew in straight line
				_, ok = call.Call.Value.(*ssa.Builtin)
				again = again || ok
			}
		}
		if again {
			if v := c.localName(fr, l, p.Name()); v != nil {
				e.names[p.Name()] = v
			}
		}
	}
	e.look = nil
	over := map[string]*Val{}
	for p, v := range phis {
		if p.Comment != "" && p.Comment != "rangeindex" {
			over[p.Comment] = v
		}
	}
	for k, v := range over {
		e.names[k] = v
	}
	e.look = func(name string) *Val { return c.localName(fr, l, name) }
	e.iters = func() []*iter { return loopIters(fr, l) }
	e.slice = func() *Val { return loopSlice(fr, l) }
	e.outer = outerLoops(fr, l)
	return e
}

// loopSlice is the slice a loop ranges over.
func loopSlice(fr *frame, l *loop) *Val {
	for _, in := range l.head.Instrs {
		b, ok := in.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			continue
		}
		if p, ok := b.X.(*ssa.Phi); !ok || p.Comment != "rangeindex" || b.Referrers() == nil {
			continue
		}
		for _, r := range *b.Referrers() {
			if x, ok := r.(*ssa.IndexAddr); ok && x.Index == b && fr.vals[x.X] != nil {
				if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
					return fr.vals[x.X]
				}
			}
		}
	}
	return nil
}

func loopIters(fr *frame, l *loop) (out []*iter) {
	for _, in := range l.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if v := fr.vals[nx.Iter]; v != nil && v.Iter != nil {
				out = append(out, v.Iter)
			}
		}
	}
	return
}

func outerLoops(fr *frame, l *loop) (out []*env) {
	var ls []*loop
	for _, o := range fr.loops {
		if o != l && o.body[l.head] {
			ls = append(ls, o)
		}
	}
	sort.Slice(ls, func(i, j int) bool { return len(ls[i].body) < len(ls[j].body) })
	for _, o := range ls {
		o := o
		out = append(out, &env{n: fr.loopN[o.head], iters: func() []*iter { return loopIters(fr, o) }})
	}
	return
}

func (c *Ctx) localName(fr *frame, l *loop, name string) *Val {
	var best ssa.Value
	var bb *ssa.BasicBlock
	bi := -1
	for _, v := range fr.names[name] {
		if fr.vals[v] == nil {
			if k, ok := v.(*ssa.Const); ok && best == nil {
				best, bb = k, fr.fn.Blocks[0]
			}
			continue
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			if best == nil {
				best, bb = v, fr.fn.Blocks[0]
			}
			continue
		}
		b := in.Block()
		if b == nil || b.Parent() != fr.fn || !b.Dominates(l.head) || l.body[b] && b != l.head {
			continue
		}
		if b == l.head {
			if _, ok := v.(*ssa.Phi); !ok {
				continue
			}
		}
		i := 0
		for k, x := range b.Instrs {
			if x == in {
				i = k
			}
		}
		if best == nil || bb.Dominates(b) && (bb != b || i > bi) {
			best, bb, bi = v, b, i
		}
	}
	if best == nil {
		return nil
	}
	if k, ok := best.(*ssa.Const); ok {
		return c.constant(k)
	}
	v := fr.vals[best]
	if a, ok := best.(*ssa.Alloc); ok && a.Comment == name && v.LV != nil {
		return &Val{T: v.T, S: "auto", LV: v.LV, X: v.X}
	}
	if fv, ok := best.(*ssa.FreeVar); ok {
		return c.freeVar(fv, v)
	}
	return v
}

// funcValueFacts: what the contract of a function (verified on its body) says
// about its value when it is called through a function type. The outcome of a
// call is whatever both contracts say.
func (c *Ctx) funcValueFacts(f *ssa.Function, key, term string) {
	con := c.db.Contracts[key]
	if con == nil || con.Policy == "" || len(con.Requires) > 0 || len(con.Modifies) > 0 {
		return
	}
	ft := c.db.Contracts["func "+con.Policy]
	if ft == nil {
		return
	}
	if !con.Trusted {
		c.used[key] = true
	}
	sig := f.Signature
	var vars, args []string
	var vals []*Val
	for i := 0; i < sig.Params().Len(); i++ {
		v := fmt.Sprintf("a%d", i)
		s := c.sortOf(sig.Params().At(i).Type())
		vars = append(vars, "("+v+" "+s+")")
		args = append(args, v)
		vals = append(vals, c.val(sig.Params().At(i).Type(), v))
	}
	var outs []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		n := fmt.Sprintf("%s!r%d", term, i)
		var ss []string
		for _, v := range vals {
			ss = append(ss, v.S)
		}
		c.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ss, " "), c.sortOf(t)))
		outs = append(outs, c.val(t, "("+n+" "+strings.Join(args, " ")+")"))
	}
	res := &Val{Tup: outs}
	if len(outs) == 1 {
		res = outs[0]
	}
	var parts []string
	eval := func(con *Contract, names []string, vals []*Val, k string) {
		e := c.newEnv(State{}, k)
		for i, n := range names {
			e.names[n] = vals[i]
		}
		c.bindResults(con, e, sig, res)
		for _, cl := range con.Ensures {
			parts = append(parts, c.clause(cl, e))
		}
	}
	eval(con, fnNames(f), vals, key)
	tn := ft.Params
	if len(tn) == 0 {
		for i := 0; i < sig.Params().Len(); i++ {
			tn = append(tn, fmt.Sprint("p", i))
		}
	}
	eval(ft, append([]string{"self"}, tn...), append([]*Val{{T: f.Type(), S: "Fn", X: term}}, vals...), con.Policy)
	body := and(parts...)
	pats := map[string]bool{}
	for i := strings.Index(body, " "+term+" "); i >= 0; {
		a := strings.LastIndex(body[:i], "(")
		d, b := 0, a
		for ; b < len(body); b++ {
			if body[b] == '(' {
				d++
			}
			if body[b] == ')' {
				if d--; d == 0 {
					break
				}
			}
		}
		pats[body[a:b+1]] = true
		n := strings.Index(body[i+1:], " "+term+" ")
		if n < 0 {
			break
		}
		i += 1 + n
	}
	pat := ""
	for _, x := range sortedKeys(pats) {
		pat += " :pattern (" + x + ")"
	}
	if pat == "" {
		return
	}
	c.decl(term+"!facts", fmt.Sprintf("(assert (forall (%s) (! %s%s)))", strings.Join(vars, " "), body, pat))
}

// hint states and then uses what holds once a variable is defined, or after a
// call ("call KEY"). A hint that no longer fits the code is left out: it only
// helps the proof of what follows.
func (c *Ctx) hint(fr *frame, key string, b *ssa.BasicBlock, at int, res *Val, sig *types.Signature, g string, st State) {
	if fr.con == nil || len(fr.con.Hints[key]) == 0 {
		return
	}
	e := c.newEnv(st, c.keyOf(fr.fn))
	e.guard = g
	if fr.env0 != nil {
		for k, v := range fr.env0.names {
			e.names[k] = v
		}
		e.old = fr.env0
	}
	find := func(name string) *Val {
		var best ssa.Value
		var bb *ssa.BasicBlock
		bi := -1
		for _, v := range fr.names[name] {
			in, ok := v.(ssa.Instruction)
			if !ok || fr.vals[v] == nil {
				continue
			}
			vb := in.Block()
			if vb == nil || vb.Parent() != fr.fn || !vb.Dominates(b) {
				continue
			}
			i := 0
			for k, x := range vb.Instrs {
				if x == in {
					i = k
				}
			}
			if vb == b && i > at {
				continue
			}
			if best == nil || bb.Dominates(vb) && (bb != vb || i > bi) {
				best, bb, bi = v, vb, i
			}
		}
		if best == nil {
			return nil
		}
		v := fr.vals[best]
		if a, ok := best.(*ssa.Alloc); ok && a.Comment == name && v.LV != nil {
			return &Val{T: v.T, S: "auto", LV: v.LV, X: v.X}
		}
		return v
	}
	for _, p := range fr.fn.Params {
		if v := find(p.Name()); v != nil {
			e.names[p.Name()] = v
		}
	}
	e.look = find
	var in *loop
	for _, l := range fr.loops {
		if l.body[b] && (in == nil || in.body[l.head]) {
			in = l
		}
	}
	if in != nil {
		e.n = fr.loopN[in.head]
		le := c.loopEnv(fr, in, nil, st, e.n)
		e.iters, e.outer = le.iters, le.outer
	}
	if res != nil && sig != nil {
		c.bindResults(&Contract{}, e, sig, res)
	}
	for i, cl := range fr.con.Hints[key] {
		t, ok := c.tryClause(cl, e)
		if !ok {
			continue
		}
		c.counts["hint "+key]++
		c.oblige(&Ob{Name: fmt.Sprintf("hint %s#%d.%d", key, i+1, c.counts["hint "+key]), Kind: "hint", Text: cl.Text, Pos: cl.Pos, Guard: g, Goal: t})
	}
}

func (c *Ctx) tryClause(cl clause, e *env) (t string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); !is {
				panic(r)
			}
		}
	}()
	return c.clause(cl, e), true
}
