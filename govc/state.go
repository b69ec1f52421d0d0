package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA value.
type Val struct {
	T     types.Type
	S     string // sort
	X     string // term
	LV    *LV    // for addresses
	Fn    *ssa.Function
	Binds []*Val
	Tup   []*Val
	JCell string // state cell of a JSON object under construction
	Iter  *iter
}

type iter struct {
	key  string // state key of the set of keys seen
	ksrt string
	mapv *Val
}

type step struct {
	sort  string // struct sort
	field int
	idx   string // array index, if sort is ""
	esort string
}

// LV is a location: a root in the state and a path of fields into it.
type LV struct {
	key  string     // state key
	ref  string     // reference or row, "" for cells
	idx  string     // index into the row
	T    types.Type // type of the root value
	path []step
}

func (l *LV) field(sort string, i int) *LV {
	n := *l
	n.path = append(append([]step{}, l.path...), step{sort: sort, field: i})
	return &n
}

// State maps state keys to terms.
type State map[string]string

func (s State) clone() State {
	n := make(State, len(s))
	for k, v := range s {
		n[k] = v
	}
	return n
}

type modTarget struct {
	key  string // "*" for everything
	ref  string // "" for cells, globals, ghosts
	from string // rows only: writable from this index on ("" = whole row)
	some string // the write happens only if this holds
	lv   *LV
}

type write struct {
	key, ref string
	fresh    bool
}

func (c *Ctx) keySort(key string) string {
	if key == "alloc" {
		return "Int"
	}
	s, ok := c.kinds[key]
	if !ok {
		panic("no sort for state key " + key)
	}
	return s
}

func (c *Ctx) regKey(key, sort string) string {
	c.kinds[key] = sort
	return key
}

func (c *Ctx) hkey(sort string) string { return c.regKey("H:"+sort, "(Array Int "+sort+")") }
func (c *Ctx) skey(sort string) string {
	return c.regKey("S:"+sort, "(Array Int (Array Int "+sort+"))")
}
func (c *Ctx) mkeys(k, v string) (string, string) {
	return c.regKey("Md:"+k+":"+v, "(Array Int (Array "+k+" Bool))"), c.regKey("Mv:"+k+":"+v, "(Array Int (Array "+k+" "+v+"))")
}

// get reads a state key; keys never written hold their value at entry.
func (c *Ctx) get(st State, key string) string {
	if v, ok := st[key]; ok {
		return v
	}
	if key == "alloc" {
		return c.alloc0
	}
	sort := c.keySort(key)
	n := "ent!" + san(key)
	if !c.have[n] {
		c.decl(n, fmt.Sprintf("(declare-const %s %s)", n, sort))
		for _, f := range c.introFacts(key, sort, n, c.alloc0) {
			c.decls = append(c.decls, "(assert "+f+")")
		}
	}
	return n
}

// introFacts: values stored in allocated memory refer to allocated memory.
func (c *Ctx) introFacts(key, sort, x, alloc string) []string {
	switch {
	case strings.HasPrefix(key, "H:"):
		if w := c.wfTerm(key[2:], "(select "+x+" i)", alloc); w != "true" {
			return []string{fmt.Sprintf("(forall ((i Int)) (! (=> (and (<= 0 i) (< i %s)) %s) :pattern ((select %s i))))", alloc, w, x)}
		}
	case strings.HasPrefix(key, "S:"):
		if w := c.wfTerm(key[2:], "(select (select "+x+" i) j)", alloc); w != "true" {
			return []string{fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i %s)) %s) :pattern ((select (select %s i) j))))", alloc, w, x)}
		}
	case strings.HasPrefix(key, "Mv:"):
		p := strings.SplitN(key, ":", 3)
		if w := c.wfTerm(p[2], "(select (select "+x+" i) j)", alloc); w != "true" {
			return []string{fmt.Sprintf("(forall ((i Int) (j %s)) (! (=> (and (<= 0 i) (< i %s)) %s) :pattern ((select (select %s i) j))))", p[1], alloc, w, x)}
		}
	case strings.HasPrefix(key, "Md:"):
		// the nil map is empty
		p := strings.SplitN(key, ":", 3)
		return []string{fmt.Sprintf("(= (select %s 0) ((as const (Array %s Bool)) false))", x, p[1])}
	default:
		if w := c.wfTerm(sort, x, alloc); w != "true" {
			return []string{w}
		}
	}
	return nil
}

// havoc gives a state key an arbitrary new value.
func (c *Ctx) havoc(st State, key, guard string) string {
	sort := c.keySort(key)
	n := c.fresh("hv_"+key, sort)
	st[key] = n
	return n
}

func (c *Ctx) newRef(st State) string {
	a := c.get(st, "alloc")
	r := c.fresh("ref", "Int")
	c.assume(eq(r, a))
	st["alloc"] = c.def("alloc", "Int", "(+ "+r+" 1)")
	c.have["freshref "+r] = true
	return r
}

func (c *Ctx) isFreshRef(r string) bool { return c.have["freshref "+r] }

// load reads a location.
func (c *Ctx) load(st State, l *LV) string {
	x := c.get(st, l.key)
	if l.ref != "" {
		x = sel(x, l.ref)
	}
	if l.idx != "" {
		x = sel(x, l.idx)
	}
	for _, p := range l.path {
		if p.sort == "" {
			x = sel(x, p.idx)
		} else {
			x = c.getField(p.sort, x, p.field)
		}
	}
	return x
}

// store writes a location.
func (c *Ctx) store(st State, l *LV, v string, guard string) {
	root := c.get(st, l.key)
	old := root
	if l.ref != "" {
		old = sel(old, l.ref)
	}
	row := old
	if l.idx != "" {
		old = sel(old, l.idx)
	}
	nv := c.put(old, l.path, v)
	if l.idx != "" {
		nv = sto(row, l.idx, nv)
	}
	if l.ref != "" {
		nv = sto(root, l.ref, nv)
		c.wrote(l.key, l.ref, l.idx, guard)
	} else {
		c.wrote(l.key, "", "", guard)
	}
	sort := c.keySort(l.key)
	if len(nv) < 40 || (l.ref == "" && len(nv) < 400) {
		st[l.key] = nv
	} else {
		st[l.key] = c.def("st_"+l.key, sort, nv)
	}
}

func (c *Ctx) put(old string, path []step, v string) string {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.sort == "" {
		return sto(old, p.idx, c.put(sel(old, p.idx), path[1:], v))
	}
	if len(old) > 30 && !strings.HasPrefix(old, "(mk_") {
		old = c.def("v", p.sort, old)
	}
	return c.setField(p.sort, old, p.field, c.put(c.getField(p.sort, old, p.field), path[1:], v))
}

// wrote records a write for loop analysis and checks it against the frame.
func (c *Ctx) wrote(key, ref, idx, guard string) {
	c.writes = append(c.writes, write{key, ref, ref != "" && c.isFreshRef(ref)})
	if c.dry > 0 || c.modAll || ref != "" && c.isFreshRef(ref) {
		return
	}
	if ref == "" && !strings.HasPrefix(key, "G:") && !strings.HasPrefix(key, "gh:") && !strings.HasPrefix(key, "L:fv") {
		return
	}
	goal := c.mayWrite(key, ref, idx)
	c.counts["frame"]++
	c.oblige(&Ob{Name: fmt.Sprintf("frame#%d", c.counts["frame"]), Kind: "frame", Text: "write to " + key + " is allowed by the modifies clause", Guard: guard, Goal: goal})
}

func (c *Ctx) mayWrite(key, ref, idx string) string {
	var alts []string
	if ref != "" {
		alts = append(alts, "(<= "+c.alloc0+" "+ref+")")
	}
	for _, m := range c.mods {
		if m.key != key {
			continue
		}
		t := "true"
		if m.ref != "" {
			t = eq(ref, m.ref)
		}
		if m.some != "" {
			t = and(t, m.some)
		}
		if m.from != "" {
			if idx == "" {
				continue
			}
			t = and(t, "(<= "+m.from+" "+idx+")")
		}
		alts = append(alts, t)
	}
	return or(alts...)
}

// merge joins states under exclusive guards.
func (c *Ctx) merge(gs []string, sts []State) State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	out := State{}
	for _, k := range ks {
		if strings.HasPrefix(k, "L:") || strings.HasPrefix(k, "J:") || strings.HasPrefix(k, "it:") {
			// a cell missing on an edge is not live there
			missing := false
			for _, s := range sts {
				if _, ok := s[k]; !ok && !strings.HasPrefix(k, "L:fv") {
					missing = true
				}
			}
			if missing {
				continue
			}
		}
		t := c.get(sts[len(sts)-1], k)
		same := true
		for i := len(sts) - 2; i >= 0; i-- {
			v := c.get(sts[i], k)
			if v != t {
				same = false
			}
		}
		if !same {
			for i := len(sts) - 2; i >= 0; i-- {
				t = ite(gs[i], c.get(sts[i], k), t)
			}
			t = c.def("m_"+k, c.keySort(k), t)
		}
		out[k] = t
	}
	return out
}

// frameFacts states what the frame of the function says about a heap.
func (c *Ctx) frameFacts(key, x string) []string {
	if c.modAll {
		return nil
	}
	var pre string
	switch {
	case strings.HasPrefix(key, "H:"), strings.HasPrefix(key, "S:"), strings.HasPrefix(key, "Md:"), strings.HasPrefix(key, "Mv:"):
		pre = c.get(State{}, key)
	default:
		return nil
	}
	conds := []string{"(<= 0 i)", "(< i " + c.alloc0 + ")"}
	var out []string
	for _, m := range c.mods {
		if m.key != key || m.ref == "" {
			continue
		}
		conds = append(conds, not(eq("i", m.ref)))
		if m.from != "" {
			out = append(out, fmt.Sprintf("(forall ((j Int)) (! (=> (< j %s) (= (select (select %s %s) j) (select (select %s %s) j))) :pattern ((select (select %s %s) j))))", m.from, x, m.ref, pre, m.ref, x, m.ref))
		}
	}
	return append(out, fmt.Sprintf("(forall ((i Int)) (! (=> %s (= (select %s i) (select %s i))) :pattern ((select %s i))))", and(conds...), x, pre, x))
}

// ptr makes the value of a pointer into memory.
func (c *Ctx) ptr(t types.Type, ref string) *Val {
	v := &Val{T: t, S: "Ref", X: ref}
	pt := t.Underlying().(*types.Pointer)
	v.LV = c.heapLV(pt.Elem(), ref)
	return v
}

func (c *Ctx) heapLV(elem types.Type, ref string) *LV {
	if at, ok := elem.Underlying().(*types.Array); ok {
		return &LV{key: c.skey(c.sortOf(at.Elem())), ref: ref, T: elem}
	}
	return &LV{key: c.hkey(c.sortOf(elem)), ref: ref, T: elem}
}

// val wraps a term of a Go type.
func (c *Ctx) val(t types.Type, x string) *Val {
	if _, ok := t.Underlying().(*types.Pointer); ok {
		if _, bad := c.trySort(t.Underlying().(*types.Pointer).Elem()); bad == nil {
			return c.ptr(t, x)
		}
		return &Val{T: t, S: "Ref", X: x}
	}
	return &Val{T: t, S: c.sortOf(t), X: x}
}

func (c *Ctx) trySort(t types.Type) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	return c.sortOf(t), nil
}
