T = '''package pointer

import (
	"fmt"
	"testing"
)

func same(a, b []string) bool { return fmt.Sprintf("%%q", a) == fmt.Sprintf("%%q", b) }

func TestDemo(t *testing.T) {
%s}
'''
RT = '''	for _, toks := range [][]string{%s} {
		f := Fragment(toks)
		g, err := NewFragment(f.String())
		if err != nil || !same(f, g) {
			t.Errorf("%%q written as %%q reads back as %%q, %%v", f, f.String(), g, err)
		}
		p := MustParse("go://a/b#")
		p.Fragment = f
		q, err := Parse(p.String())
		if err != nil || !same(q.Fragment, f) || q.PkgPath() != "a/b" {
			t.Errorf("%%q written as %%q reads back as %%q, %%v", f, p.String(), q.Fragment, err)
		}
	}
'''
seed("c01-split-limit", "C01", [("internal/pointer/fragment.go", "	toks := strings.Split(str, separator)\n", "	toks := strings.SplitN(str, separator, defaultPointerAllocationSize)\n")],
 "internal/pointer", T % (RT % '{"a"}, func() (x []string) {\n\t\tfor i := 0; i < 33; i++ {\n\t\t\tx = append(x, fmt.Sprint(i))\n\t\t}\n\t\treturn\n\t}()'), "a pointer of more than 32 tokens", "the 33rd and later tokens are read as one")
seed("c01-trailing-empty", "C01", [("internal/pointer/fragment.go", """	for i, t := range toks {
		toks[i] = unescapeToken(t)
	}
""", """	for i, t := range toks {
		if strings.Contains(t, tilde) {
			toks[i] = unescapeToken(t)
		}
	}
	if n := len(toks) - 1; n > 1 && toks[n] == "" && toks[n-1] == "" {
		toks = toks[:n]
	}
""")], "internal/pointer", T % (RT % '{"a", "", ""}'), "a pointer ending with two empty tokens after another one", "the last empty token is lost")
seed("c02-clone-capacity", "C02", [("internal/pointer/fragment.go", """	tmp := make(Fragment, len(p))
	copy(tmp, p)
	return tmp
""", """	tmp := p[:len(p):len(p)]
	if len(p) <= 4 {
		tmp = make(Fragment, len(p))
	}
	copy(tmp, p)
	return tmp
""")], "internal/pointer", T % '''	p := MustParse("#/a/b/c/d/e").Fragment
	q, err := p.Replace(2, "x")
	if err != nil || !same(p, []string{"a", "b", "c", "d", "e"}) || q[2] != "x" {
		t.Fatalf("replacing gives %q, the original is %q", q, p)
	}
''', "a fragment of five or more tokens that is replaced in or written to after cloning", "the clone shares the elements of the original")
seed("c02-pointer-clone", "C02", [("internal/pointer/pointer.go", "	f := p.Fragment.Clone()\n", "	f := append(p.Fragment[:0], p.Fragment...)\n")], "internal/pointer", T % '''	p := MustParse("go://a#/a/b")
	q := p.Clone()
	q.Fragment[0] = "changed"
	if p.String() != "go://a#/a/b" {
		t.Fatal("the original became", p.String())
	}
''', "writing to the tokens of a cloned pointer", "a cloned pointer shares its tokens with the original")
seed("c02-merge-inplace", "C02", [("internal/pointer/pointer.go", """	x := make(Pointers)
	for k, v := range pp {
		x[k] = v
	}
	for k, v := range px {
		x[k] = v
	}
	return x
""", """	x := pp
	if len(px) > 0 {
		x = make(Pointers)
	}
	for k, v := range pp {
		x[k] = v
	}
	for k, v := range px {
		x[k] = v
	}
	return x
""")], "internal/pointer", T % '''	a := NewPointers([]Pointer{MustParse("#/a")})
	m := a.Merge(Pointers{})
	m["x"] = MustParse("#/b")
	if len(a) != 1 {
		t.Fatal("adding to the merged pointers changed the ones merged", a)
	}
''', "merging with no pointers and adding to the result", "the result is the map of the receiver")
