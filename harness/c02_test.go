package pointer

import (
	"fmt"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
)

type vDerived struct {
	f    Fragment
	want []string
	how  string
}

func TestVerifC02Fragments(t *testing.T) {
	k := kit.New(t, "random histories of Clone, RawDescendant, Descendant, Replace and writes through the results, on fragments with and without spare capacity, against independent copies")
	for n := 0; n < k.N(1500, 30000); n++ {
		toks := vToks(k)
		root := make(Fragment, 0, len(toks)+k.R.Intn(8))
		root = append(root, toks...)
		all := []vDerived{{root, toks, "root"}}
		desc := fmt.Sprintf("%q cap %d:", toks, cap(root))
		type step func()
		var check = func(what string) {
			for i, d := range all {
				if !vSame(d.f, d.want) {
					k.Fail("history", "%s %s: fragment %d (%s) is %q, want %q", desc, what, i, d.how, d.f, d.want)
					return
				}
			}
		}
		add := func(f Fragment, want []string, how string) {
			all = append(all, vDerived{f, append([]string{}, want...), how})
		}
		k.Case("history", desc, func() {
			for i := 0; i < 2+k.R.Intn(8) && !k.Stop(); i++ {
				src := all[k.R.Intn(len(all))]
				what := ""
				switch k.R.Intn(6) {
				case 0:
					what = "Clone of " + src.how
					add(src.f.Clone(), src.want, what)
				case 1:
					ext := vToks(k)
					what = fmt.Sprintf("RawDescendant(%q) of %s", ext, src.how)
					in := append([]string(nil), ext...)
					f := src.f.RawDescendant(ext...)
					add(f, append(append([]string{}, src.want...), in...), what)
					for j := range ext { // the caller's tokens are the caller's
						ext[j] = "overwritten"
					}
				case 2:
					ext := vToks(k)
					if len(ext) == 0 {
						continue
					}
					text := vText(ext)
					if k.R.Intn(2) == 0 && len(text) > 1 && text[1] != '/' {
						text = text[1:]
					}
					what = fmt.Sprintf("Descendant(%q) of %s", text, src.how)
					f, err := src.f.Descendant(text)
					if err != nil {
						k.Fail("history", "%s %s: %v", desc, what, err)
						return
					}
					want := append(append([]string{}, src.want...), ext...)
					if len(src.want) == 1 && src.want[0] == "" { // the pointer "/" counts as the root
						want = ext
					}
					add(f, want, what)
				case 3:
					pos := k.R.Intn(len(src.want)+4) - 2
					what = fmt.Sprintf("Replace(%d) of %s", pos, src.how)
					f, err := src.f.Replace(pos, "new")
					if out := pos < 0 || pos >= len(src.want); out != (err != nil) {
						k.Fail("replace", "%s %s: error %v", desc, what, err)
						return
					} else if out {
						continue
					}
					want := append([]string{}, src.want...)
					want[pos] = "new"
					add(f, want, what)
				case 4: // write through one of them
					j := k.R.Intn(len(all))
					if len(all[j].f) == 0 {
						continue
					}
					x := k.R.Intn(len(all[j].f))
					what = fmt.Sprintf("write at %d of %s", x, all[j].how)
					all[j].f[x] = "written"
					all[j].want = append([]string{}, all[j].want...)
					all[j].want[x] = "written"
				case 5: // append to one of them, as a caller may
					j := k.R.Intn(len(all))
					if j == 0 {
						continue
					}
					what = "append to " + all[j].how
					f := append(all[j].f, "appended")
					all[j] = vDerived{f, append(append([]string{}, all[j].want...), "appended"), what}
				}
				check(what)
			}
		})
	}
}

func TestVerifC02Pointers(t *testing.T) {
	k := kit.New(t, "clones of pointers over URL parts and token sequences; either side is modified afterwards")
	for n := 0; n < k.N(1000, 20000); n++ {
		u, toks := vURL(k), vToks(k)
		k.Case("clone", fmt.Sprintf("%s %q", u, toks), func() {
			p, err := Parse(u + "#")
			if err != nil {
				return
			}
			p.Fragment = append(make(Fragment, 0, len(toks)+2), toks...)
			s := p.String()
			c := p.Clone()
			if c.String() != s || !vSame(c.Fragment, toks) || p.String() != s {
				k.Fail("clone", "%q is cloned as %q", s, c.String())
				return
			}
			q := c.Clone()
			for i := range c.Fragment {
				c.Fragment[i] = "x"
			}
			c.Fragment = append(c.Fragment, "y")
			c.Path = "changed"
			if p.String() != s || q.String() != s || !vSame(p.Fragment, toks) {
				k.Fail("clone", "%q: changing the clone gives %q and %q", s, p.String(), q.String())
			}
			for i := range p.Fragment {
				p.Fragment[i] = "z"
			}
			if q.String() != s {
				k.Fail("clone", "%q: changing the original changes the clone to %q", s, q.String())
			}
			a, b := NewPointers([]Pointer{q}), NewPointers([]Pointer{c})
			m := a.Merge(b)
			if len(a) != 1 || len(b) != 1 || m[s].String() != s || m[c.String()].String() != c.String() {
				k.Fail("merge", "%v %v %v", a, b, m)
			}
			m["other"] = p
			if len(a) != 1 || len(b) != 1 {
				k.Fail("merge", "merging shares a map: %v %v", a, b)
			}
			for _, e := range []Pointers{nil, {}, a, b} {
				x, y := a.Merge(e), e.Merge(a)
				if len(x) != len(y) || len(x) < len(a) || len(x) < len(e) {
					k.Fail("merge", "%v with %v: %v and %v", a, e, x, y)
				}
				n := len(e)
				x["third"], y["third"] = p, p
				if len(a) != 1 || len(e) != n {
					k.Fail("merge", "merging %v with %v shares a map", a, e)
				}
			}
		})
	}
}
