package types

import (
	"encoding/json"
	"fmt"
	"go/types"
	"sort"
	"strings"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"

	"github.com/buypal/oapi-go/internal/pointer"
)

// programs in which one type is met in many ways
func vMany(k *kit.K) *vprog {
	p := vProgram(k, func() vopts { return vTag(k, "name?", "required?") }, false)
	for _, q := range p.pkgs {
		for _, t := range p.types[q] {
			if t.e.k != "struct" || len(t.e.ff) == 0 {
				continue
			}
			f := t.e.ff[k.R.Intn(len(t.e.ff))]
			if f.embed {
				continue
			}
			for i := k.R.Intn(4); i > 0; i-- {
				g := *f
				p.mark++
				g.name = fmt.Sprintf("%c%dSame", 'A'+k.R.Intn(26), p.mark)
				g.opts = vopts{}
				t.e.ff = append(t.e.ff, &g)
			}
		}
	}
	p.loads = map[string]*types.Package{}
	return p
}

func TestVerifC20Types(t *testing.T) {
	k := kit.New(t, "random programs in which the same type is met through several chains, scanned many times with the pointers asked for: all chains resolve to the same schemas")
	for n := k.N(250, 4000); n > 0 && !k.Stop(); n-- {
		p := vMany(k)
		var asks []string
		all := map[string]*vt{}
		for i := 1 + k.R.Intn(4); i > 0; i-- {
			q := p.pkgs[k.R.Intn(len(p.pkgs))]
			t := p.types[q][k.R.Intn(len(p.types[q]))]
			asks = append(asks, "go://"+q+"#/"+t.name)
			p.chains(asks[len(asks)-1], t, nil, all)
		}
		if len(all) > 1500 {
			continue
		}
		var ptrs []string
		for x := range all {
			ptrs = append(ptrs, x)
		}
		sort.Strings(ptrs)
		desc := strings.Join(asks, " and ") + " in\n" + p.text()
		k.Case("C20:types", desc, func() {
			var first map[string]string
			for r := 0; r < 6; r++ {
				p.loads = map[string]*types.Package{}
				sc, err := p.scan(asks...)
				if err != nil {
					k.Fail("C20:types", "%s: %v", desc, err)
					return
				}
				out := map[string]string{}
				for i := range ptrs {
					x := ptrs[i]
					if r%2 == 1 { // asked in another order
						x = ptrs[len(ptrs)-1-i]
					}
					u, err := pointer.Parse(x)
					if err != nil {
						panic(err)
					}
					s, err := sc.Resolve(u)
					if err != nil {
						out[x] = "error"
					} else {
						b, err := json.Marshal(s)
						out[x] = fmt.Sprintf("%s %v", b, err)
					}
				}
				if first == nil {
					first = out
					continue
				}
				for _, x := range ptrs {
					if out[x] != first[x] {
						k.Fail("C20:types", "%s resolves to %s and to %s for %s", x, first[x], out[x], desc)
						return
					}
				}
			}
		})
	}
}
