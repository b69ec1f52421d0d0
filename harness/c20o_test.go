package oapi

import (
	"testing"

	"github.com/buypal/oapi-go/internal/container"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

func TestVerifC20Defaults(t *testing.T) {
	k := kit.New(t, "random documents with default operations whose patterns overlap, applied many times: always the same document")
	for n := k.N(1000, 30000); n > 0 && !k.Stop(); n-- {
		doc, defs := vPathsDoc(k), map[string]spec.Operation{}
		for i := 2 + k.R.Intn(4); i > 0; i-- {
			for p, o := range vDefaults(k) {
				defs[p] = o
			}
			defs[kit.Pick(k, "*", "/*", "/a*", "/{seg}", "get:*", "post:/*", "/a", "/x/*")] = vOp(k)
		}
		desc := vJ(doc) + " with defaults " + vJ(defs)
		k.Case("C20:defaults", desc, func() {
			first := ""
			for r := 0; r < 8; r++ {
				c, err := container.Make(kit.Copy(doc))
				if err != nil {
					panic(err)
				}
				again := map[string]spec.Operation{}
				for p, o := range defs {
					again[p] = o
				}
				out := "error"
				if SetPathsDefaults(c, again) == nil {
					out = vJ(c.Data())
				}
				if r > 0 && out != first {
					k.Fail("C20:defaults", "%s gives %s and %s", desc, first, out)
					return
				}
				first = out
			}
		})
	}
}
