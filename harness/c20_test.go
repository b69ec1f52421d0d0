package oapi_test

import (
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	root "github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	kit "github.com/buypal/oapi-go/internal/verifkit"
)

// vDet is a module and the options of its scan.
type vDet struct {
	files map[string]string
	defs  map[string]spec.Operation
	over  map[string]spec.Schema
	top   spec.OpenAPI
	outs  []string
}

func (d *vDet) String() string {
	var s []string
	for f, text := range d.files {
		s = append(s, fmt.Sprintf("%s: %q", f, text))
	}
	sort.Strings(s)
	for p := range d.defs {
		s = append(s, "default "+p)
	}
	return strings.Join(s, "; ")
}

func vDetModule(k *kit.K) *vDet {
	d := &vDet{files: map[string]string{}, defs: map[string]spec.Operation{}, over: map[string]spec.Schema{}}
	pkgs := []string{"a", "b", "c", "d"}[:2+k.R.Intn(3)]
	imports := ""
	var all []string // types with their pointers
	num := 0
	for _, p := range pkgs {
		imports += "import _ \"example.com/m/" + p + "\"\n"
		src := "package " + p + "\n\n"
		n := 1 + k.R.Intn(3)
		for i := 0; i < n; i++ {
			num++
			t := fmt.Sprintf("%c%d", 'A'+k.R.Intn(26), num)
			ptr := "go://example.com/m/" + p + "#/" + t
			all = append(all, ptr)
			if k.R.Intn(2) == 0 {
				src += "//openapi:schema " + kit.Pick(k, "", "X"+fmt.Sprint(num)+" ") + t + "\n\n"
			}
			anon := "struct { V int; W " + kit.Pick(k, "string", "[]bool", "map[string]int8") + " }"
			src += "type " + t + " struct {\n"
			for j := 2 + k.R.Intn(4); j > 0; j-- {
				f := fmt.Sprintf("%c%d", 'A'+k.R.Intn(26), j)
				if j <= 2 && k.R.Intn(2) == 0 {
					f = []string{"", "Id", "ID"}[j] // differ in case only
				}
				ty := kit.Pick(k, anon, anon, "[]"+anon, "*"+t, "[]*"+t, "map[string]"+anon, "string", "uint8")
				src += "\t" + f + " " + ty + "\n"
				if ty == anon && k.R.Intn(2) == 0 {
					all = append(all, ptr+"/"+f)
				}
			}
			src += "}\n\n"
		}
		d.files[p+"/x.go"] = src
	}
	d.files["m.go"] = "package m\n\n" + imports
	paths := []string{"/a", "/b", "/a/b", "/x/{id}", "/c.d", "/e~f", "/g"}
	k.R.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
	{
		text := "openapi: 3.0.0\ninfo:\n  title: t\n  version: '1'\n"
		text += "tags:\n- name: t1\n- name: t2\npaths:\n"
		for j := 1 + k.R.Intn(3); j > 0 && len(paths) > 0; j-- {
			text += "  '" + paths[0] + "':\n"
			paths = paths[1:]
			for _, m := range []string{"get", "post", "put"}[:1+k.R.Intn(3)] {
				text += "    " + m + ":\n      responses:\n"
				for _, r := range [][]string{{"200"}, {"'200'", "404"}, {"200", "'200'"}, {"default", "'404'", "404"}}[k.R.Intn(4)] {
					text += "        " + r + ":\n          description: " + kit.Pick(k, "one", "two", "three", "four") + "\n          content:\n"
					for _, ct := range []string{"application/json", "text/plain", "a/b"}[:1+k.R.Intn(3)] {
						text += "            " + ct + ":\n              schema:\n                $ref: '" + all[k.R.Intn(len(all))] + "'\n"
					}
				}
			}
		}
		text += "components:\n  responses:\n"
		for j := 1 + k.R.Intn(3); j > 0; j-- {
			text += fmt.Sprintf("    R%d:\n      description: r\n      content:\n        text/plain:\n          schema:\n            $ref: '%s'\n", j, all[k.R.Intn(len(all))])
		}
		d.files["oapi.yaml"] = text
	}
	for i := k.R.Intn(5); i > 0; i-- {
		p := kit.Pick(k, "*", "/*", "/a*", "get:*", "/x/*", "post:/*", "/{seg}", "/g", "put:*")
		d.defs[p] = spec.Operation{Summary: "of " + p, Responses: map[string]*spec.Response{
			kit.Pick(k, "200", "500", "default"): {Description: "of " + p, Content: map[string]*spec.MediaType{kit.Pick(k, "a/b", "x/y"): {}}},
			kit.Pick(k, "201", "501"):            {Description: "also of " + p}}}
	}
	if k.R.Intn(3) == 0 {
		for i := k.R.Intn(3); i >= 0; i-- {
			d.over[all[k.R.Intn(len(all))]] = spec.Schema{Type: "string", Format: fmt.Sprint("f", i)}
		}
	}
	if k.R.Intn(3) == 0 {
		d.top.Components = &spec.Components{Schemas: map[string]*spec.Schema{"Z1": {Type: "string"}, "Z2": {Type: "object"}, "Z0": {Type: "integer"}}}
		d.top.Info = &spec.Info{Title: "top"}
	}
	return d
}

// run scans the module and formats the document in all formats.
func (d *vDet) run(dir string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = "panic: " + fmt.Sprint(r)
		}
	}()
	defs, over := map[string]spec.Operation{}, map[string]spec.Schema{}
	for k, v := range d.defs {
		defs[k] = v
	}
	for k, v := range d.over {
		over[k] = v
	}
	o, err := root.Scan(context.Background(), root.WithDir(dir), root.WithDefOps(defs), root.WithOverride(over), root.WithRootSchema(d.top))
	if err != nil {
		return "error"
	}
	for _, f := range []string{"json", "json:pretty", "yaml", "go"} {
		b, err := root.Format(f, o)
		s += fmt.Sprintf("%s: %s %v\n", f, b, err != nil)
	}
	return s
}

func TestVerifC20Modules(t *testing.T) {
	k := kit.New(t, "random modules of several packages with exports, types met in several ways, specifications, default operations, overrides and root documents, scanned and formatted many times in all formats: always the same bytes")
	tmp, err := ioutil.TempDir("", "c20")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(tmp)
	jobs := make([]*vDet, k.N(100, 1000))
	for i := range jobs {
		jobs[i] = vDetModule(k)
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				dir := filepath.Join(tmp, fmt.Sprint("m", i))
				jobs[i].files["go.mod"] = "module example.com/m\n\ngo 1.15\n"
				for f, text := range jobs[i].files {
					f = filepath.Join(dir, f)
					os.MkdirAll(filepath.Dir(f), 0755)
					ioutil.WriteFile(f, []byte(text), 0644)
				}
				for r := 0; r < 7; r++ {
					jobs[i].outs = append(jobs[i].outs, jobs[i].run(dir))
				}
				os.RemoveAll(dir)
			}
		}()
	}
	for i := range jobs {
		ch <- i
	}
	close(ch)
	wg.Wait()
	// what time it is does not matter
	late := time.Now()
	for i := 0; i < 5; i++ {
		dir := filepath.Join(tmp, fmt.Sprint("late", i))
		for f, text := range jobs[i].files {
			f = filepath.Join(dir, f)
			os.MkdirAll(filepath.Dir(f), 0755)
			ioutil.WriteFile(f, []byte(text), 0644)
		}
		if i == 0 {
			time.Sleep(1100*time.Millisecond - time.Since(late))
		}
		jobs[i].outs = append(jobs[i].outs, jobs[i].run(dir))
		os.RemoveAll(dir)
	}
	fine := 0
	for _, d := range jobs {
		d := d
		k.Case("C20:module", d.String(), func() {
			for _, o := range d.outs {
				if o != d.outs[0] {
					a, b := vDiffer(d.outs[0], o)
					k.Fail("C20:module", "the module gives ...%s and ...%s: %s", a, b, d)
					return
				}
			}
			if d.outs[0] != "error" {
				fine++
			}
		})
	}
	if fine < len(jobs)/2 && !k.Stop() {
		t.Logf("only %d of %d modules give a document", fine, len(jobs))
	}
}

// vDiffer are the parts of two texts from where they differ.
func vDiffer(a, b string) (string, string) {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i -= 60; i < 0 {
		i = 0
	}
	cut := func(s string) string {
		if s = s[i:]; len(s) > 250 {
			s = s[:250]
		}
		return s
	}
	return cut(a), cut(b)
}
