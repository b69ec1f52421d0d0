C = "internal/container/container.go"
I = "internal/pkgutil/info.go"
T = '''package specs

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"golang.org/x/tools/go/packages"
)

func put(dir, name, text string) {
	os.MkdirAll(dir, 0o755)
	ioutil.WriteFile(filepath.Join(dir, name), []byte(text), 0o644)
}

func scan(t *testing.T, top, mod, pkg string) []interface{} {
	s := NewScanner()
	if err := s.Scan(&packages.Package{PkgPath: pkg, Module: &packages.Module{Path: mod, Dir: top}}); err != nil {
		t.Fatal(err)
	}
	var r []interface{}
	for _, c := range s.Containers {
		r = append(r, c.Data().(map[string]interface{})["n"])
	}
	return r
}

func TestDemo(t *testing.T) {
	top, err := ioutil.TempDir("", "c25")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(top)
	%s
}
'''
seed("c25-first-pattern", "C25", [(C, "		ff = append(ff, xs...)\n", "		if len(ff) == 0 || s[0] == '*' {\n			ff = append(ff, xs...)\n		}\n")],
  "internal/oapi/scan/specs", T % '''put(top, "oapi.yaml", "openapi: '3'\\nn: a\\n")
	put(top, "oapi.json", "{\\"openapi\\": \\"3\\", \\"n\\": \\"b\\"}")
	if r := scan(t, top, "m", "m"); fmt.Sprint(r) != "[a b]" {
		t.Fatal(r)
	}''',
  "two specification files of different extension in one package", "The second file of a package is left out.")
seed("c25-module-twice", "C25", [(I, "strings.Replace(pkg.PkgPath, pkg.Module.Path, \"\", 1)), true", "strings.Replace(pkg.PkgPath, pkg.Module.Path, \"\", -1)), true")],
  "internal/oapi/scan/specs", T % '''put(filepath.Join(top, "x", "ex.org", "m", "y"), "oapi.yaml", "openapi: '3'\\nn: a\\n")
	if r := scan(t, top, "ex.org/m", "ex.org/m/x/ex.org/m/y"); fmt.Sprint(r) != "[a]" {
		t.Fatal(r)
	}''',
  "a package whose path below the module repeats the module's path", "Its folder is looked for elsewhere, its specification files are not collected.")
seed("c25-wide-pattern", "C25", [(C, "filepath.Glob(filepath.Join(dir, s))", "filepath.Glob(filepath.Join(dir, \"*\"+s))")],
  "internal/oapi/scan/specs", T % '''put(top, "old-oapi.yaml", "openapi: '3'\\nn: stray\\n")
	put(top, "oapi.yaml", "openapi: '3'\\nn: a\\n")
	if r := scan(t, top, "m", "m"); fmt.Sprint(r) != "[a]" {
		t.Fatal(r)
	}''',
  "a file whose name ends like that of a specification file", "Files which are none of the package's specification files are collected.")
seed("c25-sort-names", "C25", [(C, "return cc[i].path < cc[j].path", "return filepath.Base(cc[i].path) < filepath.Base(cc[j].path)")],
  "internal/oapi/scan/specs", T % '''msg := map[string]bool{}
	for _, o := range [][]string{{"a", "b", "c"}, {"b", "c", "a"}, {"c", "b", "a"}} {
		s := NewScanner()
		for i, n := range o {
			put(filepath.Join(top, n), "oapi.yaml", "openapi:\\n  "+n+": 1\\nn: "+n+"\\n")
			if err := s.Scan(&packages.Package{PkgPath: "m/" + n, Module: &packages.Module{Path: "m", Dir: top}}); err != nil {
				t.Fatal(i, err)
			}
		}
		_, err := s.Merge()
		msg[fmt.Sprint(err)] = true
	}
	if len(msg) != 1 {
		t.Fatal(msg)
	}''',
  "three files in three packages met in different order, with collisions", "What is reported depends on the order packages are met in.")
