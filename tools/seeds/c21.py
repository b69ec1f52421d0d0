C = "internal/oapi/scan/cmds/cmds.go"
S = "internal/oapi/scan/cmds/schema.go"
N = "internal/oapi/scan/cmds/scan.go"
A = "internal/oapi/scan/cmds/args.go"
T = '''package cmds

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"testing"

	"golang.org/x/tools/go/packages"
)

// exports are those of packages given as path and source, or "error".
func exports(t *testing.T, src ...string) string {
	s := NewScanner()
	for i := 0; i < len(src); i += 2 {
		f, err := parser.ParseFile(token.NewFileSet(), "f.go", src[i+1], parser.ParseComments)
		if err != nil {
			t.Fatal(err)
		}
		pkg := &packages.Package{PkgPath: src[i], Types: types.NewPackage(src[i], "p"), Syntax: []*ast.File{f}}
		if err := s.Scan(pkg); err != nil {
			return "error"
		}
	}
	ee, err := s.ExportedComponents()
	if err != nil {
		return "error"
	}
	var x []string
	for _, e := range ee {
		x = append(x, e.Name+"="+e.Pointer.String())
	}
	sort.Strings(x)
	return strings.Join(x, " ")
}

func TestDemo(t *testing.T) {
	for _, x := range [][]string{
%s	} {
		if got := exports(t, x[1:]...); got != x[0] {
			t.Fatalf("%%q: exports %%q, wanted %%q", x[1:], got, x[0])
		}
	}
}
'''
seed("c21-group-end", "C21", [(C, '''		if !hasPrefix {
			continue
		}
		c = c[len(prefix):]
''', '''		if !hasPrefix {
			if len(cc) > 0 {
				break
			}
			continue
		}
		c = c[len(prefix):]
''')], "internal/oapi/scan/cmds", T % '''		{"A=go://p#/A B=go://p#/B", "p", "package p\\n\\n//openapi:schema A\\n//openapi:schema B\\n"},
		{"A=go://p#/A B=go://p#/B", "p", "package p\\n\\n//openapi:schema A\\n// and\\n//openapi:schema B\\n"},
''', "two commands in one comment group with ordinary text between them", "commands after the text are ignored")
seed("c21-pointer-name", "C21", [(S, '''		if strings.Contains(a, "://") || strings.Contains(a, "#") {
''', '''		if strings.HasPrefix(a, "go://") && strings.Contains(a, "#") {
''')], "internal/oapi/scan/cmds", T % '''		{"X=go://q#/A", "p", "package p\\n\\n//openapi:schema X go://q#/A\\n"},
		{"error", "p", "package p\\n\\n//openapi:schema X go://p\\x23A\\n"},
		{"error", "p", "package p\\n\\n//openapi:schema X \\x23A\\n"},
''', "a malformed pointer without the go scheme as the second argument", "the malformed pointer is taken for a type name and accepted")
seed("c21-dup-first-only", "C21", [(N, '''			if _, ok := exports.Get(x.Ptr); ok {
				err = errors.Errorf("schema of type %q already registered", x.Name)
				return
			}
''', '''			if old, ok := exports.Get(x.Ptr); ok {
				if old.Name == x.Name {
					continue
				}
				err = errors.Errorf("schema of type %q already registered", x.Name)
				return
			}
''')], "internal/oapi/scan/cmds", T % '''		{"error", "p", "package p\\n\\n//openapi:schema A X\\n\\n//openapi:schema B X\\n"},
		{"error", "p", "package p\\n\\n//openapi:schema A\\n", "q", "package q\\n\\n//openapi:schema A go://p\\x23/A\\n"},
''', "two packages export the same type under the same name", "the second export is dropped silently")
seed("c21-files", "C21", [(N, '''	for _, s := range pkg.Syntax {
		groups = append(groups, s.Comments...)
	}
''', '''	for _, s := range pkg.Syntax {
		groups = s.Comments
	}
'''), (N, '''	for _, g := range groups {
		comments = append(comments, ParseCommentGroup(g)...)
	}
''', '''	for i, g := range groups {
		if i > 0 && g.End() < groups[0].Pos() {
			continue
		}
		comments = append(comments, ParseCommentGroup(g)...)
	}
''')], "internal/oapi/scan/cmds", (T % '''		{"A=go://p#/A B=go://p#/B", "p", "package p\\n\\n//openapi:schema A\\n\\n//openapi:schema B\\n", "q", "package q\\n"},
''').replace("Syntax: []*ast.File{f}}", "Syntax: []*ast.File{f, {Name: f.Name}}}"), "a package of several files", "only commands of the last file count")
seed("c21-own-package", "C21", [(S, '''		return pointer.NewGoPointer(cmd.pkg.Types.Path(), a)
''', '''		return pointer.NewGoPointer(strings.TrimSuffix(cmd.pkg.Types.Path(), "_test"), a)
''')], "internal/oapi/scan/cmds", T % '''		{"A=go://p#/A", "p", "package p\\n\\n//openapi:schema A\\n"},
		{"A=go://p_test#/A", "p_test", "package p\\n\\n//openapi:schema A\\n"},
''', "a package whose path ends with _test", "its types are exported as those of another package")
