package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	oapi "github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/oapi/config"
	"github.com/buypal/oapi-go/internal/oapi/spec"
	kit "github.com/buypal/oapi-go/internal/verifkit"
	"gopkg.in/yaml.v2"
)

// vGood is a module whose document holds some text.
func vGood(text string) map[string]string {
	return map[string]string{
		"m.go": "package m\n\n//openapi:schema T\n\ntype T struct {\n\tA string `json:\"a\" oapi:\"a,required\"`\n\tB []U `json:\"b\"`\n}\n\ntype U struct {\n\tN *T `json:\"n\"`\n\tI uint8\n}\n",
		"oapi.yaml": "openapi: 3.0.0\ninfo:\n  title: " + text + "\npaths:\n  /t:\n    get:\n      responses:\n        '200':\n          description: ok\n" +
			"          content:\n            application/json:\n              schema:\n                $ref: 'go://#/T'\n" +
			"    post:\n      responses:\n        '200':\n          description: ok\n          content:\n            application/json:\n              schema:\n                $ref: 'go://#/U'\n",
	}
}

// vFaults make a step of the run fail; they change files, configuration and
// arguments.
var vFaults = []struct {
	name string
	f    func(files map[string]string, conf vM, args *[]string, at *vPlace)
}{
	{"configuration is missing", func(f map[string]string, c vM, a *[]string, at *vPlace) { at.noconf = true }},
	{"configuration is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) { at.rawconf = "a: [\n- x: }\n" }},
	{"configuration is not an object", func(f map[string]string, c vM, a *[]string, at *vPlace) { at.rawconf = "- a\n- b\n" }},
	{"configuration has another extension", func(f map[string]string, c vM, a *[]string, at *vPlace) { at.confname = "conf.toml" }},
	{"base is missing", func(f map[string]string, c vM, a *[]string, at *vPlace) { c["extends"] = "nope.yaml" }},
	{"base is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		c["extends"] = "base.json"
		at.base = "{\"a\": "
	}},
	{"ill-typed setting", func(f map[string]string, c vM, a *[]string, at *vPlace) { c["operations"] = vL{"x"} }},
	{"ill-typed info", func(f map[string]string, c vM, a *[]string, at *vPlace) { c["info"] = "x" }},
	{"unknown format", func(f map[string]string, c vM, a *[]string, at *vPlace) { c["format"] = "xml"; at.noformat = true }},
	{"unknown flag", func(f map[string]string, c vM, a *[]string, at *vPlace) { *a = append(*a, "--nope") }},
	{"unknown format flag", func(f map[string]string, c vM, a *[]string, at *vPlace) { *a = append(*a, "--format=toml") }},
	{"superfluous argument", func(f map[string]string, c vM, a *[]string, at *vPlace) { *a = append(*a, "x") }},
	{"directory is missing", func(f map[string]string, c vM, a *[]string, at *vPlace) { *a = append(*a, "--dir=nope") }},
	{"directory is missing", func(f map[string]string, c vM, a *[]string, at *vPlace) { c["dir"] = "nope/x" }},
	{"Go file is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) { f["b.go"] = "package m\n\nfunc {\n" }},
	{"types do not check", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\nvar x int = \"a\"\n"
	}},
	{"imported package is missing", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\nimport _ \"example.com/m/nope\"\n"
	}},
	{"imported package is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\nimport _ \"example.com/m/in\"\n"
		f["in/in.go"] = "package in\n\nvar x = y\n"
	}},
	{"specification is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.yaml"] = "openapi: 3.0.0\npaths: {\n"
	}},
	{"another specification file is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.json"] = "{\"openapi\": "
	}},
	{"specification of an imported package is broken", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\nimport _ \"example.com/m/in\"\n"
		f["in/in.go"] = "package in\n"
		f["in/oapi.json"] = "{\"openapi\": "
	}},
	{"specifications clash", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\nimport _ \"example.com/m/in\"\n"
		f["in/in.go"] = "package in\n"
		f["in/oapi.json"] = "{\"openapi\": \"3.0.0\", \"info\": {\"title\": \"another title\"}}"
	}},
	{"unknown command", func(f map[string]string, c vM, a *[]string, at *vPlace) { f["b.go"] = "package m\n\n//openapi:nope T\n" }},
	{"command without arguments", func(f map[string]string, c vM, a *[]string, at *vPlace) { f["b.go"] = "package m\n\n//openapi:schema\n" }},
	{"command with too many arguments", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\n//openapi:schema A B C\n"
	}},
	{"two exports under one name", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\n//openapi:schema T U\n"
	}},
	{"exported twice", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\n//openapi:schema T2 T\n"
	}},
	{"unknown type", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "go://#/Nope") }},
	{"unknown field", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "go://#/T/Nope") }},
	{"unknown package", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "go://example.com/other#/T") }},
	{"unknown scheme", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "http://example.com/x#/T") }},
	{"malformed reference", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "go://a b%zz#/T") }},
	{"malformed tokens", func(f map[string]string, c vM, a *[]string, at *vPlace) { vRef(f, "go://example.com/m#T") }},
	{"unsupported type", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\ntype V struct {\n\tC chan int\n}\n"
		vRef(f, "go://#/V")
	}},
	{"bad tag", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\ntype V struct {\n\tC int `oapi:\"c,min:x\"`\n}\n"
		vRef(f, "go://#/V")
	}},
	{"own element", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["b.go"] = "package m\n\ntype V []V\n"
		vRef(f, "go://#/V")
	}},
	{"clash with the root's components", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.yaml"] += "components:\n  schemas:\n    X:\n      type: string\n"
		c["components"] = vM{"schemas": vM{"X": vM{"type": "object"}}}
	}},
	{"ill-typed document", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.yaml"] = "openapi: [1]\npaths: {}\n"
	}},
	{"ill-typed operation", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.yaml"] = "openapi: 3.0.0\npaths:\n  /a:\n    get: 3\n"
	}},
	{"path item is not an object with default operations", func(f map[string]string, c vM, a *[]string, at *vPlace) {
		f["oapi.yaml"] = "openapi: 3.0.0\npaths:\n  /a: 3\n"
		c["operations"] = vM{"*": vM{"summary": "x"}}
	}},
}

// vRef adds a reference to the document.
func vRef(f map[string]string, ref string) {
	f["oapi.yaml"] += "    put:\n      responses:\n        '200':\n          description: ok\n          content:\n            application/json:\n              schema:\n                $ref: '" + ref + "'\n"
}

type vPlace struct {
	noconf   bool
	noformat bool
	rawconf  string
	confname string
	base     string
}

type vJob struct {
	root, wd, desc string
	args           []string
	dest           string // stdout, stderr or a file
	format         string
	conf           string
	bad            bool
	logs           bool
	want           string
	wantErr        error
	res            vRes
	before, after  map[string]string
}

// vExpect is the formatted document of a run.
func (j *vJob) vExpect() {
	var c config.Config
	if j.conf != "" {
		var err error
		if c, err = config.ReadFile(j.conf); err != nil {
			j.wantErr = err
			return
		}
	}
	o := []oapi.Option{oapi.WithDir(j.wd), oapi.WithRootSchema(spec.OpenAPI{Info: c.Info, Servers: c.Servers, Components: c.Components, Security: c.Security, Tags: c.Tags, ExternalDocs: c.ExternalDocs})}
	if len(c.Operations) > 0 {
		o = append(o, oapi.WithDefOps(c.Operations))
	}
	if len(c.Overrides) > 0 {
		o = append(o, oapi.WithOverride(c.Overrides))
	}
	d, err := oapi.Scan(context.Background(), o...)
	if err != nil {
		j.wantErr = err
		return
	}
	b, err := oapi.Format(j.format, d)
	j.want, j.wantErr = string(b), err
}

func TestVerifC18(t *testing.T) {
	k := kit.New(t, "the command on modules and configurations in which a random step fails (or none does), for every destination and format, existing and new files: a failing run has a status other than zero, changes no file and prints no document; a successful one writes exactly the formatted document to its destination and ends with status zero")
	top := t.TempDir()
	n := k.N(260, 2600)
	jobs := make([]*vJob, n)
	for i := range jobs {
		j := &vJob{root: filepath.Join(top, fmt.Sprint(i)), format: kit.Pick(k, "json", "yaml", "yml", "json:pretty", "go")}
		jobs[i] = j
		j.wd = filepath.Join(j.root, "wd")
		text := kit.Pick(k, "plain", "'a ` b'", "\"x \\\\ \\\" é ☃\"", "'"+strings.Repeat("long text ", 30+k.R.Intn(20000))+"'")
		files, conf, at := vGood(text), vM{}, &vPlace{confname: "conf." + kit.Pick(k, "yaml", "yml", "json")}
		// settings which change the document, but not whether there is one
		if k.R.Intn(2) == 0 {
			conf["info"] = vM{"version": "7"}
		}
		if k.R.Intn(3) == 0 {
			conf["operations"] = vM{"post:*": vM{"summary": "s"}}
		}
		if k.R.Intn(3) == 0 {
			conf["overrides"] = vM{"go://example.com/m#/U": vM{"type": "string"}}
		}
		if k.R.Intn(3) == 0 {
			conf["components"] = vM{"schemas": vM{"X": vM{"type": "string"}}}
		}
		desc := "no fault"
		if m := k.R.Intn(7); m > 1 {
			f := vFaults[i%len(vFaults)]
			f.f(files, conf, &j.args, at)
			desc, j.bad = f.name, true
			if m == 2 {
				f := vFaults[k.R.Intn(len(vFaults))]
				f.f(files, conf, &j.args, at)
				desc += " and " + f.name
			}
		}
		flags := func(name, v string) {
			if at.noformat && name == "format" {
				return
			}
			switch k.R.Intn(3) {
			case 0:
				conf[name] = v
			default:
				j.args = append(j.args, "--"+name, v)
			}
		}
		if j.format != "json:pretty" || k.R.Intn(2) == 0 {
			flags("format", j.format)
		}
		j.dest = kit.Pick(k, "stdout", "stderr", "stdout", "file", "file", "file", "file")
		if j.dest == "file" {
			j.dest = filepath.Join(j.wd, kit.Pick(k, "o.out", "sub/o.out", "oapi.out.json"))
			switch k.R.Intn(4) {
			case 0:
				files["o.out"] = strings.Repeat("old content\n", 20000)
				files["sub/o.out"] = "old"
			case 1:
				files["o.out"] = "old"
				files["sub/o.out"] = "{\"openapi\": \"old\"}\n"
				files["oapi.out.json"] = strings.Repeat("x", 1000)
			}
			if !j.bad && k.R.Intn(8) == 0 {
				j.dest = filepath.Join(j.wd, kit.Pick(k, "nodir/o.out", "sub", "m.go/x"))
				desc, j.bad = "destination cannot be written", true
			}
			if k.R.Intn(2) == 0 {
				flags("output", j.dest)
			} else {
				r, _ := filepath.Rel(j.wd, j.dest)
				flags("output", r)
			}
		} else if j.dest != "stdout" || k.R.Intn(2) == 0 {
			flags("output", j.dest)
		}
		if k.R.Intn(3) == 0 {
			j.logs = true
			j.args = append(j.args, "--loglevel", kit.Pick(k, "panic", "fatal", "error", "warn", "info", "debug", "trace"))
		}
		vModule(j.wd, "/x", files)
		os.MkdirAll(filepath.Join(j.wd, "sub"), 0755)
		if at.base != "" {
			vWrite(filepath.Join(j.wd, "base.json"), at.base)
		}
		if len(conf) > 0 || at.noconf || at.rawconf != "" || at.confname == "conf.toml" {
			j.conf = filepath.Join(j.wd, at.confname)
			text := vJSON(conf)
			if filepath.Ext(at.confname) != ".json" && k.R.Intn(2) == 0 {
				b, err := yaml.Marshal(conf)
				if err != nil {
					panic(err)
				}
				text = string(b)
			}
			if at.rawconf != "" {
				text = at.rawconf
			}
			if !at.noconf {
				vWrite(j.conf, text)
			}
			j.args = append(j.args, "--config", kit.Pick(k, j.conf, at.confname))
		}
		a := strings.Join(j.args, " ")
		j.desc = fmt.Sprintf("%s; arguments %s", desc, strings.Replace(a, j.root, "", -1))
	}
	vAll(n, func(i int) {
		j := jobs[i]
		j.before = vTree(j.root)
		j.res = vRun(j.wd, j.args...)
		j.after = vTree(j.root)
		if !j.bad {
			j.vExpect()
		}
		os.RemoveAll(j.root)
	})
	for _, j := range jobs {
		k.Case("run", j.desc, func() { j.check(k) })
	}
}

func vCut(s string) string {
	if len(s) > 400 {
		return s[:400] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

func (j *vJob) check(k *kit.K) {
	changed := vChanged(j.before, j.after)
	for i := range changed {
		changed[i] = strings.TrimPrefix(changed[i], j.root)
	}
	if j.bad {
		if j.res.code == 0 {
			k.Fail("run", "%s: exit status 0", j.desc)
		}
		if len(changed) > 0 {
			k.Fail("run", "%s: exit status %d, and yet changed files %q", j.desc, j.res.code, changed)
		}
		if f := vAnyFormat(j.res.out) + vAnyFormat(j.res.errout); f != "" {
			k.Fail("run", "%s: exit status %d, and yet printed a document (%s)", j.desc, j.res.code, f)
		}
		return
	}
	if j.wantErr != nil {
		k.Fail("run", "%s: scanning in process: %v", j.desc, j.wantErr)
		return
	}
	if j.res.code != 0 {
		k.Fail("run", "%s: exit status %d: %s", j.desc, j.res.code, vCut(j.res.errout))
		return
	}
	got := ""
	switch j.dest {
	case "stdout":
		got = j.res.out
	case "stderr":
		got = j.res.errout
		if j.logs && strings.HasSuffix(got, j.want) {
			got = j.want
		}
	default:
		got = j.after[j.dest]
		if len(changed) != 1 || filepath.Join(j.root, changed[0]) != j.dest {
			k.Fail("run", "%s: changed files %q", j.desc, changed)
			return
		}
	}
	if (j.dest == "stdout" || j.dest == "stderr") && len(changed) > 0 {
		k.Fail("run", "%s: changed files %q", j.desc, changed)
	}
	if got != j.want {
		k.Fail("run", "%s: wrote %q, want %q", j.desc, vCut(got), vCut(j.want))
	}
	if j.dest != "stdout" && j.res.out != "" {
		k.Fail("run", "%s: also printed %q", j.desc, vCut(j.res.out))
	}
	if j.dest != "stderr" && vAnyFormat(j.res.errout) != "" {
		k.Fail("run", "%s: a document on standard error as well", j.desc)
	}
}

// TestVerifC18Stop: a run which is stopped either fails and writes nothing or
// completes.
func TestVerifC18Stop(t *testing.T) {
	k := kit.New(t, "the command stopped by a signal at a random moment, or writing where nothing can be written: it either fails, changing nothing, or succeeds with the whole document")
	top := t.TempDir()
	n := k.N(48, 600)
	type job struct {
		vJob
		wait time.Duration
		sig  syscall.Signal
		full string
	}
	jobs := make([]*job, n)
	for i := range jobs {
		j := &job{}
		jobs[i] = j
		j.root = filepath.Join(top, fmt.Sprint(i))
		j.wd = filepath.Join(j.root, "wd")
		j.format = "json"
		j.dest = filepath.Join(j.wd, "o.out")
		files := vGood("x")
		if k.R.Intn(2) == 0 {
			files["o.out"] = "old"
		}
		vModule(j.wd, "/x", files)
		j.args = []string{"--format", j.format, "--output", j.dest}
		j.wait = time.Duration(k.R.Intn(500)) * time.Millisecond
		j.sig = syscall.SIGTERM
		if k.R.Intn(2) == 0 {
			j.sig = syscall.SIGINT
		}
		if i%8 == 7 {
			j.full = kit.Pick(k, "stdout", "stderr", "file")
			if j.full == "file" {
				j.args[3] = "/dev/full"
			} else {
				j.args[3] = j.full
			}
			j.dest = ""
		}
		j.desc = fmt.Sprintf("%s after %s", j.sig, j.wait)
		if j.full != "" {
			j.desc = "writing to a full device by " + j.full
		}
	}
	vAll(n, func(i int) {
		j := jobs[i]
		j.before = vTree(j.root)
		c := exec.Command(os.Args[0], j.args...)
		c.Dir = j.wd
		c.Env = append(os.Environ(), "VERIF_CHILD=1", "PWD="+j.wd)
		var a, b bytes.Buffer
		c.Stdout, c.Stderr = &a, &b
		var f *os.File
		if j.full == "stdout" || j.full == "stderr" {
			var err error
			if f, err = os.OpenFile("/dev/full", os.O_WRONLY, 0); err != nil {
				panic(err)
			}
			defer f.Close()
			if j.full == "stdout" {
				c.Stdout = f
			} else {
				c.Stderr = f
			}
		}
		if err := c.Start(); err != nil {
			panic(err)
		}
		if j.full == "" {
			time.Sleep(j.wait)
			c.Process.Signal(j.sig)
		}
		done := make(chan bool)
		go func() {
			select {
			case <-done:
			case <-time.After(60 * time.Second):
				c.Process.Kill()
			}
		}()
		err := c.Wait()
		close(done)
		j.res.out, j.res.errout = a.String(), b.String()
		if err != nil {
			j.res.code = 1
		}
		j.after = vTree(j.root)
		if j.full == "" && j.res.code == 0 {
			j.vExpect()
		}
		os.RemoveAll(j.root)
	})
	for _, j := range jobs {
		k.Case("stop", j.desc, func() {
			if j.full != "" {
				if j.res.code == 0 {
					k.Fail("stop", "%s: exit status 0", j.desc)
				}
				return
			}
			j.bad = j.res.code != 0
			j.check(k)
		})
	}
}

var _ = ioutil.ReadFile
