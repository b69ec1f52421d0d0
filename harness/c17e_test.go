package main

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"

	kit "github.com/buypal/oapi-go/internal/verifkit"
	"gopkg.in/yaml.v2"
)

type vSet struct{ dir, format, output, title, version string } // "" is not given

type vRunOf struct {
	root     string
	args     []string
	wd       string
	flag     vSet
	own      vSet
	base     vSet
	haveConf bool
	haveBase bool
	conf     string
	basef    string
	res      vRes
	before   map[string]string
	after    map[string]string
}

func (s vSet) text(k *kit.K, file string, extends string) string {
	m := vM{}
	set := func(key, v string) {
		if v != "" {
			m[key] = v
		}
	}
	set("dir", s.dir)
	set("format", s.format)
	set("output", s.output)
	set("extends", extends)
	i := vM{}
	if s.title != "" {
		i["title"] = s.title
	}
	if s.version != "" {
		i["version"] = s.version
	}
	if len(i) > 0 {
		m["info"] = i
	}
	if filepath.Ext(file) == ".json" {
		return vJSON(m)
	}
	b, err := yaml.Marshal(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func vFirst(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

func TestVerifC17Command(t *testing.T) {
	k := kit.New(t, "the command with random flags, configuration files and bases setting directory, format and output to relative and absolute paths: the document is that of the directory, in the format and at the place the first of flag, configuration, base and default says")
	n := k.N(220, 2500)
	top := t.TempDir()
	jobs := make([]*vRunOf, n)
	for i := range jobs {
		j := &vRunOf{root: filepath.Join(top, fmt.Sprint(i))}
		jobs[i] = j
		j.wd = filepath.Join(j.root, "wd")
		dirs := func(abs bool) string {
			if abs {
				return filepath.Join(j.root, "abs")
			}
			return kit.Pick(k, "m1", "./m1", "../up", "m1/in", ".", filepath.Join(j.root, "abs"))
		}
		outs := func() string {
			return kit.Pick(k, "stdout", "stderr", "stdout", "stderr", "o1.out", "sub/o2.out", "./o1.out", "../o3.out", "./stdout", filepath.Join(j.root, "abs.out"))
		}
		maybe := func(n int) bool { return k.R.Intn(n) == 0 }
		format := func() string { return kit.Pick(k, "json", "yaml", "yml", "json:pretty", "go") }
		j.haveConf = k.R.Intn(5) > 0
		j.haveBase = j.haveConf && maybe(2)
		if maybe(3) {
			j.flag.dir = dirs(false)
		}
		if maybe(2) {
			j.flag.format = format()
		}
		if maybe(2) {
			j.flag.output = outs()
		}
		if j.haveConf {
			j.conf = filepath.Join(j.root, kit.Pick(k, "wd", "conf", "conf", "wd/m1", "c1/c2"), "conf."+kit.Pick(k, "yaml", "yml", "json"))
		}
		if j.haveBase {
			j.basef = filepath.Join(filepath.Dir(j.conf), kit.Pick(k, "", "", "../b"), "base."+kit.Pick(k, "yaml", "yml", "json"))
		}
		fill := func(s *vSet, abs bool, name string) {
			if maybe(2) {
				s.dir = dirs(abs)
			}
			if maybe(2) {
				s.format = format()
			}
			if maybe(2) {
				s.output = outs()
			}
			if maybe(2) {
				s.title = name
			}
			if maybe(2) {
				s.version = name + "1"
			}
		}
		if j.haveConf {
			fill(&j.own, false, "own")
		}
		if j.haveBase {
			fill(&j.base, filepath.Dir(j.basef) != filepath.Dir(j.conf), "base")
		}
		// the same relative directories everywhere
		for _, d := range []string{"wd", "conf", "c1/c2", "b", "wd/m1", "abs", "up", "c1/up", "wd/up", "conf/m1", "wd/m1/m1", "c1/c2/m1", "abs/m1", "wd/m1/in", "wd/m1/m1/in", "conf/m1/in", "c1/c2/m1/in", "abs/m1/in", "c1/b", "wd/b"} {
			vModule(filepath.Join(j.root, d), "/in/"+d, nil)
			os.MkdirAll(filepath.Join(j.root, d, "sub"), 0755)
		}
		if j.haveConf {
			ext := ""
			if j.haveBase {
				ext = j.basef
				if maybe(2) {
					ext, _ = filepath.Rel(filepath.Dir(j.conf), j.basef)
				}
				vWrite(j.basef, j.base.text(k, j.basef, ""))
			}
			vWrite(j.conf, j.own.text(k, j.conf, ext))
		}
		add := func(f, v string) {
			if maybe(2) {
				j.args = append(j.args, "--"+f, v)
			} else {
				j.args = append(j.args, "--"+f+"="+v)
			}
		}
		if j.flag.format != "" {
			add("format", j.flag.format)
		}
		if j.haveConf {
			c := j.conf
			if maybe(2) {
				c, _ = filepath.Rel(j.wd, j.conf)
			}
			add("config", c)
		}
		if j.flag.dir != "" {
			add("dir", j.flag.dir)
		}
		if j.flag.output != "" {
			add("output", j.flag.output)
		}
		// sometimes the destination is there already
		if maybe(3) {
			vWrite(filepath.Join(j.root, "wd", "o1.out"), "old\n")
			vWrite(filepath.Join(j.root, "abs.out"), "old\n")
		}
	}
	vAll(n, func(i int) {
		j := jobs[i]
		j.before = vTree(j.root)
		j.res = vRun(j.wd, j.args...)
		j.after = vTree(j.root)
		os.RemoveAll(j.root)
	})
	for _, j := range jobs {
		rel := func(p string) string {
			r, err := filepath.Rel(j.root, p)
			if err != nil {
				return p
			}
			return r
		}
		desc := fmt.Sprintf("flags %q, configuration %q %+v, base %q %+v", j.args, rel(j.conf), j.own, rel(j.basef), j.base)
		k.Case("command", desc, func() {
			at := func(p, dir string) string {
				if filepath.IsAbs(p) {
					return p
				}
				return filepath.Join(dir, p)
			}
			// where to run
			dir := j.wd
			if d := vFirst(j.own.dir, j.base.dir); j.flag.dir != "" {
				dir = at(j.flag.dir, j.wd)
			} else if d != "" {
				dir = at(d, filepath.Dir(j.conf))
			}
			format := vFirst(j.flag.format, j.own.format, j.base.format, "json:pretty")
			output := vFirst(j.flag.output, j.own.output, j.base.output, "stdout")
			if output != "stdout" && output != "stderr" {
				if j.flag.output != "" {
					output = at(output, j.wd)
				} else {
					output = at(output, dir)
				}
			}
			if j.res.code != 0 {
				k.Fail("command", "%s: exit status %d: %s", desc, j.res.code, j.res.errout)
				return
			}
			text := ""
			changed := vChanged(j.before, j.after)
			switch output {
			case "stdout":
				text = j.res.out
			case "stderr":
				text = j.res.errout
			default:
				text = j.after[output]
				if len(changed) != 1 || changed[0] != output {
					k.Fail("command", "%s: changed files %q, want %q", desc, changed, rel(output))
					return
				}
			}
			if (output == "stdout" || output == "stderr") && len(changed) > 0 {
				k.Fail("command", "%s: changed files %q", desc, changed)
			}
			if output != "stdout" && j.res.out != "" || output != "stderr" && j.res.errout != "" {
				k.Fail("command", "%s: standard output %q, standard error %q", desc, j.res.out, j.res.errout)
				return
			}
			v, err := vDecode(format, text)
			m, _ := v.(vM)
			if err != nil || m == nil {
				k.Fail("command", "%s: at %s not a document in format %s: %q: %v", desc, rel(output), format, text, err)
				return
			}
			p, _ := m["paths"].(vM)
			if len(p) != 1 || p["/in/"+rel(dir)] == nil {
				k.Fail("command", "%s: the document %s is not that of %s", desc, vJSON(m), rel(dir))
			}
			in, _ := m["info"].(vM)
			s := func(x interface{}) string { t, _ := x.(string); return t }
			if s(in["title"]) != vFirst(j.own.title, j.base.title) || s(in["version"]) != vFirst(j.own.version, j.base.version) {
				k.Fail("command", "%s: info is %s", desc, vJSON(in))
			}
		})
	}
}
