# C17: settings
extern ioutil.ReadFile(filename) (data, err)
  ensures (err == nil) == fsok(filename)
  ensures imp(err == nil, bytestr(data) == fsdata(filename))
  why the files stay as they are while the command reads them
extern filepath.Ext(path) (r)
  ensures r == fpext(path)
extern filepath.IsAbs(path) (r)
  ensures r == fpabs(path)
extern filepath.Join(elem) (r)
  ensures imp(len(elem) == 2, r == fpjoin(elem[0], elem[1]))
  ensures imp(len(elem) == 3, r == fpjoin3(elem[0], elem[1], elem[2]))
extern filepath.Dir(path) (r)
  ensures r == fpdir(path)
extern os.Getwd() (r, err)
  ensures r == wdir
  why a working directory that cannot be told is the empty text, as before
extern yaml.Unmarshal(data, v) (err)
  modifies *v
  ensures imp(is(v, "*map[string]interface{}"), (err == nil) == yok(bytestr(data)) && jowned(any(*as(v, "*map[string]interface{}"))) && jowned(jnorm(any(*as(v, "*map[string]interface{}")))) && imp(err == nil, any(*as(v, "*map[string]interface{}")) == ydec(bytestr(data))))
  why gopkg.in/yaml.v2 decodes an object or null into a map
define yamlext(f) = fpext(f) == ".yaml" || fpext(f) == ".yml"
define fdoc(f) = ite(yamlext(f), jnorm(ydec(fsdata(f))), jdec(fsdata(f)))
define fok(f) = fsok(f) && (yamlext(f) && yok(fsdata(f)) || fpext(f) == ".json" && jobjok(fsdata(f)))
define fany(f) = yamlext(f) || jdec(fsdata(f)) != nil
func container.ReadYAML
  props C05 C17
  ensures (err == nil) == yok(bytestr(data))
  ensures imp(err == nil, c.c != nil && fresh(c.c) && c.c.object == jnorm(ydec(bytestr(data))) && c.path == "" && is(c.c.object, "map[string]interface{}"))
func container.ReadFile
  props C05 C17 C25
  ensures (err == nil) == fok(file)
  ensures imp(err == nil, c.c != nil && fresh(c.c) && c.path == file && docmap(c.c.object))
  ensures imp(err == nil && fany(file), c.c.object == fdoc(file))
func container.Container.MarshalJSON
  props C17
  ensures (r1 == nil) == jencok(cdata(c))
  ensures imp(r1 == nil, bytestr(r0) == jenc(cdata(c)))
define relto(p, dir) = ite(fpabs(p), p, fpjoin(dir, p))
define extd(v) = jstep(v, "extends")
define keeps(v, d, b) = forall(k, string, jdomv(v, k) == (jdomv(d, k) || jdomv(b, k))) && forall(k, string, imp(jdomv(d, k) && !(docmap(jstep(d, k)) && docmap(jstep(b, k))), jstep(v, k) == jstep(d, k))) && forall(k, string, imp(!jdomv(d, k), jstep(v, k) == jstep(b, k))) && forall(k, string, imp(jdomv(d, k) && docmap(jstep(d, k)) && docmap(jstep(b, k)), jstep(v, k) == mrg(container.MergeDefault, jstep(d, k), as(jstep(b, k), "map[string]interface{}"))))
func config.extends
  props C17
  requires c.c != nil && docmap(c.c.object)
  modifies *(c.c)
  let d = c.c.object
  let f = relto(as(extd(c.c.object), string), fp)
  let b = jcl(fdoc(relto(as(extd(c.c.object), string), fp)))
  ensures imp(!is(extd(d), string), err == nil && c.c.object == d)
  ensures imp(is(extd(d), string) && !fok(f), err != nil)
  ensures imp(is(extd(d), string) && fok(f) && fany(f) && jencok(jnorm(fdoc(f))), err == nil)
  ensures imp(is(extd(d), string) && fok(f) && fany(f) && !jencok(jnorm(fdoc(f))), err != nil)
  ensures imp(err == nil && is(extd(d), string) && fany(f) && docmap(b), c.c.object == mrg(container.MergeDefault, d, as(b, "map[string]interface{}")))
  ensures imp(err == nil && is(extd(d), string) && fany(f) && docmap(b), keeps(c.c.object, d, b))
  ensures imp(err == nil && is(extd(d), string) && fany(f) && !docmap(b), c.c.object == d)
  hint ny: mnofail(container.MergeDefault)
define fbase(d, f) = !is(extd(d), string) || fany(f)
define ceff(d, b) = ite(is(extd(d), string), ite(docmap(b), mrg(container.MergeDefault, d, as(b, "map[string]interface{}")), d), d)
define cset(v, name) = cfield(jdec(jenc(v)), name)
define csets(d, b, name, x) = imp(is(jstep(d, name), string), x == as(jstep(d, name), string)) && imp(is(extd(d), string) && docmap(b) && !jdomv(d, name) && is(jstep(b, name), string), x == as(jstep(b, name), string))
func config.ReadYAML
  props C17
  let d = jnorm(ydec(bytestr(data)))
  let f = relto(as(extd(d), string), "")
  let b = jcl(fdoc(f))
  ensures imp(!yok(bytestr(data)), err != nil)
  ensures imp(err == nil && fbase(d, f), c.Dir == cset(ceff(d, b), "dir") && c.Format == cset(ceff(d, b), "format") && c.Output == cset(ceff(d, b), "output"))
  ensures imp(err == nil && fbase(d, f), csets(d, b, "dir", c.Dir) && csets(d, b, "format", c.Format) && csets(d, b, "output", c.Output))
func config.ReadJSON
  props C17
  let d = jdec(bytestr(data))
  let f = relto(as(extd(d), string), "")
  let b = jcl(fdoc(f))
  ensures imp(!jobjok(bytestr(data)), err != nil)
  ensures imp(err == nil && d != nil && fbase(d, f), c.Dir == cset(ceff(d, b), "dir") && c.Format == cset(ceff(d, b), "format") && c.Output == cset(ceff(d, b), "output"))
  ensures imp(err == nil && d != nil && fbase(d, f), csets(d, b, "dir", c.Dir) && csets(d, b, "format", c.Format) && csets(d, b, "output", c.Output))
func config.ReadFile
  props C17
  let d = fdoc(file)
  let f = relto(as(extd(d), string), fpdir(file))
  let b = jcl(fdoc(f))
  ensures imp(!fok(file), err != nil)
  ensures imp(fok(file) && fany(file) && is(extd(d), string) && !fok(f), err != nil)
  ensures imp(err == nil, c.FilePath == file)
  ensures imp(err == nil && fany(file) && fbase(d, f), c.Dir == cset(ceff(d, b), "dir") && c.Format == cset(ceff(d, b), "format") && c.Output == cset(ceff(d, b), "output"))
  ensures imp(err == nil && fany(file) && fbase(d, f), csets(d, b, "dir", c.Dir) && csets(d, b, "format", c.Format) && csets(d, b, "output", c.Output))
func main.toAbsPath
  props C17
  ensures result == relto(path, fallback)
define stdio(s) = s == "stdout" || s == "stderr"
func main.Config.full
  props C17 C18
  sets cout = cfg.Output
  sets cfmt = cfg.Format
  modifies ghost.cout, ghost.cfmt
  let file = relto(ff.Config, wdir)
  let d = fdoc(file)
  let f = relto(as(extd(d), string), fpdir(file))
  let b = jcl(fdoc(f))
  let v = ceff(d, b)
  let ok = ff.Config == "" || fany(file) && fbase(d, f)
  ensures [C17] imp(ff.Config == "", err == nil)
  ensures [C17] imp(ff.Config != "" && !fok(file), err != nil)
  ensures [C17] imp(err == nil && ff.Dir != "", cfg.Dir == relto(ff.Dir, wdir))
  ensures [C17] imp(err == nil && ok && ff.Dir == "" && ff.Config != "" && cset(v, "dir") != "", cfg.Dir == relto(cset(v, "dir"), fpdir(file)))
  ensures [C17] imp(err == nil && ok && ff.Dir == "" && (ff.Config == "" || cset(v, "dir") == ""), cfg.Dir == wdir)
  ensures [C17] imp(err == nil && ff.Format != "", cfg.Format == ff.Format)
  ensures [C17] imp(err == nil && ok && ff.Format == "" && ff.Config != "" && cset(v, "format") != "", cfg.Format == cset(v, "format"))
  ensures [C17] imp(err == nil && ok && ff.Format == "" && (ff.Config == "" || cset(v, "format") == ""), cfg.Format == "json:pretty")
  ensures [C17] imp(err == nil && ff.Output != "", cfg.Output == ite(stdio(ff.Output), ff.Output, relto(ff.Output, wdir)))
  ensures [C17] imp(err == nil && ok && ff.Output == "" && ff.Config != "" && cset(v, "output") != "", cfg.Output == ite(stdio(cset(v, "output")), cset(v, "output"), relto(cset(v, "output"), cfg.Dir)))
  ensures [C17] imp(err == nil && ok && ff.Output == "" && (ff.Config == "" || cset(v, "output") == ""), cfg.Output == "stdout")
