# C12: tags
extern structtag.Parse(tag) (r, err)
  ensures imp(err == nil && r != nil, tgtext(r) == tag) && imp(err == nil, tgok(tag)) && imp(err != nil, !tgok(tag))
  ensures imp(r == nil && err == nil, forall(k, string, !tghas(tag, k)))
extern structtag.Tags.Get(t, key) (r, err)
  pure
  requires t != nil
  ensures (err == nil) == tghas(tgtext(t), key)
  ensures imp(err == nil, r != nil && tgone(r) == tgval(tgtext(t), key))
extern structtag.Tag.Value(t) (r)
  pure
  ensures r == tgone(t)
extern tagparser.Parse(s) (r)
  ensures r != nil && fresh(r) && r.Name == tpname(s)
  ensures forall(k, string, has(r.Options, k) == tphas(s, k) && imp(tphas(s, k), r.Options[k] == tpopt(s, k)), has(r.Options, k))
  why the parsed value's name and options are functions of the text
extern strconv.ParseFloat(s, bits) (r, err)
  ensures imp(bits == 64, (err == nil) == pfltok(s) && imp(err == nil, r == pflt(s)))
extern strconv.Atoi(s) (r, err)
  ensures (err == nil) == pintok(s) && imp(err == nil, r == pint(s))
extern strconv.ParseBool(s) (r, err)
  ensures (err == nil) == pboolok(s) && imp(err == nil, r == pbool(s))
define bopt(s) = s == "" || pbool(s)
func tag.parseTag
  props C12
  requires tags != nil
  ensures (result != nil) == tghas(tgtext(tags), tag)
  ensures imp(result != nil, fresh(result) && result.Name == tpname(tgval(tgtext(tags), tag)))
  ensures imp(result != nil, forall(k, string, has(result.Options, k) == tphas(tgval(tgtext(tags), tag), k) && imp(has(result.Options, k), result.Options[k] == tpopt(tgval(tgtext(tags), tag), k)), has(result.Options, k)))
func tag.parseTagFloat
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || pfltok(m.Options[tag]))
  ensures *val == ite(has(m.Options, tag) && err == nil, pflt(m.Options[tag]), old(*val))
func tag.parseTagFloatPtr
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || pfltok(m.Options[tag]))
  ensures ite(has(m.Options, tag) && err == nil, *val != nil && fresh(*val) && **val == pflt(m.Options[tag]), *val == old(*val))
func tag.parseTagInt
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || pintok(m.Options[tag]))
  ensures *val == ite(has(m.Options, tag) && err == nil, pint(m.Options[tag]), old(*val))
func tag.parseTagIntPtr
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || pintok(m.Options[tag]))
  ensures ite(has(m.Options, tag) && err == nil, *val != nil && fresh(*val) && **val == pint(m.Options[tag]), *val == old(*val))
func tag.parseTagString
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures err == nil
  ensures *val == ite(has(m.Options, tag), m.Options[tag], old(*val))
func tag.parseTagBool
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || m.Options[tag] == "" || pboolok(m.Options[tag]))
  ensures *val == ite(has(m.Options, tag) && err == nil, bopt(m.Options[tag]), old(*val))
func tag.parseTagBoolPtr
  props C12
  requires m != nil && val != nil
  modifies *val
  ensures (err == nil) == (!has(m.Options, tag) || m.Options[tag] == "" || pboolok(m.Options[tag]))
  ensures ite(has(m.Options, tag) && err == nil, *val != nil && fresh(*val) && **val == bopt(m.Options[tag]), *val == old(*val))
define tgo(tags, k) = tgval(tgtext(tags), k)
define oksb(t, k) = !tphas(t, k) || tpopt(t, k) == "" || pboolok(tpopt(t, k))
define oksi(t, k) = !tphas(t, k) || pintok(tpopt(t, k))
define oksf(t, k) = !tphas(t, k) || pfltok(tpopt(t, k))
define setb(t, k, n, o) = oksb(t, k) && (n == ite(tphas(t, k), bopt(tpopt(t, k)), o))
define sets(t, k, n, o) = n == ite(tphas(t, k), tpopt(t, k), o)
define setbp(t, k, n, o) = oksb(t, k) && ite(tphas(t, k), n != nil && *n == bopt(tpopt(t, k)), n == o)
define setip(t, k, n, o) = oksi(t, k) && ite(tphas(t, k), n != nil && *n == pint(tpopt(t, k)), n == o)
define setfp(t, k, n, o) = oksf(t, k) && ite(tphas(t, k), n != nil && *n == pflt(tpopt(t, k)), n == o)
func tag.parseJSONTag
  props C12
  requires tags != nil && meta != nil
  modifies *meta
  let t = tgo(tags, "json")
  let on = tghas(tgtext(tags), "json") && tpname(t) != "-"
  ensures (err == nil) == (!on || oksb(t, "inline") && oksb(t, "omitempty"))
  ensures imp(!on, *meta == upd(old(*meta), Ignore, old(meta.Ignore) || tghas(tgtext(tags), "json")))
  ensures imp(on && err == nil, meta.Name == ite(tpname(t) == "", old(meta.Name), tpname(t)))
  ensures imp(on && err == nil, setbp(t, "inline", meta.Inline, old(meta.Inline)) && setb(t, "omitempty", meta.OmitEmpty, old(meta.OmitEmpty)))
  ensures imp(on, *meta == upd(old(*meta), Name, meta.Name, Inline, meta.Inline, OmitEmpty, meta.OmitEmpty))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < N, errs[i] == nil))
func tag.parseOAPITag
  props C12
  requires tags != nil && meta != nil
  modifies *meta
  let t = tgo(tags, "oapi")
  let on = tghas(tgtext(tags), "oapi") && tpname(t) != "-"
  ensures imp(!on, err == nil && *meta == upd(old(*meta), Ignore, old(meta.Ignore) || tghas(tgtext(tags), "oapi")))
  ensures imp(on && err != nil, !(oksb(t, "inline") && oksb(t, "omitempty") && oksb(t, "nullable") && oksb(t, "readonly") && oksb(t, "writeonly") && oksb(t, "deprecated") && oksb(t, "unique") && oksb(t, "required") && oksi(t, "maxlen") && oksi(t, "minlen") && oksi(t, "maxitems") && oksi(t, "minitems") && oksi(t, "maxprops") && oksi(t, "minprops") && oksf(t, "max") && oksf(t, "min") && oksf(t, "emax") && oksf(t, "emin") && oksf(t, "mulof")))
  ensures imp(on, meta.Name == ite(tpname(t) == "", old(meta.Name), tpname(t)) && meta.Ignore == old(meta.Ignore))
  ensures imp(on && err == nil, setbp(t, "inline", meta.Inline, old(meta.Inline)))
  ensures imp(on && err == nil, setb(t, "omitempty", meta.OmitEmpty, old(meta.OmitEmpty)))
  ensures imp(on && err == nil, setbp(t, "nullable", meta.Nullable, old(meta.Nullable)))
  ensures imp(on && err == nil, setb(t, "readonly", meta.ReadOnly, old(meta.ReadOnly)))
  ensures imp(on && err == nil, setb(t, "writeonly", meta.WriteOnly, old(meta.WriteOnly)))
  ensures imp(on && err == nil, setb(t, "deprecated", meta.Deprecated, old(meta.Deprecated)))
  ensures imp(on && err == nil, setb(t, "unique", meta.UniqItems, old(meta.UniqItems)))
  ensures imp(on && err == nil, setb(t, "required", meta.Required, old(meta.Required)))
  ensures imp(on && err == nil, setip(t, "maxlen", meta.MaxLen, old(meta.MaxLen)))
  ensures imp(on && err == nil, setip(t, "minlen", meta.MinLen, old(meta.MinLen)))
  ensures imp(on && err == nil, setip(t, "maxitems", meta.MaxItems, old(meta.MaxItems)))
  ensures imp(on && err == nil, setip(t, "minitems", meta.MinItems, old(meta.MinItems)))
  ensures imp(on && err == nil, setip(t, "maxprops", meta.MaxProps, old(meta.MaxProps)))
  ensures imp(on && err == nil, setip(t, "minprops", meta.MinProps, old(meta.MinProps)))
  ensures imp(on && err == nil, sets(t, "pattern", meta.Pattern, old(meta.Pattern)))
  ensures imp(on && err == nil, sets(t, "format", meta.Format, old(meta.Format)))
  ensures imp(on && err == nil, sets(t, "type", meta.Type, old(meta.Type)))
  ensures imp(on && err == nil, setfp(t, "max", meta.Max, old(meta.Max)))
  ensures imp(on && err == nil, setfp(t, "min", meta.Min, old(meta.Min)))
  ensures imp(on && err == nil, setfp(t, "emax", meta.EMax, old(meta.EMax)))
  ensures imp(on && err == nil, setfp(t, "emin", meta.EMin, old(meta.EMin)))
  ensures imp(on && err == nil, setfp(t, "mulof", meta.MulOf, old(meta.MulOf)))
  loop 1:
    invariant forall(i, int, imp(0 <= i && i < N, errs[i] == nil))
func tag.Parse
  props C12
  let j = tgval(rawtags, "json")
  let t = tgval(rawtags, "oapi")
  let jon = tghas(rawtags, "json") && tpname(j) != "-"
  let on = tghas(rawtags, "oapi") && tpname(t) != "-"
  ensures imp(rawtags == "", err == nil && meta == Tag{})
  ensures imp(rawtags != "" && !tgok(rawtags), err != nil)
  ensures imp(rawtags != "" && err == nil, meta.Ignore == (tghas(rawtags, "json") && !jon || tghas(rawtags, "oapi") && !on))
  ensures imp(rawtags != "" && err == nil, meta.Name == ite(on && tpname(t) != "", tpname(t), ite(jon, tpname(j), "")))
  ensures imp(rawtags != "" && err == nil, meta.OmitEmpty == ite(on && tphas(t, "omitempty"), bopt(tpopt(t, "omitempty")), jon && tphas(j, "omitempty") && bopt(tpopt(j, "omitempty"))))
  ensures imp(rawtags != "" && err == nil, (meta.Inline != nil) == (on && tphas(t, "inline") || jon && tphas(j, "inline")))
  ensures imp(rawtags != "" && err == nil && meta.Inline != nil, *meta.Inline == ite(on && tphas(t, "inline"), bopt(tpopt(t, "inline")), bopt(tpopt(j, "inline"))))
  ensures imp(rawtags != "" && err == nil, (meta.Nullable != nil) == (on && tphas(t, "nullable")) && imp(meta.Nullable != nil, *meta.Nullable == bopt(tpopt(t, "nullable"))))
  ensures imp(rawtags != "" && err == nil, meta.Required == (on && tphas(t, "required") && bopt(tpopt(t, "required"))))
  ensures imp(rawtags != "" && err == nil && !on, meta == Tag{Ignore: meta.Ignore, Name: meta.Name, Inline: meta.Inline, OmitEmpty: meta.OmitEmpty})
  ensures imp(rawtags != "" && err == nil && on, (meta.Min != nil) == tphas(t, "min") && (meta.Max != nil) == tphas(t, "max") && (meta.EMin != nil) == tphas(t, "emin") && (meta.EMax != nil) == tphas(t, "emax") && (meta.MulOf != nil) == tphas(t, "mulof"))
  ensures imp(rawtags != "" && err == nil && on, (meta.MinLen != nil) == tphas(t, "minlen") && (meta.MaxLen != nil) == tphas(t, "maxlen") && (meta.MinItems != nil) == tphas(t, "minitems") && (meta.MaxItems != nil) == tphas(t, "maxitems") && (meta.MinProps != nil) == tphas(t, "minprops") && (meta.MaxProps != nil) == tphas(t, "maxprops"))
  ensures imp(rawtags != "" && on && (!oksf(t, "min") || !oksf(t, "max") || !oksf(t, "emin") || !oksf(t, "emax") || !oksf(t, "mulof") || !oksi(t, "minlen") || !oksi(t, "maxlen") || !oksi(t, "minitems") || !oksi(t, "maxitems") || !oksi(t, "minprops") || !oksi(t, "maxprops") || !oksb(t, "required") || !oksb(t, "nullable")), err != nil)
  ensures imp(rawtags != "" && err == nil && on, meta.ReadOnly == (tphas(t, "readonly") && bopt(tpopt(t, "readonly"))) && meta.WriteOnly == (tphas(t, "writeonly") && bopt(tpopt(t, "writeonly"))) && meta.Deprecated == (tphas(t, "deprecated") && bopt(tpopt(t, "deprecated"))) && meta.UniqItems == (tphas(t, "unique") && bopt(tpopt(t, "unique"))))
  ensures imp(rawtags != "" && err == nil && on, meta.Pattern == ite(tphas(t, "pattern"), tpopt(t, "pattern"), "") && meta.Format == ite(tphas(t, "format"), tpopt(t, "format"), "") && meta.Type == ite(tphas(t, "type"), tpopt(t, "type"), ""))
  ensures imp(rawtags != "" && err == nil && on, imp(meta.Min != nil, *meta.Min == pflt(tpopt(t, "min"))) && imp(meta.Max != nil, *meta.Max == pflt(tpopt(t, "max"))) && imp(meta.EMin != nil, *meta.EMin == pflt(tpopt(t, "emin"))) && imp(meta.EMax != nil, *meta.EMax == pflt(tpopt(t, "emax"))) && imp(meta.MulOf != nil, *meta.MulOf == pflt(tpopt(t, "mulof"))))
  ensures imp(rawtags != "" && err == nil && on, imp(meta.MinLen != nil, *meta.MinLen == pint(tpopt(t, "minlen"))) && imp(meta.MaxLen != nil, *meta.MaxLen == pint(tpopt(t, "maxlen"))) && imp(meta.MinItems != nil, *meta.MinItems == pint(tpopt(t, "minitems"))) && imp(meta.MaxItems != nil, *meta.MaxItems == pint(tpopt(t, "maxitems"))) && imp(meta.MinProps != nil, *meta.MinProps == pint(tpopt(t, "minprops"))) && imp(meta.MaxProps != nil, *meta.MaxProps == pint(tpopt(t, "maxprops"))))
