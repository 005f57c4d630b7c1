package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"math/big"
	"strconv"
	"strings"
)

// C29: Dart forms and tables show and store the declared fields.
func init() {
	core.Register(&core.Check{
		ID:    "C29",
		Rule:  "a form with two or more entries stored a value, or a table with two or more columns showed two or more rows; distinct programs and values",
		Quick: 6000, Thorough: 120000, Timeout: 60e9,
		Gen:     genC29,
		Shrinks: valueShrinks,
		Eval1:   evalC29,
		Assumptions: []string{
			"the Dart interpreter of C23 runs the generated builders; hbuf_flutter is not available: its form builders are taken as bags of properties (text, file and date entries hand over a text, click, menu and switch entries a value, image entries a list of images with a url), its tables as a map of columns",
			"a text entry of a data or a map, and date, file and image entries of types they cannot hold (lists for date and file, anything but texts for image and file) are judged by presence only",
			"numbers are shown with the declared digits (0 if none is declared); what is stored from an untouched entry is the shown value",
			"dates with a declared format are not read back by that format; texts with commas in lists are not read back",
		},
	})
}

var uiKinds = map[string]string{"text": "TextFormBuild", "click": "ClickFormBuild", "file": "FileFormBuild", "image": "ImageFormBuild", "menu": "MenuFormBuild", "date": "DatetimeFormBuild", "switch": "SwitchFormBuild"}

// formTaken are the names of a generated form's own members and variables (known finding form-member-names).
var formTaken = map[string]bool{"info": true, "readOnly": true, "sizes": true, "padding": true, "build": true, "context": true, "builder": true}

func genC29(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	cfg.MaxServers = 0
	cfg.MinEnums, cfg.MaxEnums = 1, 3
	cfg.MaxDatas = 5
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	schema.DecorateUI(r, p, 85)
	if r.P(40) {
		schema.DecorateVerify(r, p, 50)
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			for _, x := range d.Fields {
				t := schema.GetTag(x.Tags, "ui")
				if t == nil {
					continue
				}
				if k, ok := t.Get("form"); ok && !dartForms[k] {
					for i := range t.KV {
						if t.KV[i].K == "form" && r.P(80) {
							t.KV[i].V = []string{"text"}
							if x.Type.Name == "date" {
								t.KV[i].V[0] = "date"
							}
						}
					}
				}
				add := func(pct int, k string, v ...string) {
					if _, ok := t.Get(k); !ok && r.P(pct) {
						t.KV = append(t.KV, schema.KV{K: k, V: v})
					}
				}
				add(15, "index", strconv.Itoa(r.Range(0, 30)))
				add(10, "maxLine", strconv.Itoa(r.Range(1, 9)))
				add(10, "maxCount", strconv.Itoa(r.Range(1, 9)))
				add(15, "clip", schema.Pick(r, []string{"true", "false"}))
				add(15, "height", schema.Pick(r, []string{"64", "0.5", "1200"}))
				add(15, "extensions", schema.Pick(r, [][]string{{"png"}, {"png", "jpg"}, {"tar.gz", "zip", "7z"}, {"\x00png", "j\\u0070g", "a$b", "it's", "\\\"q\\\""}})...)
				if x.Type.Name == "date" {
					add(25, "format", schema.Pick(r, []string{"yyyy-MM-dd", "HH:mm", "yyyy/MM/dd HH:mm:ss", "dd.MM.yyyy", "yyyy年MM月dd日", "\x00yyyy/MM", "dd\\u002eMM\\x2eyyyy", "$yyyy-${MM}"}))
				}
			}
		}
	}
	if r.P(10) { // names that the builders use themselves
		if x := schema.Pick(r, p.Decls(schema.Data)); len(x.Decl.Fields) > 0 {
			n := schema.Pick(r, []string{"info", "read_only", "sizes", "padding", "context", "build", "list", "select", "on_select", "tables", "builder", "ui", "item", "val", "e"})
			q := p.Clone()
			schema.Pick(r, x.Decl.Fields).Name = n
			all := map[int]bool{}
			for i := range p.Files {
				all[i] = true
			}
			if len(p.Validate(all)) > 0 {
				p = q
			}
		}
	}
	c := &core.Case{Prog: p}
	cfgV := schema.ValCfg{Depth: 2, MaxLen: r.Range(1, 4)}
	for _, x := range p.Decls(schema.Data) {
		if schema.GetTag(x.Decl.Tags, "ui") == nil {
			continue
		}
		for k := 1 + r.Int(3); k > 0; k-- {
			var vs []any
			for n := 2 + r.Int(3); n > 0; n-- {
				v := p.GenData(r, x, cfgV)
				for _, f := range p.AllFields(x) { // addresses of images
					if s, ok := v[f.Field.Name].(string); ok && f.Field.Type.Name == "string" && f.Field.Type.Shape == "" && r.P(20) {
						v[f.Field.Name] = schema.Pick(r, []string{"http://", "https://x/"}) + s
					}
				}
				vs = append(vs, v)
			}
			loc := "en"
			if r.P(60) {
				loc = schema.LowerHump(schema.Pick(r, schema.Langs))
			}
			c.Ops = append(c.Ops, core.Op{Op: "ui", Args: map[string]string{"type": x.Decl.Name, "locale": loc, "ro": strconv.FormatBool(r.P(20)), "select": strconv.Itoa(r.Int(8))}, J: must(vs)})
		}
	}
	return c
}

// uiTag is a field's ui annotation with defaults.
type uiTag struct {
	form, table, format string
	only, clip          bool
	digit, index        int64
	hasIndex            bool
	w, h                float64
	line, count         int64
	ext                 []string
}

func readUI(t *schema.Tag) *uiTag {
	u := &uiTag{w: 300, h: 300, line: 1, count: 1}
	num := func(k string, p *int64) bool {
		s, ok := t.Get(k)
		if ok {
			*p, _ = strconv.ParseInt(s, 10, 64)
		}
		return ok
	}
	u.form, _ = t.Get("form")
	u.table, _ = t.Get("table")
	u.format, _ = t.Get("format")
	u.format = schema.Meaning(u.format)
	o, _ := t.Get("onlyRead")
	c, _ := t.Get("clip")
	u.only, u.clip = o == "true", c == "true"
	num("digit", &u.digit)
	u.hasIndex = num("index", &u.index)
	num("maxLine", &u.line)
	num("maxCount", &u.count)
	if s, ok := t.Get("width"); ok {
		u.w, _ = strconv.ParseFloat(s, 64)
	}
	if s, ok := t.Get("height"); ok {
		u.h, _ = strconv.ParseFloat(s, 64)
	}
	for _, kv := range t.KV {
		if kv.K == "extensions" {
			for _, v := range kv.V {
				u.ext = append(u.ext, schema.Meaning(v))
			}
		}
	}
	return u
}

type uiCase struct {
	*dartUnit
	x    schema.Ref
	ctx  *dartx.Ext
	vs   []map[string]any
	at   string
	res  *core.Result
	lang dartx.Value
}

func (u *uiCase) bad(sig, f string, a ...any) {
	panic(core.Failf(sig, "%s: %s", u.at, fmt.Sprintf(f, a...)))
}

// show is the text of a value; ok is false if it is not judged.
func (u *uiCase) show(f *schema.File, t schema.Type, v any, ui *uiTag, format string) (string, bool) {
	if v == nil {
		return "", true
	}
	one := func(v any) (string, bool) {
		if v == nil {
			return "", true
		}
		switch t.Name {
		case "bool":
			return fmt.Sprint(v), true
		case "string":
			return v.(string), true
		case "float", "double":
			d := u.elem(f, t.Name, v).(float64)
			r := new(big.Rat).SetFloat64(d)
			return r.FloatString(int(ui.digit)), true
		case "decimal":
			r, _ := new(big.Rat).SetString(v.(string))
			return r.FloatString(int(ui.digit)), true
		case "date":
			if ui.format != "" {
				format = ui.format
			}
			n, _ := strconv.ParseInt(v.(string), 10, 64)
			return dartx.DateText(n, format), true
		}
		if schema.IsScalar(t.Name) {
			return v.(string), true
		}
		x := u.P.Visible(f, t.Name)
		if x.Decl.Kind == schema.Enum {
			s, ok := u.call(u.elem(f, t.Name, v), "toText", u.ctx).(string)
			return s, ok
		}
		return "", false
	}
	switch t.Shape {
	case "map":
		return "", false
	case "array":
		var ss []string
		for _, e := range v.([]any) {
			s, ok := one(e)
			if !ok {
				return "", false
			}
			ss = append(ss, s)
		}
		return strings.Join(ss, ","), true
	}
	return one(v)
}

// entry is what a person enters for a value.
func (u *uiCase) entry(f *schema.File, t schema.Type, v any) (string, bool) {
	if v == nil {
		return "", true
	}
	one := func(v any) (string, bool) {
		if v == nil {
			return "", true
		}
		switch t.Name {
		case "date":
			n, _ := strconv.ParseInt(v.(string), 10, 64)
			return dartx.DateText(n, "yyyy-MM-dd HH:mm:ss.SSS"), true
		case "bool":
			return fmt.Sprint(v), true
		case "decimal":
			r, _ := new(big.Rat).SetString(v.(string))
			return r.FloatString(30), true
		}
		if schema.IsScalar(t.Name) {
			return v.(string), true
		}
		x := u.P.Visible(f, t.Name)
		if x.Decl.Kind != schema.Enum {
			return "", false
		}
		s, ok := u.In.Get(u.elem(f, t.Name, v), "name").(string)
		return s, ok
	}
	switch t.Shape {
	case "map":
		return "", false
	case "array":
		var ss []string
		for _, e := range v.([]any) {
			s, ok := one(e)
			if !ok || strings.Contains(s, ",") {
				return "", false
			}
			ss = append(ss, s)
		}
		return strings.Join(ss, ","), len(ss) != 1 || ss[0] != ""
	}
	return one(v)
}

// back is the value that an untouched text stands for.
func (u *uiCase) back(f *schema.File, t schema.Type, v any, ui *uiTag) (any, bool) {
	if v == nil {
		return nil, true
	}
	one := func(v any) (any, bool) {
		if v == nil {
			return nil, true
		}
		switch t.Name {
		case "float", "double", "decimal":
			s, _ := u.show(f, schema.Type{Name: t.Name}, v, ui, "")
			if t.Name == "decimal" {
				r, _ := new(big.Rat).SetString(s)
				return r.RatString(), true
			}
			x, _ := strconv.ParseFloat(s, 64)
			return strconv.FormatFloat(x, 'g', -1, 64), true
		case "date":
			n, _ := strconv.ParseInt(v.(string), 10, 64)
			m := n % 1000
			if m < 0 {
				m += 1000
			}
			return strconv.FormatInt(n-m, 10), ui.format == ""
		case "string":
			return v, !(v == "" && t.Null)
		}
		return v, schema.IsScalar(t.Name)
	}
	switch t.Shape {
	case "map":
		return nil, false
	case "array":
		o := []any{}
		for _, e := range v.([]any) {
			b, ok := one(e)
			if s, is := e.(string); !ok || t.Name == "string" && is && strings.Contains(s, ",") || t.Name == "string" && e == nil {
				return nil, false
			}
			o = append(o, b)
		}
		if len(o) == 1 && (o[0] == nil || o[0] == "") {
			return nil, false
		}
		return o, true
	}
	return one(v)
}

// norm is the object's fields for comparing; a list that may be absent is the same as an empty one.
func (u *uiCase) norm(v any) any {
	m, ok := canon(u.P, u.x, v).(map[string]any)
	if !ok {
		return v
	}
	o := map[string]any{}
	for k, e := range m {
		if l, ok := e.([]any); ok {
			var q []any
			for _, y := range l {
				if y == "-0" {
					y = "0"
				}
				q = append(q, y)
			}
			if e = q; len(q) == 0 {
				e = nil
			}
		} else if e == "-0" {
			e = "0"
		}
		o[k] = e
	}
	return o
}

func evalC29(c *core.Case) (out *core.Result) {
	p := c.Prog
	if !dartProblem(p, "") {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	if c.Args["allow"] != "names" {
		for _, x := range p.Decls(schema.Data) {
			if t := schema.GetTag(x.Decl.Tags, "ui"); t != nil {
				if v, _ := t.Get("form"); v == "true" {
					for _, f := range p.AllFields(x) {
						if formTaken[schema.LowerHump(f.Field.Name)] {
							return &core.Result{Labels: []string{"outside the domain"}}
						}
					}
				}
			}
		}
	}
	d, bad := dartOpen(c)
	if bad != nil {
		return bad
	}
	res := &core.Result{}
	for i, o := range c.Ops {
		x := declOf(p, schema.Data, o.Args["type"])
		if x == nil {
			continue
		}
		tag := schema.GetTag(x.Decl.Tags, "ui")
		var vs []any
		if tag == nil || json.Unmarshal(o.J, &vs) != nil || len(vs) == 0 {
			continue
		}
		u := &uiCase{dartUnit: d, x: *x, ctx: &dartx.Ext{Name: "BuildContext", P: map[string]dartx.Value{}}, res: res}
		for _, v := range vs {
			w := p.Fit(*x, v)
			dartDomain(p, *x, w)
			u.vs = append(u.vs, w)
		}
		var fail *core.Result
		err := dartx.Guard(func() {
			defer func() {
				if e := recover(); e != nil {
					if r, ok := e.(*core.Result); ok {
						fail = r
						return
					}
					panic(e)
				}
			}()
			u.In.Locale = o.Args["locale"]
			if v, _ := tag.Get("form"); v == "true" {
				u.at = fmt.Sprintf("form of %s, input %d", x.Decl.Name, i)
				u.judgeForm(o.Args["ro"] == "true")
			}
			if v, _ := tag.Get("table"); v == "true" {
				u.at = fmt.Sprintf("table of %s, input %d", x.Decl.Name, i)
				n, _ := strconv.Atoi(o.Args["select"])
				u.judgeTab(n)
			}
		})
		u.In.Locale = ""
		if fail != nil {
			return fail
		}
		if err != nil {
			return core.Failf("throws", "%s throws: %v", u.at, err)
		}
	}
	for _, f := range p.Files { // nothing beyond the declared ones
		q := d.In.P.Files[f.Base()+".ui.dart"]
		if q == nil {
			continue
		}
		want := map[string]bool{}
		for _, y := range f.Decls {
			if t := schema.GetTag(y.Tags, "ui"); t != nil && y.Kind == schema.Data {
				if v, _ := t.Get("form"); v == "true" {
					want["Form"+schema.Hump(y.Name)+"Build"] = true
				}
				if v, _ := t.Get("table"); v == "true" {
					want["Table"+schema.Hump(y.Name)+"Build"] = true
				}
			}
		}
		for _, k := range q.Classes {
			if strings.HasSuffix(k.Name, "Build") && !want[k.Name] {
				return core.Failf("extra", "%s.ui.dart has a class %s that nothing declares", f.Base(), k.Name)
			}
		}
	}
	return res
}

func (u *uiCase) builder(name string) *dartx.Class {
	n := u.x.File.Base() + ".ui.dart"
	if q := u.In.P.Files[n]; q != nil {
		for _, k := range q.Classes {
			if k.Name == name {
				return k
			}
		}
	}
	u.bad("missing", "there is no class %s in %s", name, n)
	return nil
}

func (u *uiCase) label(f schema.FieldRef) string {
	texts := langTexts(f.Field.Tags)
	q := u.In.P.Files[u.x.File.Base()+".ui.dart"]
	for _, k := range q.Classes {
		if k.Name == schema.Hump(u.x.Decl.Name)+"Localizations" {
			o := u.In.Call(u.In.Static(k, "of"), []dartx.Value{u.ctx}, nil)
			s, _ := u.In.Get(o, schema.LowerHump(f.Field.Name)).(string)
			if w, ok := texts[u.In.Locale]; ok && s != w {
				u.bad("text", "the table of texts has %q for %s in %s, declared is %q", s, f.Field.Name, u.In.Locale, w)
			}
			return s
		}
	}
	u.bad("text", "there is no table of texts")
	return ""
}

func ext(v dartx.Value, name string) *dartx.Ext {
	if e, ok := v.(*dartx.Ext); ok && e.Name == name {
		return e
	}
	return nil
}

func uiName(v dartx.Value) string {
	if e, ok := v.(*dartx.Ext); ok {
		return e.Name
	}
	return dartx.Kind(v)
}

func (u *uiCase) judgeForm(ro bool) {
	p, in := u.P, u.In
	name := schema.Hump(u.x.Decl.Name)
	cls := u.builder("Form" + name + "Build")
	v := u.vs[0]
	o := u.obj(u.x, v)
	sizes, padding := &dartx.Map{}, &dartx.Ext{Name: "EdgeInsets", P: map[string]dartx.Value{}}
	in.MapSet(sizes, float64(600), int64(2))
	var fm dartx.Value
	if ro {
		fm = in.New(cls, []dartx.Value{o}, map[string]dartx.Value{"readOnly": true, "sizes": sizes, "padding": padding})
	} else {
		fm = in.New(cls, []dartx.Value{o}, map[string]dartx.Value{"sizes": sizes, "padding": padding})
	}
	built := 0
	var bargs []dartx.Value
	b := &dartx.Native{Name: "builder", F: func(in *dartx.Interp, a []dartx.Value, n map[string]dartx.Value) dartx.Value {
		built++
		bargs = a
		return nil
	}}
	l, ok := in.Call(in.Get(fm, "build"), []dartx.Value{u.ctx}, map[string]dartx.Value{"builder": b}).(*dartx.List)
	if !ok {
		u.bad("shape", "build gives no list")
	}
	if built != 1 || len(bargs) != 2 || bargs[1] != fm {
		u.bad("builder", "the builder function was called %d times, with %d arguments", built, len(bargs))
	}
	var fs []schema.FieldRef
	for _, f := range p.AllFields(u.x) {
		if t := schema.GetTag(f.Field.Tags, "ui"); t != nil && uiKinds[readUI(t).form] != "" {
			fs = append(fs, f)
		}
	}
	if len(l.V) != len(fs) {
		u.bad("entries", "%d entries instead of %d", len(l.V), len(fs))
	}
	now := v
	same := func(at string) {
		if d := diffNil("", u.norm(now), u.norm(u.fields(u.x, o))); d != "" {
			u.bad("stored", "%s: %s", at, d)
		}
	}
	same("after building")
	stored := 0
	for i, f := range fs {
		ui := readUI(schema.GetTag(f.Field.Tags, "ui"))
		n := schema.LowerHump(f.Field.Name)
		at := fmt.Sprintf("entry %s (%s, %s)", f.Field.Name, f.Field.Type.String(), ui.form)
		e := ext(in.Get(fm, n), uiKinds[ui.form])
		w := ext(l.V[i], "Widget")
		if e == nil || w == nil || w.P["of"] != dartx.Value(e) {
			u.bad("order", "%s: entry %d of the list is no %s built from %s", at, i, uiKinds[ui.form], n)
		}
		t := f.Field.Type
		isText := ui.form == "text" || (ui.form == "date" || ui.form == "file") && t.Shape == ""
		x := p.Visible(f.File, t.Name)
		isData := x != nil && x.Decl.Kind == schema.Data
		// what it shows
		if g, _ := e.P["readOnly"].(bool); g != (ro || ui.only) {
			u.bad("readonly", "%s: readOnly is %v", at, g)
		}
		dec := ext(e.P["decoration"], "InputDecoration")
		if dec == nil || dec.P["labelText"] != dartx.Value(u.label(f)) {
			u.bad("label", "%s: the label is not %q", at, u.label(f))
		}
		if e.P["widthSizes"] != dartx.Value(sizes) || e.P["padding"] != dartx.Value(padding) {
			u.bad("layout", "%s: sizes or padding are not handed on", at)
		}
		save, has := e.P["onSaved"]
		if has && ui.only {
			u.bad("readonly", "%s: an entry that only shows stores", at)
		}
		wantSave := !ui.only && !(isText && (t.Shape == "map" || isData))
		if (ui.form == "file" || ui.form == "date") && t.Shape != "" {
			wantSave = false
		}
		if wantSave && !has {
			u.bad("missing", "%s: nothing is stored", at)
		}
		one := func(text string, val dartx.Value, want any, how string) {
			if !has {
				return
			}
			in.Call(save, []dartx.Value{val}, nil)
			next := map[string]any{}
			for k, y := range now {
				next[k] = y
			}
			next[f.Field.Name] = want
			now = next
			same(fmt.Sprintf("%s: after storing %s %q", at, how, text))
			stored++
			u.res.Evals++
		}
		if isText {
			g, isS := e.P["initialValue"].(string)
			if !isS && e.P["initialValue"] != nil {
				u.bad("shape", "%s: the shown value is a %s instead of a text", at, uiName(e.P["initialValue"]))
			}
			wnt, judged := u.show(f.File, t, v[f.Field.Name], ui, "yyyy-MM-dd HH:mm:ss")
			if judged && g != wnt {
				u.bad("shown", "%s: shows %q instead of %q", at, g, wnt)
			}
			if wantSave {
				if bv, ok := u.back(f.File, t, v[f.Field.Name], ui); ok && (v[f.Field.Name] != nil || t.Nullable()) {
					one(g, g, bv, "the untouched text")
					if m, is := u.fields(u.x, o).(map[string]any); is && g == "" && v[f.Field.Name] == nil && t.Nullable() && m[f.Field.Name] != nil {
						u.bad("stored", "%s: storing the untouched text of an absent value stores %v", at, m[f.Field.Name])
					}
				}
				for _, y := range u.vs {
					s, ok := u.entry(f.File, t, y[f.Field.Name])
					if ok && (y[f.Field.Name] != nil || t.Nullable()) {
						wv := y[f.Field.Name]
						if t.Shape == "array" {
							if t.Null && t.Name == "string" {
								continue
							}
						} else if s == "" && t.Nullable() {
							wv = nil
						}
						one(s, s, wv, "the text")
					}
				}
			}
		}
		switch ui.form {
		case "text":
			if e.P["maxLines"] != dartx.Value(ui.line) {
				u.bad("layout", "%s: maxLines is %v instead of %d", at, e.P["maxLines"], ui.line)
			}
		case "file", "image":
			var got []string
			if g, ok := e.P["extensions"].(*dartx.List); ok {
				for _, y := range g.V {
					s, _ := y.(string)
					got = append(got, s)
				}
			}
			if strings.Join(got, "|") != strings.Join(ui.ext, "|") {
				u.bad("layout", "%s: extensions are %q instead of %q", at, got, ui.ext)
			}
		case "click", "menu", "switch":
			k := "initialValue"
			if ui.form == "menu" {
				k = "value"
			}
			if d := diffNil("", canonField(p, f.File, t, v[f.Field.Name]), canonField(p, f.File, t, u.fromDart(f.File, t, e.P[k]))); d != "" {
				u.bad("shown", "%s: %s", at, d)
			}
			if wantSave && (ui.form != "switch" || t.Name == "bool" && t.Shape == "") {
				for _, y := range u.vs {
					one(fmt.Sprint(y[f.Field.Name]), u.toDart(f.File, t, y[f.Field.Name]), y[f.Field.Name], "the value")
				}
			}
			if ui.form == "menu" && x != nil && x.Decl.Kind == schema.Enum && t.Shape == "" {
				u.judgeMenu(at, *x, e)
			}
		}
		if ui.form == "image" {
			if e.P["maxCount"] != dartx.Value(ui.count) || e.P["clip"] != dartx.Value(ui.clip) || num(e.P["outWidth"]) != ui.w || num(e.P["outHeight"]) != ui.h {
				u.bad("layout", "%s: maxCount %v, clip %v, outWidth %v, outHeight %v", at, e.P["maxCount"], e.P["clip"], e.P["outWidth"], e.P["outHeight"])
			}
			if t.Name == "string" && t.Shape != "map" {
				imgs := func(v any) (o []any) {
					switch y := v.(type) {
					case string:
						if !t.Null || strings.HasPrefix(y, "http") {
							o = append(o, y)
						}
					case []any:
						o = y
					}
					return
				}
				l, isL := e.P["initialValue"].(*dartx.List)
				if !isL {
					u.bad("shape", "%s: the shown value is a %s instead of a list", at, uiName(e.P["initialValue"]))
				}
				var got []any
				for _, y := range l.V {
					m := ext(y, "ImageFormImage")
					if m == nil {
						u.bad("shape", "%s: an image is a %s", at, uiName(y))
					}
					got = append(got, m.P["url"])
				}
				hasNil := false
				for _, y := range imgs(v[f.Field.Name]) {
					hasNil = hasNil || y == nil
				}
				if !hasNil && fmt.Sprintf("%q", got) != fmt.Sprintf("%q", imgs(v[f.Field.Name])) {
					u.bad("shown", "%s: shows %q instead of %q", at, got, imgs(v[f.Field.Name]))
				}
				for _, y := range u.vs {
					is := imgs(y[f.Field.Name])
					il := &dartx.List{}
					skip := len(is) == 0 && !t.Nullable() && t.Shape == ""
					for _, z := range is {
						skip = skip || z == nil
						il.V = append(il.V, &dartx.Ext{Name: "ImageFormImage", P: map[string]dartx.Value{"url": z}})
					}
					if skip || !wantSave {
						continue
					}
					var want any
					if t.Shape == "array" {
						want = append([]any{}, is...)
					} else if len(is) > 0 {
						want = is[0]
					}
					one(fmt.Sprint(is), il, want, "the images")
				}
			}
		}
		u.judgeValidator(at, f, ui, e)
	}
	if len(fs) > 1 && stored > 0 {
		u.res.NonTrivial = true
	}
}

func num(v dartx.Value) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	return -1
}

func (u *uiCase) judgeMenu(at string, x schema.Ref, e *dartx.Ext) {
	items, _ := e.P["items"].(*dartx.List)
	if items == nil {
		u.bad("menu", "%s: there are no items", at)
	}
	seen := map[string]int{}
	for _, y := range items.V {
		m := ext(y, "DropdownMenuItem")
		if m == nil {
			u.bad("menu", "%s: an item is a %s", at, uiName(y))
		}
		k := fmt.Sprint(u.In.Get(m.P["value"], "value"))
		seen[k]++
		tx := ext(m.P["child"], "Text")
		want := u.call(m.P["value"], "toText", u.ctx)
		if tx == nil || len(tx.A) != 1 || tx.A[0] != want {
			u.bad("menu", "%s: item %s does not show %q", at, k, want)
		}
	}
	if len(items.V) != len(x.Decl.Items) {
		u.bad("menu", "%s: %d items instead of %d", at, len(items.V), len(x.Decl.Items))
	}
	for _, it := range x.Decl.Items {
		if seen[schema.ItemNum(it.ID)] != 1 {
			u.bad("menu", "%s: item %s is there %d times", at, it.Name, seen[schema.ItemNum(it.ID)])
		}
	}
	if g, _ := e.P["toNull"].(bool); !g {
		u.bad("menu", "%s: no item can be taken back", at)
	}
}

func (u *uiCase) judgeValidator(at string, f schema.FieldRef, ui *uiTag, e *dartx.Ext) {
	if u.P.MultiDefined(u.x)[f.Field.Name] {
		return
	}
	has := false
	if fs, _ := u.P.Formats(f.File, f.Field.Tags); len(fs) > 0 {
		has = schema.GetTag(f.Field.Tags, "verify") != nil
	}
	val, ok := e.P["validator"]
	if ok && schema.GetTag(f.Field.Tags, "verify") == nil {
		u.bad("validator", "%s: there is a validator, nothing is declared", at)
	}
	if !has {
		return
	}
	if !ok {
		u.bad("validator", "%s: there is no validator", at)
	}
	var fn *dartx.Func
	name := "verify" + schema.Hump(u.x.Decl.Name) + "_" + schema.Hump(f.Field.Name)
	if q := u.In.P.Files[u.x.File.Base()+".verify.dart"]; q != nil {
		for _, g := range q.Funcs {
			if g.Name == name {
				fn = g
			}
		}
	}
	if fn == nil {
		u.bad("validator", "%s: there is no function %s", at, name)
	}
	t := f.Field.Type
	for _, y := range u.vs {
		var in, text dartx.Value
		v := y[f.Field.Name]
		switch ui.form {
		case "text", "file", "date":
			s, ok := u.entry(f.File, t, v)
			if !ok {
				continue
			}
			in, text = s, s
		case "click", "menu", "switch":
			in = u.toDart(f.File, t, v)
			if in != nil {
				text = "x"
				if s, ok := in.(string); ok {
					text = s
				} else if t.Shape == "" && schema.IsScalar(t.Name) {
					text, _ = u.entry(f.File, t, v)
				}
			}
		case "image":
			if t.Name != "string" || t.Shape == "map" {
				continue
			}
			l := &dartx.List{}
			add := func(e any) {
				if s, ok := e.(string); ok {
					if len(l.V) == 0 {
						text = s
					}
					l.V = append(l.V, &dartx.Ext{Name: "ImageFormImage", P: map[string]dartx.Value{"url": s}})
				}
			}
			if es, ok := v.([]any); ok {
				for _, e := range es {
					add(e)
				}
			} else {
				add(v)
			}
			in = l
		default:
			continue
		}
		w := u.In.CallFunc(fn, []dartx.Value{u.ctx, text})
		g := u.In.Call(val, []dartx.Value{in}, nil)
		if g != w {
			u.bad("validator", "%s: the validator says %v of %v, the verification %v", at, g, text, w)
		}
		u.res.Evals++
	}
}

func (u *uiCase) judgeTab(sel int) {
	p, in := u.P, u.In
	name := schema.Hump(u.x.Decl.Name)
	cls := u.builder("Table" + name + "Build")
	list := &dartx.List{}
	for _, v := range u.vs {
		list.V = append(list.V, u.obj(u.x, v))
	}
	calls := 0
	named := map[string]dartx.Value{}
	if sel&1 != 0 {
		named["onSelect"] = &dartx.Native{Name: "onSelect", F: func(in *dartx.Interp, a []dartx.Value, n map[string]dartx.Value) dartx.Value { calls++; return nil }}
	}
	if sel&2 != 0 {
		named["select"] = &dartx.List{Set: true}
	}
	tb := in.New(cls, []dartx.Value{list}, named)
	built := 0
	b := &dartx.Native{Name: "builder", F: func(in *dartx.Interp, a []dartx.Value, n map[string]dartx.Value) dartx.Value {
		built++
		if len(a) != 1 || a[0] != tb {
			built = 99
		}
		return nil
	}}
	w := ext(in.Call(in.Get(tb, "build"), []dartx.Value{u.ctx}, map[string]dartx.Value{"builder": b}), "Widget")
	tabs := ext(in.Get(tb, "tables"), "TablesBuild")
	if w == nil || tabs == nil || w.P["of"] != dartx.Value(tabs) {
		u.bad("shape", "build does not give the table")
	}
	if built != 1 {
		u.bad("builder", "the builder function was called %d times", built)
	}
	if tabs.P["rowCount"] != dartx.Value(int64(len(u.vs))) {
		u.bad("rows", "%v rows instead of %d", tabs.P["rowCount"], len(u.vs))
	}
	for y := range u.vs {
		r := ext(in.Call(tabs.P["rowBuilder"], []dartx.Value{u.ctx, int64(y)}, nil), "TablesRow")
		if r == nil || r.P["data"] != list.V[y] {
			u.bad("rows", "row %d has not the data number %d", y, y)
		}
	}
	cols, _ := in.Get(tabs, "columns").(*dartx.Map)
	got := map[string]*dartx.Ext{}
	for i, k := range cols.K {
		s, _ := k.(string)
		if got[s] = ext(cols.V[i], "TablesColumn"); got[s] == nil {
			u.bad("shape", "column %s is a %s", s, uiName(cols.V[i]))
		}
	}
	pos := int64(0)
	n := 0
	cell := func(col *dartx.Ext, x, y int) *dartx.Ext {
		q := ext(in.Call(col.P["cellBuilder"], []dartx.Value{u.ctx, int64(x), int64(y), list.V[y]}, nil), "TablesCell")
		if q == nil {
			u.bad("shape", "a cell is no TablesCell")
		}
		return q
	}
	for _, f := range p.AllFields(u.x) {
		tag := schema.GetTag(f.Field.Tags, "ui")
		if tag == nil {
			continue
		}
		ui := readUI(tag)
		if ui.table == "" {
			continue
		}
		pos++
		key := schema.LowerHump(f.Field.Name)
		at := "column " + f.Field.Name + " (" + f.Field.Type.String() + ")"
		col := got[key]
		if col == nil {
			u.bad("column", "%s is missing", at)
		}
		delete(got, key)
		want := pos
		if ui.hasIndex {
			want = ui.index
		}
		if col.P["index"] != dartx.Value(want) {
			u.bad("index", "%s: index %v instead of %d", at, col.P["index"], want)
		}
		h := ext(in.Call(col.P["headerBuilder"], []dartx.Value{u.ctx}, nil), "TablesCell")
		var ht *dartx.Ext
		if h != nil {
			ht = ext(h.P["child"], "Text")
		}
		if ht == nil || len(ht.A) != 1 || ht.A[0] != dartx.Value(u.label(f)) {
			u.bad("label", "%s: the header does not show %q", at, u.label(f))
		}
		n++
		for y, v := range u.vs {
			q, _ := cell(col, int(pos), y).P["child"].(*dartx.Ext)
			if q == nil {
				u.bad("shape", "%s, row %d: the cell is empty", at, y)
			}
			u.res.Evals++
			val := v[f.Field.Name]
			if ui.table == "image" {
				if l, ok := val.([]any); ok {
					if val = nil; len(l) > 0 {
						val = l[0]
					}
				}
				s, _ := val.(string)
				if strings.HasPrefix(s, "http") {
					if q.Name != "Image.network" || len(q.A) != 1 || q.A[0] != dartx.Value(s) {
						u.bad("cell", "%s, row %d: shows no image %q", at, y, s)
					}
				} else if q.Name != "SizedBox" {
					u.bad("cell", "%s, row %d: shows %s for %q", at, y, q.Name, s)
				}
				continue
			}
			tx := ext(q.P["child"], "Text")
			if q.Name != "Tooltip" || tx == nil || len(tx.A) != 1 {
				u.bad("cell", "%s, row %d: shows no text", at, y)
			}
			g, ok1 := tx.A[0].(string)
			m, ok2 := q.P["message"].(string)
			if !ok1 || !ok2 {
				u.bad("shape", "%s, row %d: the shown value is a %s, the hint a %s", at, y, uiName(tx.A[0]), uiName(q.P["message"]))
			}
			wnt, judged := u.show(f.File, f.Field.Type, val, ui, "yyyy/MM/dd HH:mm:ss")
			if judged && (g != wnt || m != wnt) {
				u.bad("cell", "%s, row %d: shows %q with the hint %q instead of %q", at, y, g, m, wnt)
			}
		}
	}
	if sel&1 != 0 {
		col := got["select_checkbox"]
		if col == nil {
			u.bad("select", "rows cannot be selected")
		}
		delete(got, "select_checkbox")
		head := func() *dartx.Ext {
			h := ext(in.Call(col.P["headerBuilder"], []dartx.Value{u.ctx}, nil), "TablesCell")
			if h == nil || ext(h.P["child"], "Checkbox") == nil {
				u.bad("select", "the header has no box")
			}
			return ext(h.P["child"], "Checkbox")
		}
		model := make([]bool, len(u.vs))
		judge := func(at string) {
			k := 0
			for y := range model {
				q := ext(cell(col, 0, y).P["child"], "Checkbox")
				if q == nil {
					u.bad("select", "row %d has no box", y)
				}
				if q.P["value"] != dartx.Value(model[y]) {
					u.bad("select", "%s: row %d selected: %v instead of %v", at, y, q.P["value"], model[y])
				}
				if model[y] {
					k++
				}
			}
			var want dartx.Value
			if k == len(model) {
				want = true
			} else if k == 0 {
				want = false
			}
			if g := head().P["value"]; g != want {
				u.bad("select", "%s: the header's box is %v instead of %v", at, g, want)
			}
		}
		judge("at first")
		for k := 0; k < 6; k++ {
			y := (k*5 + sel) % (len(model) + 1)
			if y == len(model) {
				q := head()
				all := true
				for _, m := range model {
					all = all && m
				}
				var to dartx.Value
				if !all {
					to = true
				}
				in.Call(q.P["onChanged"], []dartx.Value{to}, nil)
				for i := range model {
					model[i] = !all
				}
			} else {
				in.Call(ext(cell(col, 0, y).P["child"], "Checkbox").P["onChanged"], []dartx.Value{!model[y]}, nil)
				to := !model[y]
				for i := range model { // equal rows are the same element of the set
					if i == y || u.eq(list.V[i], list.V[y]) {
						model[i] = to
					}
				}
			}
			judge(fmt.Sprintf("after tap %d (%d)", k, y))
			if calls != k+1 {
				u.bad("select", "after %d taps onSelect was called %d times", k+1, calls)
			}
		}
	}
	for k := range got {
		u.bad("column", "there is a column %s that nothing declares", k)
	}
	if n > 1 && len(u.vs) > 1 {
		u.res.NonTrivial = true
	}
}
