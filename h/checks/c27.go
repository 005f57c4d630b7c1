package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/schema"
	"hv/tsx"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"
)

// C27: generated forms and tables show and edit exactly the declared fields.
func init() {
	core.Register(&core.Check{
		ID:    "C27",
		Rule:  "a generated form or table with two or more rows was rendered and an input was operated or a cell compared; distinct programs and values",
		Quick: 1000, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   tsx.Setup,
		Gen:     genC27,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return tsBatch(cs, func(c *core.Case) bool { return validTS(c.Prog) }, tsOpt{UI: true}, evalC27)
		},
		Assumptions: []string{
			"vue, element-plus and the application's helpers ($t, $fd, $timeToLocal, $timeToUtc) are stand-ins: a component is its set-up function, an element a description, time zone conversions are recorded and undone",
			"texts typed into an input are spellings of values of the field's type; what an input keeps of other texts is not judged",
			"cells of lists, maps and data, and inputs whose kind does not fit the field, are judged by presence only; numbers are judged to half a unit of the last declared digit",
		},
	})
}

type uiQuery struct {
	Position []string          `json:"position"`
	Hide     []string          `json:"hide"`
	Slots    []string          `json:"slots"`
	Events   []uiEvent         `json:"events"`
	Verify   map[string]string `json:"verify"`
}

type uiEvent struct {
	Field string   `json:"field"`
	Prop  string   `json:"prop"`
	Text  *string  `json:"text,omitempty"`
	Flag  *bool    `json:"flag,omitempty"`
	Date  *string  `json:"date,omitempty"`
	Dates []string `json:"dates,omitempty"`
	Range bool     `json:"range,omitempty"` // the picker reports the first and the last month or day
}

func genC27(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	cfg.MaxServers = 0
	cfg.MinEnums, cfg.MaxEnums = 1, 3
	cfg.MaxDatas = 5
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	schema.DecorateUI(r, p, 85)
	if r.P(50) {
		schema.DecorateVerify(r, p, 50)
	}
	c := &core.Case{Prog: p}
	for _, x := range p.Decls(schema.Data) {
		u := schema.GetTag(x.Decl.Tags, "ui")
		for _, kind := range []string{"form", "table"} {
			if v, _ := u.Get(kind); v != "true" {
				continue
			}
			for n := 1 + r.Int(2); n > 0; n-- {
				var q uiQuery
				fs := p.AllFields(x)
				some := func(pct int) (o []string) {
					for _, i := range r.Perm(len(fs)) {
						if r.P(pct) {
							o = append(o, fs[i].Field.Name)
						}
					}
					return
				}
				if r.P(40) {
					q.Position = some(40)
					if r.P(30) {
						q.Position = append(q.Position, "nowhere")
					}
				}
				if r.P(40) {
					q.Hide = some(30)
				}
				if r.P(20) {
					q.Slots = some(20)
					if r.P(50) {
						q.Slots = append(q.Slots, "extraRow")
					}
				}
				if kind == "form" {
					for k := 0; k < 12 && len(fs) > 0; k++ {
						if e := genEvent(r, p, schema.Pick(r, fs)); e != nil {
							q.Events = append(q.Events, *e)
						}
					}
				}
				b, _ := json.Marshal(q)
				v, _ := json.Marshal(p.GenData(r, x, schema.ValCfg{Depth: 2, MaxLen: 3}))
				c.Ops = append(c.Ops, core.Op{Op: "ui", Args: map[string]string{"type": x.Decl.Name, "kind": kind, "q": string(b)}, J: v})
			}
		}
	}
	return c
}

// genEvent is something a user does to the input of a field.
func genEvent(r *schema.R, p *schema.Program, f schema.FieldRef) *uiEvent {
	t := f.Field.Type
	e := &uiEvent{Field: f.Field.Name}
	str := func(s string) *uiEvent { e.Text = &s; return e }
	if t.Shape == "array" && t.Name == "date" {
		if t.Nullable() && r.P(15) {
			return e // cleared
		}
		for n := r.Int(3); n >= 0; n-- {
			e.Dates = append(e.Dates, schema.GenScalar(r, "date").(string))
		}
		return e
	}
	if t.Shape != "" {
		return nil
	}
	if t.Null && r.P(15) {
		if t.Name == "date" {
			return e // cleared
		}
		if t.Name != "decimal" || r.P(50) {
			return str("")
		}
	}
	switch t.Name {
	case "bool":
		v := r.P(50)
		if r.P(50) {
			e.Flag = &v
			return e
		}
		return str(fmt.Sprint(v))
	case "date":
		s := schema.GenScalar(r, "date").(string)
		e.Date = &s
		return e
	case "float", "double":
		return str(schema.Pick(r, []string{"0", "1", "-1", "1.5", "-2.25", "1234567", "0.125", "+3.5", "65536"}))
	}
	if schema.IsScalar(t.Name) {
		s, _ := schema.GenScalar(r, t.Name).(string)
		return str(s)
	}
	if x := p.Visible(f.File, t.Name); x != nil && x.Decl.Kind == schema.Enum && len(x.Decl.Items) > 0 {
		return str(schema.Hump(schema.Pick(r, x.Decl.Items).Name))
	}
	return nil
}

// enumText is the number of the item that a text names.
func enumText(p *schema.Program, f schema.FieldRef, s string) (string, bool) {
	if x := p.Visible(f.File, f.Field.Type.Name); x != nil && x.Decl.Kind == schema.Enum {
		for _, i := range x.Decl.Items {
			if schema.Hump(i.Name) == s {
				return schema.ItemNum(i.ID), true
			}
		}
	}
	return "", false
}

func tsTyped(t schema.Type) bool { return t.Shape == "" && schema.IsScalar(t.Name) }

func evalC27(u *tsUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	type job struct {
		x    schema.Ref
		kind string
		v    map[string]any
		q    uiQuery
		fs   []schema.FieldRef // with an entry, in order
	}
	var jobs []job
	var ops []*gop
	for _, o := range u.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		j := job{x: *x, kind: o.Args["kind"], v: v}
		json.Unmarshal([]byte(o.Args["q"]), &j.q)
		if s, _ := schema.GetTag(x.Decl.Tags, "ui").Get(j.kind); s != "true" {
			continue
		}
		props := map[string]string{}
		j.q.Verify = map[string]string{}
		for _, f := range p.AllFields(*x) {
			props[f.Field.Name] = schema.LowerHump(f.Field.Name)
			if schema.GetTag(f.Field.Tags, "verify") != nil {
				j.q.Verify[schema.LowerHump(f.Field.Name)] = schema.Hump(f.Field.Name)
			}
			if s, _ := schema.GetTag(f.Field.Tags, "ui").Get(j.kind); s != "" {
				j.fs = append(j.fs, f)
			}
		}
		conv := func(l []string) []string {
			for i, s := range l {
				if props[s] != "" {
					l[i] = props[s]
				}
			}
			return l
		}
		j.q.Position, j.q.Hide, j.q.Slots = conv(j.q.Position), conv(j.q.Hide), conv(j.q.Slots)
		var es []uiEvent
		for _, e := range j.q.Events {
			e.Prop = props[e.Field]
			multi := e.Date
			for _, f := range j.fs {
				if f.Field.Name == e.Field && eventFits(p, f, e) && !has(j.q.Slots, e.Prop) && (!has(j.q.Hide, e.Prop) || has(j.q.Position, e.Prop)) {
					if multi != nil && formOf(f) == "dates" { // this picker reports a list
						e.Date, e.Dates = nil, []string{*multi}
					}
					e.Range = e.Dates != nil && f.Field.Type.Shape == "array" && has([]string{"month", "date"}, formOf(f))
					es = append(es, e)
				}
			}
		}
		j.q.Events = es
		jobs = append(jobs, j)
		name := "FormItems"
		if j.kind == "table" {
			name = "TableColumn"
		}
		ops = append(ops, &gop{Op: "ui", Type: x.Decl.Name, Name: name, Text: "./" + x.File.Base() + ".ui", Value: v, J: j.q})
	}
	if len(ops) == 0 {
		return res
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		rep := reps[i]
		at := fmt.Sprintf("%s of %s", j.kind, j.x.Decl.Name)
		if rep.Panic != "" {
			return core.Failf("throws", "rendering or operating the %s throws: %s\nvalue %s", at, rep.Panic, show(j.v))
		}
		var m struct {
			Rows   []uiRow   `json:"rows"`
			Events []uiReply `json:"events"`
		}
		b, _ := json.Marshal(rep.M)
		dec := json.NewDecoder(strings.NewReader(string(b)))
		dec.UseNumber()
		if err := dec.Decode(&m); err != nil {
			return &core.Result{Infra: err.Error()}
		}
		// which rows, in which order
		var keys, want, got []string
		for _, f := range j.fs {
			keys = append(keys, schema.LowerHump(f.Field.Name))
		}
		for _, s := range j.q.Slots {
			if !has(keys, s) {
				keys = append(keys, s)
			}
		}
		for _, k := range j.q.Position {
			if has(keys, k) && !has(want, k) {
				want = append(want, k)
			}
		}
		for _, k := range keys {
			if !has(want, k) && !has(j.q.Hide, k) {
				want = append(want, k)
			}
		}
		rows := map[string]*uiRow{}
		for i := range m.Rows {
			got = append(got, m.Rows[i].Prop)
			rows[m.Rows[i].Prop] = &m.Rows[i]
		}
		if strings.Join(got, " ") != strings.Join(want, " ") {
			return core.Failf("rows", "the %s shows %v, declared are %v (position %v, hidden %v, slots %v)", at, got, want, j.q.Position, j.q.Hide, j.q.Slots)
		}
		if len(got) > 1 {
			res.NonTrivial = true
		}
		for _, f := range j.fs {
			k := schema.LowerHump(f.Field.Name)
			r := rows[k]
			if r == nil {
				continue
			}
			if has(j.q.Slots, k) {
				if r.Tag != "slot" {
					return core.Failf("slot", "the %s: a slot for %s is not used", at, k)
				}
				continue
			}
			res.Evals++
			if r.Label != lowerFirst(schema.Hump(j.x.Decl.Name))+"Lang."+k {
				return core.Failf("label", "the %s: field %s is labelled %q", at, k, r.Label)
			}
			var w string
			if j.kind == "table" {
				w = judgeCell(p, f, j.v[f.Field.Name], r)
			} else {
				w = judgeInput(p, f, j.v[f.Field.Name], r)
			}
			if w != "" {
				return core.Failf(j.kind+"-"+strings.SplitN(w, ":", 2)[0], "the %s, field %s: %s\nvalue %s", at, k, w, show(j.v))
			}
		}
		for n, e := range j.q.Events {
			res.Evals++
			rep := m.Events[n]
			var f schema.FieldRef
			for _, g := range j.fs {
				if g.Field.Name == e.Field {
					f = g
				}
			}
			if w := judgeEvent(p, f, e, rep); w != "" {
				eb, _ := json.Marshal(e)
				return core.Failf("event", "the %s, input of %s, event %s: %s", at, e.Prop, eb, w)
			}
		}
	}
	return res
}

type uiRow struct {
	Tag, Prop, Label, Input, Rule string
	Type                          *string
	Disabled, Clearable           bool
	Value, Cell                   any
	Options                       [][]string
	Rules                         int
}

type uiReply struct {
	None   bool
	Err    string
	Value  any
	Others []string
}

func has(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

func formOf(f schema.FieldRef) string {
	s, _ := schema.GetTag(f.Field.Tags, "ui").Get("form")
	return s
}

var dateForms = []string{"datetime", "date", "dates", "year", "month"}

// eventFits: the input of the field has the event.
func eventFits(p *schema.Program, f schema.FieldRef, e uiEvent) bool {
	t, form := f.Field.Type, formOf(f)
	switch {
	case t.Name == "date" && t.Shape == "array":
		if e.Dates == nil {
			return has(dateForms, form) && t.Nullable() && e.Text == nil && e.Flag == nil && e.Date == nil
		}
		if has([]string{"month", "date"}, form) {
			return len(e.Dates) == 2 && inYears(e.Dates[0]) && inYears(e.Dates[1])
		}
		return has([]string{"datetime", "dates", "year"}, form)
	case t.Shape != "":
		return false
	case t.Name == "date":
		return has(dateForms, form) && (e.Date != nil || e.Text == nil && e.Flag == nil && e.Dates == nil && t.Null)
	case form == "switch":
		return t.Name == "bool" && e.Flag != nil
	case has([]string{"menu", "radio", "radioButton"}, form) || has(dateForms, form):
		return false
	}
	if !schema.IsScalar(t.Name) {
		if e.Text == nil {
			return false
		}
		_, ok := enumText(p, f, *e.Text)
		return ok || *e.Text == "" && t.Null && p.Visible(f.File, t.Name).Decl.Kind == schema.Enum
	}
	if e.Text == nil || *e.Text == "" {
		return e.Text != nil && (t.Null || t.Name == "string")
	}
	switch t.Name {
	case "bool":
		return *e.Text == "true" || *e.Text == "false"
	case "string", "float", "double":
		_, err := strconv.ParseFloat(*e.Text, 64)
		return err == nil || t.Name == "string"
	}
	return fmt.Sprint((&schema.Program{}).FitField(f.File, schema.Type{Name: t.Name}, *e.Text)) == *e.Text
}

// inYears: the date is one of the years of a calendar picker.
func inYears(ms string) bool {
	n, err := strconv.ParseInt(ms, 10, 64)
	y := time.UnixMilli(n).UTC().Year()
	return err == nil && y >= 1000 && y <= 9000
}

// rangeEnd is the last millisecond of the month or the day of a date.
func rangeEnd(ms, form string) string {
	n, _ := strconv.ParseInt(ms, 10, 64)
	d := time.UnixMilli(n).UTC()
	if form == "month" {
		d = time.Date(d.Year(), d.Month()+1, 1, 0, 0, 0, 0, time.UTC)
	} else {
		d = time.Date(d.Year(), d.Month(), d.Day()+1, 0, 0, 0, 0, time.UTC)
	}
	return strconv.FormatInt(d.UnixMilli()-1, 10)
}

func judgeEvent(p *schema.Program, f schema.FieldRef, e uiEvent, rep uiReply) string {
	t := f.Field.Type
	if rep.None {
		return "the input has no handler"
	}
	if rep.Err != "" {
		return "throws " + rep.Err
	}
	if len(rep.Others) > 0 {
		return fmt.Sprintf("changes the fields %v", rep.Others)
	}
	var want any
	switch {
	case e.Dates != nil && t.Shape == "":
		want = e.Dates[0]
	case e.Dates != nil:
		l := []any{}
		for _, d := range e.Dates {
			l = append(l, d)
		}
		if e.Range {
			l[1] = rangeEnd(e.Dates[1], formOf(f))
		}
		want = l
	case e.Date != nil:
		want = *e.Date
	case e.Flag != nil:
		want = *e.Flag
	case e.Text == nil, *e.Text == "" && t.Null:
		want = nil
	case t.Name == "bool":
		want = *e.Text == "true"
	case !schema.IsScalar(t.Name):
		want, _ = enumText(p, f, *e.Text)
	default:
		want = strings.TrimPrefix(*e.Text, "+")
		if t.Name == "string" {
			want = *e.Text
		}
	}
	a, b := canonField(p, f.File, t, want), canonField(p, f.File, t, rep.Value)
	if d := diffNil("", a, b); d != "" {
		return fmt.Sprintf("stores %s, expected %s", show(rep.Value), show(want))
	}
	return ""
}

func near(got any, want string, digits int) bool {
	s, ok := got.(string)
	if !ok {
		return false
	}
	g, ok1 := new(big.Rat).SetString(s)
	w, ok2 := new(big.Rat).SetString(want)
	if !ok1 || !ok2 {
		return false
	}
	if i := strings.IndexByte(s, '.'); !strings.ContainsAny(s, "eE") && (i < 0 && digits != 0 || i >= 0 && len(s)-i-1 != digits) {
		return false
	}
	half := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(digits)), nil)))
	d := new(big.Rat).Sub(g, w)
	return d.Abs(d).Cmp(half) <= 0
}

// judgeText compares the text shown for a scalar value.
func judgeText(p *schema.Program, f schema.FieldRef, v, got any, digits int) string {
	t := f.Field.Type
	if !schema.IsScalar(t.Name) {
		if x := p.Visible(f.File, t.Name); x == nil || x.Decl.Kind != schema.Enum {
			return ""
		}
	}
	bad := fmt.Sprintf("text: shows %s for the value %s", show(got), show(v))
	if v == nil {
		if got == nil || got == "" || isUndef(got) {
			return ""
		}
		return bad
	}
	ok := true
	switch t.Name {
	case "bool":
		ok = got == fmt.Sprint(v)
	case "float", "double":
		g, err := strconv.ParseFloat(v.(string), 64)
		if t.Name == "float" {
			g32, _ := strconv.ParseFloat(v.(string), 32)
			g = g32
		}
		if err != nil || math.Abs(g) >= 1e21 {
			return ""
		}
		// the value as the program holds it, exactly: a float may be held in single or double precision
		g64, _ := strconv.ParseFloat(v.(string), 64)
		exact := func(g float64) string { return new(big.Rat).SetFloat64(g).FloatString(1100) }
		ok = near(got, exact(g), digits) || near(got, exact(g64), digits) || near(got, v.(string), digits)
	case "decimal":
		ok = near(got, v.(string), digits)
	case "date":
		m, _ := got.(map[string]any)
		ok = m != nil && m["fd"] == v
	case "string":
		ok = got == v
	default:
		if schema.IsScalar(t.Name) {
			ok = got == v
			break
		}
		x := p.Visible(f.File, t.Name)
		if x == nil || x.Decl.Kind != schema.Enum {
			return ""
		}
		m, _ := got.(map[string]any)
		ok = false
		for _, i := range x.Decl.Items {
			if schema.ItemNum(i.ID) == v {
				ok = m != nil && m["t"] == lowerFirst(schema.Hump(x.Decl.Name))+"Lang."+schema.Hump(i.Name)
			}
		}
	}
	if !ok {
		return bad
	}
	return ""
}

func isUndef(v any) bool { m, ok := v.(map[string]any); return ok && m["u"] != nil }

func uiDigits(f schema.FieldRef) int {
	s, _ := schema.GetTag(f.Field.Tags, "ui").Get("digit")
	n, _ := strconv.Atoi(s)
	return n
}

func judgeCell(p *schema.Program, f schema.FieldRef, v any, r *uiRow) string {
	if r.Tag != "el-table-column" {
		return "tag: row is a " + r.Tag
	}
	t := f.Field.Type
	if k, _ := schema.GetTag(f.Field.Tags, "ui").Get("table"); k != "text" || t.Shape != "" {
		if r.Cell == nil {
			return "cell: nothing is shown"
		}
		return ""
	}
	return judgeText(p, f, v, r.Cell, uiDigits(f))
}

func judgeInput(p *schema.Program, f schema.FieldRef, v any, r *uiRow) string {
	if r.Tag != "el-form-item" {
		return "tag: row is a " + r.Tag
	}
	t, form := f.Field.Type, formOf(f)
	null := t.Null && t.Shape == "" || t.ONull && t.Shape != ""
	want := "el-input"
	switch {
	case has(dateForms, form):
		want = "el-date-picker"
	case form == "menu":
		want = "el-select"
	case form == "radio", form == "radioButton":
		want = "el-radio-group"
	case form == "switch":
		want = "el-switch"
	case form == "pass":
	case t.Shape == "array":
		want = "el-select"
	}
	if r.Input != want {
		return fmt.Sprintf("input: is %s, declared %s (%s)", r.Input, form, want)
	}
	ro, _ := schema.GetTag(f.Field.Tags, "ui").Get("onlyRead")
	if r.Disabled != (ro == "true") {
		return fmt.Sprintf("disabled: %v", r.Disabled)
	}
	if want != "el-radio-group" && want != "el-switch" && r.Clearable != null {
		return fmt.Sprintf("clearable: %v for nullable %v", r.Clearable, null)
	}
	if form == "pass" && (r.Type == nil || *r.Type != "password") {
		return "password: the input shows its text"
	}
	if want == "el-date-picker" {
		kind := form
		if t.Shape == "array" {
			kind = map[string]string{"datetime": "datetimerange", "month": "monthrange", "dates": "dates", "year": "years", "date": "daterange"}[form]
		}
		if r.Type == nil || *r.Type != kind {
			return fmt.Sprintf("picker: declared %s, picks %s", kind, show(r.Type))
		}
	}
	hasRule := schema.GetTag(f.Field.Tags, "verify") != nil
	if hasRule != (r.Rules == 1) || r.Rule != "" {
		return fmt.Sprintf("rules: %d rules, verification declared %v %s", r.Rules, hasRule, r.Rule)
	}
	switch {
	case want == "el-select" && form == "menu", want == "el-radio-group":
		x := p.Visible(f.File, t.Name)
		if x == nil || x.Decl.Kind != schema.Enum || t.Shape != "" {
			return ""
		}
		opt := map[string]string{"menu": "el-option", "radio": "el-radio", "radioButton": "el-radio-button"}[form]
		var ws, gs []string
		for _, i := range x.Decl.Items {
			ws = append(ws, fmt.Sprint([]string{opt, schema.ItemNum(i.ID), lowerFirst(schema.Hump(x.Decl.Name)) + "Lang." + schema.Hump(i.Name), schema.Hump(i.Name)}))
		}
		for _, o := range r.Options {
			gs = append(gs, fmt.Sprint(o))
		}
		if strings.Join(ws, "\n") != strings.Join(gs, "\n") {
			return fmt.Sprintf("options: %v, declared %v", gs, ws)
		}
	case want == "el-date-picker" && t.Shape == "":
		m, _ := r.Value.(map[string]any)
		if v == nil && r.Value != nil && !isUndef(r.Value) || v != nil && (m == nil || m["local"] != v) {
			return fmt.Sprintf("date: shows %s for %s", show(r.Value), show(v))
		}
	case want == "el-switch":
		if v != nil && r.Value != v {
			return fmt.Sprintf("switch: shows %s for %s", show(r.Value), show(v))
		}
	case want == "el-input" && t.Shape == "":
		return judgeText(p, f, v, r.Value, uiDigits(f))
	}
	return ""
}
