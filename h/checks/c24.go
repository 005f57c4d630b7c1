package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"hv/tsx"
	"regexp"
	"sort"
	"strings"
)

// C24: language tables hold every declared text for every language.
func init() {
	core.Register(&core.Check{
		ID:    "C24",
		Rule:  "a table with two or more languages and two or more keys, one of them without a text in some language, was read; distinct programs",
		Quick: 1500, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   tsx.Setup,
		Gen:     genC24,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return tsBatch(cs, func(c *core.Case) bool { return validTS(c.Prog) }, tsOpt{UI: true}, evalC24)
		},
		Assumptions: []string{
			"the text of an annotation is a string literal: an escape that Go's strconv.Unquote does not accept leaves the text as written",
			"where a key has no text in a language, any spelling of the name is accepted that has the same letters and digits, starts with a capital if it starts with a letter and has no leading, trailing or double blank",
			"texts that a data or a field without a form or table entry declares are not shown anywhere and not judged",
		},
	})
}

func genC24(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	cfg.MaxServers = 1
	cfg.MinEnums, cfg.MaxEnums = 1, 3
	cfg.MaxDatas = 5
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	schema.DecorateUI(r, p, 80)
	if r.P(20) {
		schema.DecorateVerify(r, p, 40)
	}
	return &core.Case{Prog: p}
}

// langEntry is a key of a language table with the declared texts.
type langEntry struct {
	name string // as declared
	tags []schema.Tag
}

// langTables are the tables a file's declarations ask for: table -> key -> entry. show tells whether a field's
// ui annotation asks for an entry.
func langTables(p *schema.Program, f *schema.File, itemKey func(string) string, form, table func(schema.FieldRef, *schema.Tag) bool) map[string]map[string]langEntry {
	o := map[string]map[string]langEntry{}
	for _, d := range f.Decls {
		u := schema.GetTag(d.Tags, "ui")
		if u == nil {
			continue
		}
		t := map[string]langEntry{}
		switch d.Kind {
		case schema.Enum:
			for _, i := range d.Items {
				t[itemKey(i.Name)] = langEntry{i.Name, i.Tags}
			}
		case schema.Data:
			vf, _ := u.Get("form")
			vt, _ := u.Get("table")
			for _, x := range p.AllFields(schema.Ref{File: f, Decl: d}) {
				if w := schema.GetTag(x.Field.Tags, "ui"); w != nil && (vf == "true" && form(x, w) || vt == "true" && table(x, w)) {
					t[schema.LowerHump(x.Field.Name)] = langEntry{x.Field.Name, x.Field.Tags}
				}
			}
		}
		if len(t) > 0 {
			o[d.Name] = t
		}
	}
	return o
}

func hasKV(k string) func(schema.FieldRef, *schema.Tag) bool {
	return func(_ schema.FieldRef, t *schema.Tag) bool { v, _ := t.Get(k); return v != "" }
}

// langTexts are the texts a lang annotation declares per language (as the tables name it).
func langTexts(tags []schema.Tag) map[string]string {
	o := map[string]string{}
	if t := schema.GetTag(tags, "lang"); t != nil {
		for _, kv := range t.KV {
			o[schema.LowerHump(kv.K)] = schema.Meaning(kv.V[0])
		}
	}
	return o
}

// readable tells whether a text is a readable spelling of a name.
func readable(s, name string) bool {
	if s == "" || s != strings.TrimSpace(s) || strings.Contains(s, "  ") || strings.Contains(s, "_") {
		return false
	}
	if s[0] >= 'a' && s[0] <= 'z' {
		return false
	}
	return strings.ToLower(strings.ReplaceAll(s, " ", "")) == strings.ToLower(strings.ReplaceAll(name, "_", ""))
}

// judgeTable compares one table {language: {key: text}} with the entries.
func judgeTable(at string, want map[string]langEntry, got map[string]map[string]string) *core.Result {
	langs := map[string]bool{"en": true}
	for _, e := range want {
		for l := range langTexts(e.tags) {
			langs[l] = true
		}
	}
	for l := range got {
		if !langs[l] {
			return core.Failf("language", "table %s has a language %s that no text declares", at, l)
		}
	}
	for l := range langs {
		t, ok := got[l]
		if !ok {
			return core.Failf("language", "table %s lacks language %s", at, l)
		}
		for k := range t {
			if _, ok := want[k]; !ok {
				return core.Failf("key", "table %s, language %s: unexpected key %s", at, l, k)
			}
		}
		for k, e := range want {
			s, ok := t[k]
			if !ok {
				return core.Failf("key", "table %s, language %s lacks key %s", at, l, k)
			}
			if w, ok := langTexts(e.tags)[l]; ok {
				if s != w {
					return core.Failf("text", "table %s, language %s, key %s: declared %q, table has %q", at, l, k, w, s)
				}
			} else if !readable(s, k) {
				return core.Failf("fallback", "table %s, language %s, key %s without a text: %q is no readable form of the name", at, l, k, s)
			}
		}
	}
	return nil
}

var dollarT = regexp.MustCompile(`\$t\("([^"]*)"\)`)

func evalC24(u *tsUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	keys := map[string]bool{} // table.key of all tables
	type job struct {
		f    *schema.File
		want map[string]map[string]langEntry
	}
	var jobs []job
	var ops []*gop
	for _, f := range p.Files {
		want := langTables(p, f, schema.Hump, hasKV("form"), hasKV("table"))
		_, has := u.Files[f.Base()+".lang.ts"]
		if has != (len(want) > 0) {
			return core.Failf("file", "%s.lang.ts: written %v, tables declared %v", f.Base(), has, len(want))
		}
		if !has {
			continue
		}
		for n, t := range want {
			for k := range t {
				keys[lowerFirst(schema.Hump(n))+"Lang."+k] = true
			}
		}
		jobs = append(jobs, job{f, want})
		ops = append(ops, &gop{Op: "lang", Name: "./" + f.Base() + ".lang"})
	}
	var enums []schema.Ref
	for _, x := range p.Decls(schema.Enum) {
		enums = append(enums, x)
		ops = append(ops, &gop{Op: "enum", Name: x.Decl.Name})
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		if reps[i].Panic != "" {
			return core.Failf("load", "%s.lang.ts does not load: %s", j.f.Base(), reps[i].Panic)
		}
		got := map[string]map[string]map[string]string{}
		for n, t := range reps[i].M {
			got[n] = map[string]map[string]string{}
			tm, ok := t.(map[string]any)
			if !ok {
				return core.Failf("shape", "%s.lang.ts: %s is no table", j.f.Base(), n)
			}
			for l, ks := range tm {
				got[n][l] = map[string]string{}
				km, ok := ks.(map[string]any)
				if !ok {
					return core.Failf("shape", "%s.lang.ts: %s.%s is no table", j.f.Base(), n, l)
				}
				for k, v := range km {
					s, ok := v.(string)
					if !ok {
						return core.Failf("shape", "%s.lang.ts: %s.%s.%s is no text but %v", j.f.Base(), n, l, k, v)
					}
					got[n][l][k] = s
				}
			}
		}
		for n := range j.want {
			tn := lowerFirst(schema.Hump(n)) + "Lang"
			t, ok := got[tn]
			if !ok {
				return core.Failf("table", "%s.lang.ts lacks table %s", j.f.Base(), tn)
			}
			if r := judgeTable(j.f.Base()+".lang.ts: "+tn, j.want[n], t); r != nil {
				return r
			}
			res.Evals += len(j.want[n]) * len(t)
			miss := false
			for _, e := range j.want[n] {
				miss = miss || len(langTexts(e.tags)) < len(t)
			}
			if len(t) > 1 && len(j.want[n]) > 1 && miss {
				res.NonTrivial = true
			}
			delete(got, tn)
		}
		for n := range got {
			return core.Failf("table", "%s.lang.ts has a table %s that nothing declares", j.f.Base(), n)
		}
	}
	var names []string
	for n := range u.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if strings.HasSuffix(n, ".tsx") {
			for _, m := range dollarT.FindAllStringSubmatch(u.Files[n], -1) {
				res.Evals++
				if !keys[m[1]] {
					return core.Failf("reference", "%s shows the text %s, which no language table has", n, m[1])
				}
			}
		}
	}
	for i, x := range enums {
		rep := reps[len(jobs)+i]
		if rep.Panic != "" {
			return core.Failf("enum", "%s: %s", x.Decl.Name, rep.Panic)
		}
		if schema.GetTag(x.Decl.Tags, "ui") == nil {
			continue
		}
		tm, _ := rep.M["text"].(map[string]any)
		for _, it := range x.Decl.Items {
			res.Evals++
			k := fmt.Sprint(tm[schema.Hump(it.Name)])
			if !keys[k] || k != lowerFirst(schema.Hump(x.Decl.Name))+"Lang."+schema.Hump(it.Name) {
				return core.Failf("reference", "enum %s, item %s: its text is looked up as %s", x.Decl.Name, it.Name, k)
			}
		}
	}
	if f := judgeDartLang(u.Case, res); f != nil {
		return f
	}
	return res
}

func lowerFirst(s string) string {
	if s == "" {
		return s
	}
	return strings.ToLower(s[:1]) + s[1:]
}
