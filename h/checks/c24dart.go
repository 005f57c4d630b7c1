package checks

import (
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"regexp"
	"sort"
	"strings"
)

var dartLoc = regexp.MustCompile(`\b(\w+)Localizations\.of\(context\)\.(\w+)`)

// the kinds of form entries that Dart knows
var dartForms = map[string]bool{"text": true, "click": true, "file": true, "image": true, "menu": true, "date": true, "switch": true}

func dartForm(_ schema.FieldRef, t *schema.Tag) bool { v, _ := t.Get("form"); return dartForms[v] }

// langOf reads a generated language table: language -> key -> text. "" is the default.
func (u *dartUnit) langOf(file, name string, langs map[string]bool, want map[string]langEntry) (map[string]map[string]string, *core.Result) {
	q := u.In.P.Files[file]
	if q == nil {
		return nil, core.Failf("file", "%s: there is no such file", file)
	}
	var abs *dartx.Class
	for _, c := range q.Classes {
		if c.Name == name+"Localizations" {
			abs = c
		}
	}
	if abs == nil {
		return nil, core.Failf("table", "%s: there is no table %sLocalizations", file, name)
	}
	keys := map[string]bool{}
	for _, f := range abs.Funcs {
		if f.Kind == "get" {
			keys[f.Name] = true
		}
	}
	for k := range want {
		if !keys[k] {
			return nil, core.Failf("key", "%s: table %s lacks key %s", file, name, k)
		}
	}
	for k := range keys {
		if _, ok := want[k]; !ok {
			return nil, core.Failf("key", "%s: table %s: unexpected key %s", file, name, k)
		}
	}
	got := map[string]map[string]string{}
	var bad *core.Result
	err := dartx.Guard(func() {
		del := u.In.Static(abs, "delegate")
		for l := range langs {
			o := u.In.Call(u.In.Get(del, "load"), []dartx.Value{&dartx.Ext{Name: "Locale", P: map[string]dartx.Value{"languageCode": l}}}, nil)
			got[l] = map[string]string{}
			for k := range keys {
				s, ok := u.In.Get(o, k).(string)
				if !ok {
					bad = core.Failf("shape", "%s: %s in language %q: %s is no text", file, name, l, k)
				}
				got[l][k] = s
			}
		}
	})
	if err != nil {
		return nil, core.Failf("load", "%s: reading the table %s: %v", file, name, err)
	}
	return got, bad
}

// judgeDartLang is C24 for Dart.
func judgeDartLang(c *core.Case, res *core.Result) *core.Result {
	p := c.Prog
	if !dartProblem(p, "") {
		return nil
	}
	u, bad := dartOpen(c)
	if bad != nil {
		return bad
	}
	all := map[string]bool{} // table.key
	ctx := &dartx.Ext{Name: "BuildContext", P: map[string]dartx.Value{}}
	for _, f := range p.Files {
		file := f.Base() + ".ui.dart"
		want := langTables(p, f, schema.UpperSnake, dartForm, hasKV("table"))
		var names []string
		for n := range want {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			hn := schema.Hump(n)
			langs := map[string]bool{"en": true, "xx": true}
			for _, e := range want[n] {
				for l := range langTexts(e.tags) {
					langs[l] = true
				}
			}
			got, bad := u.langOf(file, hn, langs, want[n])
			if bad != nil {
				return bad
			}
			for k, e := range want[n] {
				all[hn+"."+k] = true
				if _, ok := langTexts(e.tags)["xx"]; !ok && !readable(got["xx"][k], k) {
					return core.Failf("fallback", "%s: table %s, default language, key %s: %q is no readable form of the name", file, hn, k, got["xx"][k])
				}
			}
			if has := func() bool {
				for _, e := range want[n] {
					if _, ok := langTexts(e.tags)["xx"]; ok {
						return true
					}
				}
				return false
			}(); !has {
				delete(got, "xx")
			}
			if r := judgeTable("Dart "+file+": "+hn, want[n], got); r != nil {
				return r
			}
			res.Evals += len(want[n]) * len(langs)
			x := p.Visible(f, n)
			if x.Decl.Kind != schema.Enum {
				continue
			}
			// what an enumeration shows
			err := dartx.Guard(func() {
				for l, t := range got {
					u.In.Locale = l
					for _, it := range x.Decl.Items {
						k := schema.UpperSnake(it.Name)
						s, _ := u.call(u.In.Static(u.need(*x, ""), k), "toText", ctx).(string)
						if s != t[k] && bad == nil {
							bad = core.Failf("reference", "Dart enum %s, item %s, language %s: shown as %q, the table has %q", n, it.Name, l, s, t[k])
						}
					}
				}
				u.In.Locale = ""
			})
			if err != nil {
				return core.Failf("reference", "Dart enum %s: %v", n, err)
			}
			if bad != nil {
				return bad
			}
		}
		if q := u.In.P.Files[file]; q != nil {
			for _, c := range q.Classes {
				if n := strings.TrimSuffix(c.Name, "Localizations"); n != c.Name && strings.HasPrefix(c.Name, "Default") {
					found := false
					for _, m := range names {
						found = found || "Default"+schema.Hump(m) == n
					}
					if !found {
						return core.Failf("table", "%s has a table %s that nothing declares", file, c.Name)
					}
				}
			}
		}
	}
	for n, text := range u.Files {
		for _, m := range dartLoc.FindAllStringSubmatch(text, -1) {
			res.Evals++
			if !all[m[1]+"."+m[2]] {
				return core.Failf("reference", "%s shows the text %s, which no language table has", n, m[0])
			}
		}
	}
	return nil
}
