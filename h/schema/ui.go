package schema

// Langs are languages of display texts: the names as annotations spell them (first letter small in the tables).
var Langs = []string{"en", "zh", "zhCN", "de", "fr", "enUS", "ja"}

var uiTexts = []string{"Name", "Amount due", "名称", "Größe", "it's", "a \\\"quoted\\\" word", "50%", "$5", "${x}", "{count}", "back\\\\slash", "two\\nlines", "tab\\tbed", "\\u00e9t\\u00e9", "\\x41", "\\101", "😀", "<b>bold</b>", "a // b", "/* c */", "", " ", "x", "null", "\x00raw \"quotes\"", "\x00two\nlines", "\x00a\\b", "\x00$y", "\u2028", "`", "', '", "\\a\\v"}

// uiForms are kinds of form input; the ones of Dart and the ones of TypeScript overlap.
var uiForms = []string{"text", "menu", "date", "switch", "image", "file", "click", "radio", "pass", "datetime", "number", "month"}

func langTag(r *R) Tag {
	t := Tag{Name: "lang"}
	for _, k := range r.Perm(len(Langs))[:1+r.Int(4)] {
		t.KV = append(t.KV, KV{Langs[k], []string{Pick(r, uiTexts)}})
	}
	return t
}

// DecorateUI declares forms, tables and display texts.
func DecorateUI(r *R, p *Program, pct int) {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			switch d.Kind {
			case Enum:
				if !r.P(pct) {
					continue
				}
				d.Tags = append(d.Tags, Tag{Name: "ui", KV: []KV{{"form", []string{"true"}}}})
				for _, i := range d.Items {
					if r.P(75) {
						i.Tags = append(i.Tags, langTag(r))
					}
				}
			case Data:
				if r.P(15) {
					d.Tags = append(d.Tags, langTag(r))
				}
				if r.P(pct) {
					t := Tag{Name: "ui"}
					form, table := r.P(70), r.P(70)
					if form || !table {
						t.KV = append(t.KV, KV{"form", []string{Pick(r, []string{"true", "true", "true", "false"})}})
					}
					if table {
						t.KV = append(t.KV, KV{"table", []string{Pick(r, []string{"true", "true", "true", "false"})}})
					}
					if r.P(10) {
						t.KV = append(t.KV, KV{"suffix", []string{Pick(r, []string{"wide", "small_one"})}})
					}
					d.Tags = append(d.Tags, t)
				}
				for _, x := range d.Fields {
					if r.P(70) {
						x.Tags = append(x.Tags, langTag(r))
					}
					if !r.P(70) {
						continue
					}
					t := Tag{Name: "ui"}
					form, table := r.P(70), r.P(60)
					if form || !table {
						t.KV = append(t.KV, KV{"form", []string{uiForm(r, x.Type)}})
					}
					if table {
						v := Pick(r, []string{"text", "text", "image", "switch"})
						if x.Type.Name != "string" || x.Type.Shape == "map" {
							v = "text"
						}
						t.KV = append(t.KV, KV{"table", []string{v}})
					}
					if r.P(15) {
						t.KV = append(t.KV, KV{"onlyRead", []string{"true"}})
					}
					if r.P(15) {
						t.KV = append(t.KV, KV{"digit", []string{Pick(r, []string{"0", "2"})}})
					}
					if r.P(10) {
						t.KV = append(t.KV, KV{"width", []string{"120"}})
					}
					x.Tags = append(x.Tags, t)
				}
			}
		}
	}
}

// uiForm picks an input that suits the type.
func uiForm(r *R, t Type) string {
	switch {
	case t.Shape == "" && t.Name == "bool":
		return Pick(r, []string{"switch", "text"})
	case t.Name == "date" && t.Shape != "map":
		return Pick(r, []string{"date", "datetime", "month", "year", "dates"})
	case t.Shape == "" && !IsScalar(t.Name):
		return Pick(r, []string{"menu", "menu", "radio", "radioButton", "text"})
	case t.Name == "string" && t.Shape != "map":
		return Pick(r, []string{"text", "text", "image", "file", "pass", "click"})
	}
	return Pick(r, []string{"text", "text", "text", "number", "pass"})
}
