package schema

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// ---- verification formats

// Format is a declared format of an enumeration item.
type Format struct {
	Item          *Item
	Enum          *Decl
	Null          bool
	Min, Max, Reg string // "" when absent
}

// Formats lists the formats a field or data names in its verify annotation, in order; ok is false when one does not exist.
func (p *Program) Formats(f *File, tags []Tag) (out []Format, ok bool) {
	t := GetTag(tags, "verify")
	for _, v := range t.All("format") {
		parts := strings.Split(v, ".")
		if len(parts) != 2 {
			return nil, false
		}
		ref := p.Visible(f, parts[0])
		if ref == nil || ref.Decl.Kind != Enum {
			return nil, false
		}
		var it *Item
		for _, i := range ref.Decl.Items {
			if i.Name == parts[1] {
				it = i
			}
		}
		if it == nil {
			return nil, false
		}
		ft := GetTag(it.Tags, "format")
		if ft == nil {
			continue // names a message only
		}
		x := Format{Item: it, Enum: ref.Decl}
		n, _ := ft.Get("null")
		x.Null = n == "true"
		x.Min, _ = ft.Get("min")
		x.Max, _ = ft.Get("max")
		x.Reg, _ = ft.Get("reg")
		out = append(out, x)
	}
	return out, true
}

// Regs are patterns of the common subset of the targets' expression languages, with generators of matching texts.
var Regs = []struct {
	Re  string
	Gen func(r *R) string
}{
	{"^[a-z]+$", func(r *R) string { return rep(r, "abcz", 1, 6) }},
	{"^[0-9]{3,6}$", func(r *R) string { return rep(r, "0189", 3, 6) }},
	{"^1[3-9]\\\\d{9}$", func(r *R) string { return "1" + rep(r, "3589", 1, 1) + rep(r, "0123456789", 9, 9) }},
	{"^[a-zA-Z0-9_]+@[a-z]+\\\\.(com|org)$", func(r *R) string {
		return rep(r, "aZ0_", 1, 4) + "@" + rep(r, "qw", 1, 3) + "." + Pick(r, []string{"com", "org"})
	}},
	{"[A-Z]", func(r *R) string { return rep(r, "ab ", 0, 3) + rep(r, "AZ", 1, 1) + rep(r, "x1", 0, 2) }},
	{"^(a|bc)*$", func(r *R) string { return strings.Repeat(Pick(r, []string{"a", "bc", "abc"}), r.Int(4)) }},
	{"^.{2,4}$", func(r *R) string { return rep(r, "x é1", 2, 4) }},
	{"^\\\\w+-\\\\w+$", func(r *R) string { return rep(r, "a1_", 1, 3) + "-" + rep(r, "Zb", 1, 3) }},
	{"\\\\$\\\\d", func(r *R) string { return "$" + rep(r, "07", 1, 1) }},
	{"^a$|^bb$", func(r *R) string { return Pick(r, []string{"a", "bb"}) }},
	{"\x00^\\d{2}$|^\"[^$]*\"$|^\\$x$", func(r *R) string { return Pick(r, []string{"12", `"q"`, `""`, "$x"}) }},
	{"\x00^\\S+/\\S*$", func(r *R) string { return rep(r, "a'\\", 1, 3) + "/" + rep(r, "b/", 0, 2) }},
	{"^\\u00e9+\\t?\\\\.$", func(r *R) string { return rep(r, "é", 1, 3) + rep(r, "\t", 0, 1) + "." }},
	{"^'[^']*'$", func(r *R) string { return "'" + rep(r, "a$ \\", 0, 3) + "'" }},
	{"^\\\\$[0-9]+(\\\\.[0-9]{2})?$", func(r *R) string { return "$" + rep(r, "07", 1, 3) + Pick(r, []string{"", ".50"}) }},
	{"^\\U0001F600\\v?\\101$", func(r *R) string { return rep(r, "😀", 1, 1) + rep(r, "\v", 0, 1) + "A" }},
	{"\\a|\\x7e$", func(r *R) string { return Pick(r, []string{"\a", "x~"}) }},
	{"^[^\\\\s\\\"]+$", func(r *R) string { return rep(r, "a'\\$", 1, 5) }},
}

func rep(r *R, set string, lo, hi int) string {
	rs := []rune(set)
	s := ""
	for n := r.Range(lo, hi); n > 0; n-- {
		s += string(Pick(r, rs))
	}
	return s
}

// Bounds suggests bound texts of a scalar type.
func Bounds(r *R, typ string) string {
	switch typ {
	case "int8", "int16", "int32", "uint8", "uint16", "uint32", "int64", "uint64", "string":
		if r.P(12) { // a bound between two numbers or beyond the type
			return Pick(r, []string{"-1", "-0.5", "0.5", "1.5", "2.0", "-3.25", "9.99", "127.5", "-9223372036854775808", "-9223372036854775809", "9223372036854775807.5", "9223372036854775808", "18446744073709551615.5", "18446744073709551616", "-99999999999999999999", "99999999999999999999"})
		}
	}
	switch typ {
	case "int8", "int16", "int32", "uint8", "uint16", "uint32", "int64":
		return Pick(r, []string{"0", "1", "-1", "5", "10", "100", "-100", "127", "128", "-128", "-129", "255", "256", "32767", "-32768", "65535", "65536", "2147483647", "-2147483648", "4294967295", "4294967296", "9007199254740993", strconv.Itoa(r.Int(1000) - 500)})
	case "uint64":
		return Pick(r, []string{"0", "1", "5", "100", "255", "65536", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "18446744073709551615"})
	case "float", "double":
		return Pick(r, []string{"0", "1", "-1", "0.5", "-2.25", "100", "3.75", "1000000", "0.1", "-0.3"})
	case "decimal":
		return Pick(r, []string{"0", "1", "-1", "0.01", "99.99", "-12.345", "100", "123456789.123456789"})
	case "date":
		return Pick(r, []string{"1970-01-01T00:00:00Z", "2000-02-29T12:30:00Z", "2024-12-31T23:59:59Z", "1969-12-31T23:59:59Z", "2100-06-15T00:00:01Z"})
	case "string":
		return strconv.Itoa(Pick(r, []int{0, 1, 2, 3, 5, 8, 10}))
	}
	return strconv.Itoa(r.Int(10))
}

// DecorateVerify declares formats on enumeration items and verifies fields with them.
func DecorateVerify(r *R, p *Program, pct int) {
	kinds := map[*Item]string{} // item -> scalar type its format was made for
	for fi, f := range p.Files {
		var enums []*Decl
		see := []*File{f}
		for k := range f.Imports {
			if t := p.ImportTarget(fi, k); t >= 0 && t != fi {
				see = append(see, p.Files[t])
			}
		}
		for _, g := range see {
			for _, d := range g.Decls {
				if d.Kind == Enum && len(d.Items) > 0 {
					enums = append(enums, d)
				}
			}
		}
		if len(enums) == 0 {
			continue
		}
		for _, d := range f.Decls {
			if d.Kind != Data {
				continue
			}
			if r.P(60) && GetTag(d.Tags, "verify") == nil {
				d.Tags = append(d.Tags, Tag{Name: "verify"})
			}
			for _, x := range d.Fields {
				if !r.P(pct) || GetTag(x.Tags, "verify") != nil {
					continue
				}
				kind := x.Type.Name
				if x.Type.Shape != "" || !IsScalar(kind) || kind == "bool" {
					kind = "other"
				}
				var vs []string
				n := 1 + r.Geo(3)
				for k := 0; k < n; k++ {
					e := Pick(r, enums)
					var it *Item
					for _, i := range e.Items { // share an existing format of the kind, or declare a new one
						if (kinds[i] == kind || numeric(kind) && numeric(kinds[i])) && r.P(40) {
							it = i
						}
					}
					if it == nil {
						var free []*Item
						for _, i := range e.Items {
							if kinds[i] == "" {
								free = append(free, i)
							}
						}
						if len(free) == 0 {
							it = p.addItem(r, e)
						} else {
							it = Pick(r, free)
						}
						kinds[it] = kind
						if k == 0 || r.P(93) {
							it.Tags = append(it.Tags, GenFormat(r, kind))
						}
					}
					vs = append(vs, e.Name+"."+it.Name)
				}
				x.Tags = append(x.Tags, Tag{"verify", []KV{{"format", vs}}})
			}
		}
	}
}

// numeric tells whether formats of a kind may be shared with the other numbers.
func numeric(kind string) bool {
	return kind != "" && kind != "string" && kind != "date" && kind != "other"
}

func (p *Program) addItem(r *R, e *Decl) *Item {
	ids, names := map[int64]bool{}, map[string]bool{}
	for _, i := range e.Items {
		n, _ := strconv.ParseInt(i.ID, 0, 64)
		ids[n] = true
		names[Norm(i.Name)] = true
	}
	for k := len(e.Items); ; k++ {
		n := fmt.Sprintf("rule%d", k)
		id := int64(k + r.Int(50))
		if names[n] || ids[id] {
			continue
		}
		it := &Item{Name: n, ID: strconv.FormatInt(id, 10)}
		e.Items = append(e.Items, it)
		return it
	}
}

// GenFormat makes a format annotation for a scalar type ("other": anything that is not checked by value).
func GenFormat(r *R, kind string) Tag {
	t := Tag{Name: "format"}
	if r.P(60) {
		t.KV = append(t.KV, KV{"null", []string{Pick(r, []string{"true", "false", "true"})}})
	}
	lo, hi := r.P(60), r.P(60)
	if kind == "other" && r.P(70) {
		lo, hi = false, false
	}
	if lo {
		t.KV = append(t.KV, KV{"min", []string{Bounds(r, kind)}})
	}
	if hi {
		t.KV = append(t.KV, KV{"max", []string{Bounds(r, kind)}})
	}
	if kind == "string" && r.P(50) {
		t.KV = append(t.KV, KV{"reg", []string{Pick(r, Regs).Re}})
	}
	if len(t.KV) == 0 {
		t.KV = append(t.KV, KV{"null", []string{"false"}})
	}
	pm := r.Perm(len(t.KV))
	kv := make([]KV, len(pm))
	for i, k := range pm {
		kv[i] = t.KV[k]
	}
	t.KV = kv
	return t
}

var decText = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)

// ValidVerify tells whether every verify annotation of the program is inside the judged domain.
func (p *Program) ValidVerify() bool {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if d.Kind != Data {
				continue
			}
			if _, ok := p.Formats(f, d.Tags); !ok {
				return false
			}
			for _, x := range d.Fields {
				t := GetTag(x.Tags, "verify")
				if t == nil {
					continue
				}
				if len(t.All("format")) == 0 {
					return false
				}
				fs, ok := p.Formats(f, x.Tags)
				if !ok || len(fs) == 0 {
					return false
				}
				// the first named item must carry the format that decides about absence
				if v := t.All("format")[0]; v != fs[0].Enum.Name+"."+fs[0].Item.Name {
					return false
				}
				if x.Type.Shape != "" || !IsScalar(x.Type.Name) || x.Type.Name == "bool" {
					continue
				}
				for _, m := range fs {
					for _, b := range []string{m.Min, m.Max} {
						if b != "" && !boundFits(b, x.Type.Name) {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func boundFits(b, typ string) bool {
	switch typ {
	case "date":
		return len(b) == 20
	case "float", "double": // a bound that every text of its value means exactly
		n := len(strings.Trim(strings.ReplaceAll(strings.TrimPrefix(b, "-"), ".", ""), "0"))
		if typ == "float" && n > 6 || n > 15 {
			return false
		}
	}
	return decText.MatchString(b)
}

// ---- bound methods

// DecorateBind binds methods to methods of other servers where the types allow it: the parameter is the bound
// method's or extends it, the result is the bound one's or extends it, or there is no result.
func DecorateBind(r *R, p *Program, pct int) {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if d.Kind != Server {
				continue
			}
			for _, m := range d.Methods {
				if !r.P(pct) {
					continue
				}
				var cand []string
				for _, g := range p.Files {
					for _, s := range g.Decls {
						if s.Kind != Server || s == d {
							continue
						}
						if v := p.Visible(f, s.Name); v == nil || v.Decl != s {
							continue
						}
						for _, q := range s.Methods {
							if p.bindFits(f, m, g, q) {
								cand = append(cand, s.Name+"."+q.Name)
							}
						}
					}
				}
				if len(cand) > 0 {
					m.Tags = append(m.Tags, Tag{"bind", []KV{{"value", []string{Pick(r, cand)}}}})
				}
			}
		}
	}
}

func (p *Program) bindFits(f *File, m *Method, g *File, q *Method) bool {
	fits := func(a, b string, direct bool) bool {
		ra, rb := p.Visible(f, a), p.Visible(g, b)
		if ra == nil || rb == nil {
			return false
		}
		if ra.Decl == rb.Decl {
			return true
		}
		for _, x := range ra.Decl.Parents {
			if v := p.Visible(ra.File, x.Name); v != nil && v.Decl == rb.Decl {
				return true
			}
		}
		return false
	}
	if !fits(m.Param, q.Param, true) {
		return false
	}
	if m.Result == "void" {
		return true
	}
	return q.Result != "void" && fits(m.Result, q.Result, true)
}

// Bound finds the server and method a bind annotation names.
func (p *Program) Bound(f *File, m *Method) (*Ref, *Method) {
	v, ok := GetTag(m.Tags, "bind").Get("value")
	if !ok {
		return nil, nil
	}
	parts := strings.Split(v, ".")
	if len(parts) != 2 {
		return nil, nil
	}
	ref := p.Visible(f, parts[0])
	if ref == nil || ref.Decl.Kind != Server {
		return nil, nil
	}
	for _, q := range ref.Decl.Methods {
		if q.Name == parts[1] {
			return ref, q
		}
	}
	return nil, nil
}

func (p *Program) ValidBind() bool {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			for _, m := range d.Methods {
				if GetTag(m.Tags, "bind") == nil {
					continue
				}
				ref, q := p.Bound(f, m)
				if ref == nil || ref.Decl == d || !p.bindFits(f, m, ref.File, q) {
					return false
				}
			}
		}
	}
	return true
}

// ---- database annotations

// DB is one db annotation as declared; the one with the highest index counts.
type DB struct {
	Tag    *Tag
	Name   string
	Table  string
	Schema string
	Fake   bool
}

func dbTag(tags []Tag) *Tag {
	var best *Tag
	bi := -1
	for i := range tags {
		n := tags[i].Name
		if !strings.HasPrefix(n, "db") {
			continue
		}
		k := 0
		if n != "db" {
			v, err := strconv.Atoi(n[2:])
			if err != nil {
				continue
			}
			k = v
		}
		if k > bi {
			best, bi = &tags[i], k
		}
	}
	if best == nil {
		return nil
	}
	t := &Tag{Name: best.Name}
	for _, kv := range best.KV {
		c := KV{K: kv.K}
		for _, v := range kv.V {
			c.V = append(c.V, Meaning(v))
		}
		t.KV = append(t.KV, c)
	}
	return t
}

// quoteSQL adds quoted texts to the statement parts of an annotation, written with escapes or as raw strings.
func quoteSQL(r *R, t *Tag) {
	for i := range t.KV {
		kv := &t.KV[i]
		var form string
		switch kv.K {
		case "where":
			form = "%s AND note <> #"
		case "order":
			form = "FIELD(kind, #), %s"
		case "group":
			form = "%s, CONCAT(note, #)"
		case "set", "get":
			form = "CONCAT(%s, #)"
		default:
			continue
		}
		for j, v := range kv.V {
			text := strings.Replace(form, "%s", v, 1)
			switch r.Int(4) {
			case 0:
				text = strings.Replace(text, "#", `\"a b\"`, 1)
			case 1:
				text = strings.Replace(text, "#", `'a\\b\tc'`, 1)
			case 2:
				if strings.Contains(text, "`") {
					continue
				}
				text = "\x00" + strings.Replace(text, "#", `"a b"`, 1)
			default:
				if strings.Contains(text, "`") {
					continue
				}
				text = "\x00" + strings.Replace(text, "#", "\n  'a\\b'", 1)
			}
			kv.V[j] = text
		}
	}
}

func (t *Tag) str(k string) string { s, _ := t.Get(k); return s }

// DBOf reads the annotation that counts; nil when there is none.
func DBOf(name string, tags []Tag) *DB {
	t := dbTag(tags)
	if t == nil {
		return nil
	}
	d := &DB{Tag: t, Name: t.str("name"), Table: t.str("table"), Schema: t.str("schema"), Fake: true}
	if v, ok := t.Get("fake"); ok {
		d.Fake = strings.ToLower(v) == "true"
	}
	if d.Name == "" {
		d.Name = Snake(name)
	}
	return d
}

// Mode is "self", "parent" or "".
func (d *DB) Mode(op string) string {
	v := strings.ToLower(d.Tag.str(op))
	if op == "map" {
		if i := strings.IndexByte(v, ':'); i > 0 {
			v = v[i+1:]
		} else {
			v = ""
		}
	}
	if v == "self" || v == "parent" {
		return v
	}
	return ""
}
func (d *DB) On(op string) bool { return strings.ToLower(d.Tag.str(op)) == "true" }
func (d *DB) MapKey() string {
	v := d.Tag.str("map")
	if i := strings.IndexByte(v, ':'); i > 0 {
		return v[:i]
	}
	return ""
}

// MapKeyed says whether rows can be keyed by a field in every language's map: a number, text or item of an enumeration.
func (p *Program) MapKeyed(f DBField) bool {
	t := f.Field.Type
	if t.Shape != "" {
		return false
	}
	if intTypes[t.Name] || t.Name == "string" {
		return true
	}
	x := p.Visible(f.File, t.Name)
	return x != nil && x.Decl.Kind == Enum
}

// MapKeyText is the key a row goes under: an absent value counts as the type's zero.
func MapKeyText(t Type, v any) string {
	if v == nil {
		if t.Name == "string" {
			return ""
		}
		return "0"
	}
	return fmt.Sprint(v)
}
func (d *DB) FullName() string {
	if d.Schema != "" {
		return d.Schema + "." + d.Name
	}
	return d.Name
}

// DBField is an annotated field.
type DBField struct {
	Field *Field
	DB    *DB
	File  *File
}

func (x DBField) Plain() bool { // a column, not a condition
	for _, k := range []string{"where", "limit", "offset", "order", "group"} {
		if x.DB.Tag.str(k) != "" || len(x.DB.Tag.All(k)) > 1 {
			return false
		}
	}
	return true
}

func (p *Program) DBFields(x Ref) []DBField {
	var out []DBField
	for _, f := range p.AllFields(x) {
		if d := DBOf(f.Field.Name, f.Field.Tags); d != nil {
			out = append(out, DBField{f.Field, d, f.File})
		}
	}
	return out
}

// Key is the field marked as key (the last one), or the first column.
func Key(fs []DBField) *DBField {
	var k *DBField
	for i := range fs {
		if k == nil || fs[i].DB.Tag.str("key") == "true" {
			k = &fs[i]
		}
	}
	return k
}

func (p *Program) isEnum(f *File, n string) bool {
	r := p.Visible(f, n)
	return r != nil && r.Decl.Kind == Enum
}

var intTypes = map[string]bool{"int8": true, "int16": true, "int32": true, "int64": true, "uint8": true, "uint16": true, "uint32": true, "uint64": true}

func (p *Program) topo() []Ref {
	var out []Ref
	done := map[*Decl]bool{}
	var visit func(x Ref)
	visit = func(x Ref) {
		if done[x.Decl] {
			return
		}
		done[x.Decl] = true
		for _, q := range x.Decl.Parents {
			if v := p.Visible(x.File, q.Name); v != nil {
				visit(*v)
			}
		}
		out = append(out, x)
	}
	for _, x := range p.Decls(Data) {
		visit(x)
	}
	return out
}

func (p *Program) extends(x Ref, d *Decl) bool {
	if x.Decl == d {
		return true
	}
	for _, q := range x.Decl.Parents {
		if v := p.Visible(x.File, q.Name); v != nil && p.extends(*v, d) {
			return true
		}
	}
	return false
}

// DecorateDB makes tables and requests of the program's data types.
func DecorateDB(r *R, p *Program, cachePct int) {
	role := map[*Decl]string{}
	tabNames := map[string]bool{}
	var tables []Ref
	tagName := func() string { return Pick(r, []string{"db", "db", "db", "db", "db0", "db2"}) }
	add := func(ts *[]Tag, t Tag) {
		*ts = append(*ts, t)
		if r.P(6) { // an annotation with a lower index does not count
			n := 0
			if t.Name != "db" {
				n, _ = strconv.Atoi(t.Name[2:])
			}
			if n == 0 {
				(*ts)[len(*ts)-1].Name = "db3"
			}
			dec := Tag{Name: "db1", KV: []KV{{"name", []string{"decoy"}}}}
			if n > 1 {
				dec.Name = "db"
			}
			if r.Bool() {
				*ts = append(*ts, dec)
			} else {
				*ts = append((*ts)[:len(*ts)-1:len(*ts)-1], dec, (*ts)[len(*ts)-1])
			}
		}
	}
	mode := func(k string, ms ...string) KV {
		m := Pick(r, ms)
		if r.P(10) {
			m = strings.ToUpper(m)
		}
		return KV{k, []string{m}}
	}
	for _, x := range p.topo() {
		d := x.Decl
		fam := ""
		for _, q := range d.Parents {
			if v := p.Visible(x.File, q.Name); v != nil {
				if role[v.Decl] == "req" {
					fam = "req"
				} else if role[v.Decl] == "cols" && fam == "" {
					fam = "cols"
				}
			}
		}
		var vis []Ref
		for _, t := range tables {
			if v := p.Visible(x.File, t.Decl.Name); v != nil && v.Decl == t.Decl {
				vis = append(vis, t)
			}
		}
		k := fam
		switch {
		case fam == "req":
		case len(vis) > 0 && r.P(45):
			k = "req"
		case r.P(12):
			k = "filter"
		case r.P(90):
			k = "cols"
		default:
			k = ""
		}
		if k == "" {
			continue
		}
		if k == "filter" {
			k = "req"
			vis = nil
		}
		role[d] = k
		// fields
		hasKey := false
		for _, f := range p.DBFields(x) {
			if f.DB.Tag.str("key") == "true" {
				hasKey = true
			}
		}
		var own []*Field
		for _, f := range d.Fields {
			if dbTag(f.Tags) == nil && r.P(85) {
				own = append(own, f)
			}
		}
		scalarName := func(f *Field) bool {
			return f.Type.Shape == "" && (IsScalar(f.Type.Name) || p.isEnum(x.File, f.Type.Name))
		}
		limit, offset := false, false
		inh := map[string]bool{}
		for _, f := range p.AllFields(x) {
			if f.Decl != d {
				inh[f.Field.Name] = true
				if g := dbTag(f.Field.Tags); g != nil {
					limit = limit || g.str("limit") != ""
					offset = offset || g.str("offset") != ""
				}
			}
		}
		for _, f := range own {
			if inh[f.Name] { // a redeclared field keeps the inherited role
				continue
			}
			t := Tag{Name: tagName()}
			if r.P(35) {
				t.KV = append(t.KV, KV{"name", []string{Pick(r, []string{"c_", "t.", "`x`.", "", `\"t\".`, "\x00\"t\"."}) + Snake(f.Name)}})
			}
			cond := false
			if k == "req" && r.P(75) {
				cond = true
				col := Snake(f.Name)
				op := Pick(r, []string{"=", ">", ">=", "<", "<>", "LIKE"})
				conj := Pick(r, []string{"AND", "AND", "OR", "AND NOT"})
				switch {
				case f.Type.Shape == "" && intTypes[f.Type.Name] && !limit && r.P(30):
					limit = true
					t.KV = append(t.KV, KV{"limit", []string{"?"}})
				case f.Type.Shape == "" && intTypes[f.Type.Name] && limit && !offset && r.P(60):
					offset = true
					t.KV = append(t.KV, KV{"offset", []string{"?"}})
				case f.Type.Shape == "" && f.Type.Name == "string" && r.P(45):
					t.KV = append(t.KV, KV{"order", []string{Pick(r, []string{col + " $", "a_b $, id $", "name $"})}})
				case f.Type.Shape == "" && r.P(12):
					t.KV = append(t.KV, KV{"group", []string{Pick(r, []string{col, "DATE(" + col + ")", "a, b"})}})
				case f.Type.Shape == "array" && scalarElem(p, x.File, f.Type.Name):
					if r.P(60) {
						t.KV = append(t.KV, KV{"where", []string{conj + " " + col + " IN(?)"}})
					} else {
						w := []string{"AND " + col + " >= ?", "AND " + col + " < ?"}
						if r.P(20) {
							w = append(w, "AND 0 <> ?")
						}
						t.KV = append(t.KV, KV{"where", w})
					}
				case scalarName(f):
					w := conj + " " + col + " " + op + " ?"
					switch r.Int(8) {
					case 0:
						w = "AND (" + col + " = ? OR parent = ?)"
					case 1:
						w = "AND del = 0"
					case 2: // another field
						if o := otherScalar(r, p, x, f); o != "" {
							w = "AND " + col + " BETWEEN ? AND ?{" + o + "}"
						}
					}
					ws := []string{w}
					if r.P(12) {
						ws = append(ws, "AND "+col+" <> ?")
					}
					t.KV = append(t.KV, KV{"where", ws})
				default:
					cond = false
				}
			}
			if !cond {
				if !scalarName(f) || r.P(6) {
					t.KV = append(t.KV, KV{"converter", []string{"json"}})
				}
				if k == "cols" && !hasKey && scalarName(f) && !f.Type.Null && r.P(60) && len(t.KV) < 2 && t.str("converter") == "" {
					hasKey = true
					t.KV = append(t.KV, KV{"key", []string{"true"}})
				} else if r.P(12) {
					t.KV = append(t.KV, KV{"force", []string{Pick(r, []string{"true", "TRUE", "false"})}})
				}
				if r.P(15) {
					t.KV = append(t.KV, KV{"get", []string{Pick(r, []string{"IFNULL(?, 0)", "MAX(?)", "?", "b.?"})}})
				}
			}
			if k == "req" && (!cond && r.P(50) || cond && r.P(10) && scalarName(f)) || k == "cols" && r.P(18) {
				s := Pick(r, []string{"?", "?", "? + 1", "NOW()", "CONCAT(?, '-', ?)"})
				if o := otherScalar(r, p, x, f); o != "" && r.P(15) {
					s = "? + ?{" + o + "}"
				}
				t.KV = append(t.KV, KV{"set", []string{s}})
			}
			if r.P(12) {
				quoteSQL(r, &t)
			}
			add(&f.Tags, t)
		}
		// the table or request itself
		fs := p.DBFields(x)
		if len(fs) == 0 {
			continue
		}
		t := Tag{Name: tagName()}
		pct := 55
		on := func(k string) {
			if r.P(pct) {
				t.KV = append(t.KV, KV{k, []string{Pick(r, []string{"true", "true", "True", "false"})}})
			}
		}
		md := func(k string, ms ...string) {
			if r.P(pct) {
				t.KV = append(t.KV, mode(k, ms...))
			}
		}
		mapKey := func(fs []DBField) string {
			var c []string
			for _, f := range fs {
				if p.MapKeyed(f) && (f.Plain() || f.DB.Tag.str("get") != "") {
					c = append(c, f.Field.Name)
				}
			}
			if len(c) == 0 {
				return ""
			}
			return Pick(r, c)
		}
		cols := columns(fs, "self")
		ownReads := func() {
			pc := columns(fs, "parent")
			if len(pc) > 0 && r.P(30) {
				md("list", "parent")
			} else {
				md("list", "self")
			}
			on("count")
			if mk := mapKey(pc); mk != "" && r.P(30) {
				t.KV = append(t.KV, KV{"map", []string{mk + ":parent"}})
			} else if mk := mapKey(fs); mk != "" && r.P(pct) {
				t.KV = append(t.KV, KV{"map", []string{mk + ":self"}})
			}
		}
		if len(vis) > 0 && k == "req" {
			tab := Pick(r, vis)
			t.KV = append(t.KV, KV{"table", []string{tab.Decl.Name}})
			tf := p.DBFields(tab)
			ext := p.extends(x, tab.Decl)
			modes := []string{"parent"}
			if len(cols) > 0 {
				modes = []string{"self", "parent"}
			}
			tc := len(columns(tf, "self")) > 0
			if tc {
				md("list", modes...)
				md("get", modes...)
			}
			on("count")
			if m := Pick(r, modes); m == "self" {
				if mk := mapKey(fs); mk != "" && r.P(pct) {
					t.KV = append(t.KV, KV{"map", []string{mk + ":self"}})
				}
			} else if mk := mapKey(tf); mk != "" && tc && r.P(pct) {
				t.KV = append(t.KV, KV{"map", []string{mk + ":parent"}})
			}
			on("del")
			on("rm")
			wm := []string{"self"}
			if ext {
				wm = []string{"self", "parent"}
			}
			md("update", wm...)
			md("set", wm...)
			md("insert", wm...)
			if ext {
				md("inserts", "parent")
			}
		} else {
			if k == "req" {
				if len(cols) == 0 {
					continue
				}
				t.KV = append(t.KV, dbNameKV(r, d, tabNames)...)
				ownReads()
			} else {
				t.KV = append(t.KV, dbNameKV(r, d, tabNames)...)
				key := Key(fs)
				okKey := key.Field.Type.Shape == "" && !key.Field.Type.Null && scalarName(key.Field) && key.DB.Tag.str("converter") == ""
				ownReads()
				md("insert", "self", "self", "parent")
				md("inserts", "self", "parent")
				if okKey {
					on("del")
					on("rm")
					md("update", "self", "self", "parent")
					md("set", "self", "self", "parent")
					md("get", "self", "parent")
				}
				tables = append(tables, x)
			}
			if r.P(35) {
				t.KV = append(t.KV, KV{"fake", []string{Pick(r, []string{"true", "false", "False", "TRUE"})}})
			}
		}
		if len(t.KV) == 0 {
			t.KV = append(t.KV, KV{"count", []string{"true"}})
		}
		pm := r.Perm(len(t.KV))
		kv := make([]KV, len(pm))
		for i, j := range pm {
			kv[i] = t.KV[j]
		}
		t.KV = kv
		add(&d.Tags, t)
		if r.P(cachePct) {
			c := Tag{Name: "cache"}
			lo := 1 + r.Int(100)
			switch r.Int(4) {
			case 0:
				c.KV = append(c.KV, KV{"min", []string{strconv.Itoa(lo)}}, KV{"max", []string{strconv.Itoa(lo + r.Int(50))}})
			case 1:
				c.KV = append(c.KV, KV{"max", []string{strconv.Itoa(lo + 10000)}})
			case 2:
				c.KV = append(c.KV, KV{"min", []string{strconv.Itoa(lo + Pick(r, []int{0, 9000, 20000}))}})
			}
			d.Tags = append(d.Tags, c)
		}
	}
}

func dbNameKV(r *R, d *Decl, used map[string]bool) []KV {
	var out []KV
	if r.P(60) {
		n := "t_" + Snake(d.Name)
		out = append(out, KV{"name", []string{n}})
	}
	if r.P(20) {
		out = append(out, KV{"schema", []string{Pick(r, []string{"shop", "my_db"})}})
	}
	return out
}

func scalarElem(p *Program, f *File, n string) bool { return IsScalar(n) || p.isEnum(f, n) }

func otherScalar(r *R, p *Program, x Ref, self *Field) string {
	var c []string
	for _, f := range p.AllFields(x) {
		if f.Field != self && f.Field.Type.Shape == "" && IsScalar(f.Field.Type.Name) && dbTag(f.Field.Tags) != nil && dbTag(f.Field.Tags).str("converter") == "" {
			c = append(c, f.Field.Name)
		}
	}
	if len(c) == 0 {
		return ""
	}
	return Pick(r, c)
}

// columns are the fields a read selects.
func columns(fs []DBField, mode string) []DBField {
	var out []DBField
	for _, f := range fs {
		if f.DB.Tag.str("get") != "" || mode == "self" && f.Plain() {
			out = append(out, f)
		}
	}
	return out
}

// Columns with the text to select.
func Columns(fs []DBField, mode string) (cols []DBField, text []string) {
	cols = columns(fs, mode)
	for _, f := range cols {
		if g := f.DB.Tag.str("get"); g != "" {
			text = append(text, strings.ReplaceAll(g, "?", f.DB.Name))
		} else {
			text = append(text, f.DB.Name)
		}
	}
	return
}

var refRe = regexp.MustCompile(`[?$]\{(\w+)\}`)

// Ops are the database functions a data type gets, by function name.
func (p *Program) DBOps(x Ref) map[string]string {
	d := DBOf(x.Decl.Name, x.Decl.Tags)
	if d == nil {
		return nil
	}
	out := map[string]string{}
	for op, fn := range map[string]string{"list": "DbList", "map": "DbMap", "get": "DbGet", "insert": "DbInsert", "inserts": "DbInsertList", "update": "DbUpdate", "set": "DbSet"} {
		if m := d.Mode(op); m != "" {
			out[fn] = m
		}
	}
	for op, fn := range map[string]string{"count": "DbCount", "del": "DbDel", "rm": "DbRemove"} {
		if d.On(op) {
			out[fn] = "on"
		}
	}
	return out
}

// Table finds the table a data type reads and writes: itself, or the one it names.
func (p *Program) Table(x Ref) *Ref {
	d := DBOf(x.Decl.Name, x.Decl.Tags)
	if d == nil {
		return nil
	}
	if d.Table == "" {
		return &x
	}
	v := p.Visible(x.File, d.Table)
	if v == nil || v.Decl.Kind != Data {
		return nil
	}
	return v
}

// ValidDB tells whether the database annotations are inside the judged domain.
func (p *Program) ValidDB() bool {
	for _, x := range p.Decls(Data) {
		for _, f := range x.Decl.Fields {
			if dbTag(f.Tags) != nil && dbTag(f.Tags).str("converter") == "" && (f.Type.Shape != "" && f.Type.Shape != "array" || !scalarElem(p, x.File, f.Type.Name)) {
				return false
			}
		}
		d := DBOf(x.Decl.Name, x.Decl.Tags)
		if d == nil {
			continue
		}
		t := p.Table(x)
		fs := p.DBFields(x)
		if t == nil || len(fs) == 0 {
			return false
		}
		td := DBOf(t.Decl.Name, t.Decl.Tags)
		if td == nil || td.Table != "" {
			return false
		}
		tf := p.DBFields(*t)
		own := t.Decl == x.Decl
		for _, set := range [][]DBField{fs, tf} {
			if len(set) == 0 {
				return false
			}
			nlimit, noffset := 0, 0
			for _, f := range set {
				tag := f.DB.Tag
				for _, kv := range tag.KV {
					for _, v := range kv.V {
						for _, m := range refRe.FindAllStringSubmatch(v, -1) {
							ok := false
							for _, o := range set {
								ok = ok || o.Field.Name == m[1] && o.Field.Type.Shape == "" && o.DB.Tag.str("converter") == ""
							}
							if !ok {
								return false
							}
						}
					}
				}
				isArr := f.Field.Type.Shape == "array"
				if f.Field.Type.Shape != "" && !isArr && !f.Plain() {
					return false
				}
				if tag.str("limit") != "" {
					nlimit++
				}
				if tag.str("offset") != "" {
					noffset++
				}
				if tag.str("order") != "" && (f.Field.Type.Name != "string" || f.Field.Type.Shape != "") {
					return false
				}
				if tag.str("converter") != "" && !f.Plain() {
					return false
				}
				if isArr && tag.str("converter") == "" && f.Plain() {
					return false
				}
			}
			if nlimit > 1 || noffset > 1 || noffset > nlimit {
				return false
			}
		}
		key := Key(fs)
		okKey := key.Field.Type.Shape == "" && !key.Field.Type.Null && key.DB.Tag.str("converter") == ""
		nkey := 0
		for _, f := range fs {
			if f.DB.Tag.str("key") == "true" {
				nkey++
			}
		}
		if nkey > 1 {
			return false
		}
		for fn, m := range p.DBOps(x) {
			f := fs
			if m == "parent" {
				f = tf
			}
			switch fn {
			case "DbList", "DbMap", "DbGet":
				mode := "self"
				if own && fn != "DbGet" {
					mode = m
				}
				if len(columns(f, mode)) == 0 {
					return false
				}
				if fn == "DbMap" {
					ok := false
					for _, c := range columns(f, mode) {
						ok = ok || c.Field.Name == d.MapKey() && p.MapKeyed(c)
					}
					if !ok {
						return false
					}
				}
			case "DbInsertList":
				if !own && m == "self" {
					return false
				}
			}
			if own && strings.Contains("DbDel DbRemove DbUpdate DbSet DbGet", fn) && !okKey {
				return false
			}
			if own && !strings.Contains("DbList DbMap DbCount", fn) {
				for _, f := range fs {
					if !f.Plain() {
						return false
					}
				}
			}
			if m == "parent" && !own && strings.Contains("DbInsert DbInsertList DbUpdate DbSet", fn) && !p.extends(x, t.Decl) {
				return false
			}
		}
	}
	return true
}

// SortedOps lists the function names in a fixed order.
func SortedOps(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
