package schema

import (
	"fmt"
	"strings"
)

var odd = []string{"", " ", "a", "a b", "x,y", "=", "-", "-1", "9999999999999999999999", "1.5", "true", "TRUE", "//no", "/*", "名", "{\\\"q\\\"}", "\\\\", "\\n", "\\u00e9", "A.b", "A.b.c", ".", "..", "$", "?", "${", "${}", "${id}", "?{", "?{nothing}", "${nothing}", "%s%d", "100%", "'", "`", "$(x)", "*/", "[", "(", "\\t", "a\\\"b", "nil", "select"}

// Wild adds annotations of every known kind with usual and odd contents. Meaning is not preserved: such a program may be rejected.
func Wild(r *R, p *Program, pct int) {
	var names, datas, enums, servers, tables []string
	or := func(xs []string, d string) string {
		if len(xs) == 0 {
			return d
		}
		return Pick(r, xs)
	}
	val := func(xs ...string) []string {
		if r.P(4) {
			return []string{Pick(r, odd)}
		}
		if r.P(2) {
			return []string{Pick(r, xs), Pick(r, odd)}
		}
		return []string{Pick(r, xs)}
	}
	param := func() string {
		s := Pick(r, []string{"AND ", "OR ", ""}) + Pick(r, []string{"id = ?", "a > ?", "name LIKE ?", "x IN(?)", "$ = 1", "a = ?{" + or(names, "q") + "}", "b ${" + or(names, "q") + "}", "c"})
		if r.P(6) {
			s += Pick(r, odd)
		}
		return s
	}
	build := func(name string, kvs []KV) Tag { return Tag{name, kvs} }
	dbName := func() string {
		return Pick(r, []string{"db", "db", "db", "db", "db0", "db1", "db2", "dbx", "dbdb", "db99999999999999"})
	}
	dedupe := func(kvs []KV) []KV {
		seen := map[string]bool{}
		var out []KV
		for _, kv := range kvs {
			if !seen[kv.K] {
				seen[kv.K] = true
				out = append(out, kv)
			}
		}
		return out
	}
	some := func(kvs ...KV) []KV {
		var out []KV
		for _, kv := range kvs {
			if r.P(30) {
				out = append(out, kv)
			}
		}
		if len(out) == 0 {
			out = append(out, Pick(r, kvs))
		}
		if r.P(10) {
			out = append(out, KV{Pick(r, []string{"zzz", "Name", "value", "null_", "k1"}), []string{Pick(r, odd)}})
		}
		return dedupe(out)
	}
	self := func(k string) KV { return KV{k, val("self", "parent", "self", "parent", "true", "SELF")} }
	lang := func() Tag {
		return build("lang", some(KV{"en", val("Name", "The name")}, KV{"zh_CN", val("名称")}, KV{"fr", val("Nom de l'a")}, KV{"En", val("x")}))
	}
	ui := func(data bool) Tag {
		fm := []string{"text", "click", "file", "image", "menu", "date", "switch", "datetime", "dates", "year", "month", "radio", "radioButton", "pass"}
		if data {
			fm = []string{"true", "false"}
		}
		return build("ui", some(KV{"form", val(fm...)}, KV{"form", val(fm...)}, KV{"table", val("true", "text", "image", "false", "link")}, KV{"onlyRead", val("true", "false")}, KV{"digit", val("2", "0")},
			KV{"index", val("1", "0", "7")}, KV{"format", val("yyyy-MM-dd", "yyyy/MM/dd HH:mm")}, KV{"width", val("100", "20.5")}, KV{"height", val("100")}, KV{"maxLine", val("3")}, KV{"maxCount", val("2")}, KV{"clip", val("true")}, KV{"extensions", val("png", "jpg")}))
	}
	add := func(ts *[]Tag, t Tag) {
		if GetTag(*ts, t.Name) == nil {
			*ts = append(*ts, t)
		}
	}
	verify := func() Tag {
		var v []string
		for n := 1 + r.Geo(2); n > 0; n-- {
			v = append(v, or(enums, "E.a"))
		}
		if r.P(1) {
			v = append(v, Pick(r, odd))
		}
		return build("verify", []KV{{"format", v}})
	}
	for fi, f := range p.Files {
		datas, enums, servers = nil, nil, nil
		see := []*File{f}
		for k := range f.Imports {
			if t := p.ImportTarget(fi, k); t >= 0 && t != fi {
				see = append(see, p.Files[t])
			}
		}
		for _, g := range see {
			for _, d := range g.Decls {
				switch d.Kind {
				case Data:
					datas = append(datas, d.Name)
				case Enum:
					for _, i := range d.Items {
						enums = append(enums, d.Name+"."+i.Name)
					}
				case Server:
					for _, m := range d.Methods {
						servers = append(servers, d.Name+"."+m.Name)
					}
				}
			}
		}
		for _, d := range f.Decls {
			if d.Kind == Data && r.P(pct) {
				tables = append(tables, d.Name)
			}
		}
		for _, d := range f.Decls {
			switch d.Kind {
			case Data:
				names = nil
				hasDb := map[*Field]bool{}
				for _, x := range d.Fields {
					if r.P(pct) {
						hasDb[x] = true
						names = append(names, x.Name)
					}
				}
				if r.P(pct) {
					kvs := some(KV{"name", val("t_" + Snake(d.Name))}, self("get"), self("get"), self("list"), self("insert"), self("inserts"), self("update"), self("set"), KV{"map", val(or(names, "id")+":self", "id:parent", "a:b:c", ":self", "x")},
						KV{"count", val("true", "false")}, KV{"del", val("true", "false")}, KV{"rm", val("true")}, KV{"fake", val("true", "false")}, KV{"schema", val("s1")})
					if r.P(40) {
						kvs = append(kvs, KV{"table", val(or(datas, d.Name), or(datas, d.Name), or(tables, d.Name), d.Name, d.Name)})
					}
					add(&d.Tags, build(dbName(), kvs))
					if r.P(40) {
						add(&d.Tags, build("cache", some(KV{"min", val("1", "60", "0")}, KV{"max", val("2", "100", "1")})))
					}
				}
				if r.P(pct) {
					add(&d.Tags, ui(true))
				}
				if r.P(pct/2) && len(enums) > 0 {
					add(&d.Tags, verify())
				}
				for _, x := range d.Fields {
					if hasDb[x] {
						kvs := some(KV{"name", val(Snake(x.Name), "c_"+Snake(x.Name))}, KV{"key", val("true", "false")}, KV{"force", val("true")}, KV{"converter", val("json", "json", "xml")},
							KV{"where", []string{param()}}, KV{"offset", val("?")}, KV{"limit", val("?")}, KV{"order", val("id $", "$", "a DESC")}, KV{"group", val("id", "id, age", "?")}, KV{"get", val("MAX(?)", "COUNT(1)")}, KV{"set", val("? + 1", "NOW()")}, KV{"typ", val("x")})
						for i := range kvs {
							if kvs[i].K == "where" && r.P(30) {
								kvs[i].V = append(kvs[i].V, param())
							}
						}
						add(&x.Tags, build(dbName(), kvs))
						if r.P(10) {
							add(&x.Tags, build(dbName(), kvs))
						}
					}
					if r.P(pct) && len(enums) > 0 {
						add(&x.Tags, verify())
					}
					if r.P(pct) {
						add(&x.Tags, ui(false))
					}
					if r.P(pct) {
						add(&x.Tags, lang())
					}
				}
			case Enum:
				if r.P(pct) {
					add(&d.Tags, ui(true))
				}
				for _, x := range d.Items {
					if r.P(pct) {
						add(&x.Tags, lang())
					}
					if r.P(pct) {
						add(&x.Tags, build("format", some(KV{"null", val("true", "false")}, KV{"min", val("1", "-5", "1.5", "2020-01-01 00:00:00")}, KV{"max", val("10", "99999999999")}, KV{"reg", val("^[a-z]+$", "a/b", "(", "\\\\d+")})))
					}
				}
			case Server:
				for _, m := range d.Methods {
					if r.P(pct) && len(servers) > 0 {
						kv := KV{"value", val(or(servers, "S.m"))}
						add(&m.Tags, build("bind", []KV{kv}))
					}
					if r.P(pct) {
						add(&m.Tags, build("tag", some(KV{"auth", val("true", "false", "a,b")}, KV{"role", val("admin")})))
					}
				}
			}
		}
	}
}

var oddNames = []string{"_", "__", "_a", "a_", "a__b", "A_", "_A_B", "class", "func", "type", "var", "package", "void", "Object", "string_", "Data", "Enum", "Server", "import_", "x1", "X", "ID", "userID", "hTTP", "é", "名", "名A", "constructor", "toString", "range", "nil", "null", "true", "self", "context", "error", "len", "__proto__", "_1", "a1_2b", "ZZ_TOP", "aB_cD", "uint", "int", "Map", "List"}

// OddNames renames declarations and members to unusual identifiers, consistently.
func OddNames(r *R, p *Program, n int) {
	for ; n > 0; n-- {
		xs := p.Decls("")
		if len(xs) == 0 {
			return
		}
		x := Pick(r, xs)
		nm := Pick(r, oddNames)
		if r.P(10) {
			nm = strings.Repeat(nm, 1+r.Int(2000))
		}
		d := x.Decl
		switch r.Int(3) {
		case 0:
			if !p.anyDecl(nm) {
				p.Rename(d.Name, nm)
			}
		default:
			has := map[string]bool{}
			for _, i := range d.Items {
				has[i.Name] = true
			}
			for _, i := range d.Fields {
				has[i.Name] = true
			}
			for _, i := range d.Methods {
				has[i.Name] = true
			}
			if has[nm] && r.P(90) {
				continue
			}
			switch {
			case len(d.Items) > 0:
				Pick(r, d.Items).Name = nm
			case len(d.Fields) > 0:
				Pick(r, d.Fields).Name = nm
			case len(d.Methods) > 0:
				m := Pick(r, d.Methods)
				if r.Bool() {
					m.Name = nm
				} else {
					m.ParamName = nm
				}
			}
		}
	}
}

// Rename changes the name of a declaration and of every reference to it.
func (p *Program) Rename(from, to string) {
	ref := func(s *string) {
		if *s == from {
			*s = to
		}
	}
	for _, x := range p.Decls("") {
		d := x.Decl
		ref(&d.Name)
		for i := range d.Parents {
			ref(&d.Parents[i].Name)
		}
		for _, f := range d.Fields {
			ref(&f.Type.Name)
			ref(&f.Type.Key)
		}
		for _, m := range d.Methods {
			ref(&m.Result)
			ref(&m.Param)
		}
	}
	p.EachTags(func(ts *[]Tag) {
		for _, t := range *ts {
			for _, kv := range t.KV {
				for i, v := range kv.V {
					if v == from {
						kv.V[i] = to
					} else if strings.HasPrefix(v, from+".") {
						kv.V[i] = to + strings.TrimPrefix(v, from)
					}
				}
			}
		}
	})
}

// Break makes a program invalid (or just strange) in ways that the front end may or may not look at.
func Break(r *R, p *Program) string {
	xs := p.Decls("")
	if len(xs) == 0 {
		return "none"
	}
	x := Pick(r, xs)
	d := x.Decl
	anyName := func() string {
		switch r.Int(6) {
		case 0:
			return "Nothing"
		case 1:
			return Pick(r, Scalars)
		case 2:
			return "void"
		case 3:
			return Pick(r, oddNames)
		}
		return Pick(r, xs).Decl.Name
	}
	switch k := r.Int(8); k {
	case 0:
		for n := 1 + r.Int(2); n > 0; n-- {
			d.Parents = append(d.Parents, Parent{anyName(), fmt.Sprint(r.Int(4))})
		}
		return "parents"
	case 1, 2:
		if len(d.Fields) > 0 {
			f := Pick(r, d.Fields)
			f.Type = Type{Name: anyName(), Null: r.P(30)}
			switch r.Int(4) {
			case 0:
				f.Type.Shape = "array"
			case 1:
				f.Type.Shape, f.Type.Key = "map", anyName()
			}
			return "type"
		}
	case 3, 4:
		if len(d.Methods) > 0 {
			m := Pick(r, d.Methods)
			if r.Bool() {
				m.Result = anyName()
			} else {
				m.Param = anyName()
			}
			return "method"
		}
	case 5:
		d.Kind = Pick(r, []string{Data, Enum, Server})
		return "kind"
	case 6: // cyclic types, allowed or not
		for i, y := range xs {
			if y.Decl.Kind == Data {
				t := xs[(i+1)%len(xs)].Decl
				if t.Kind == Data {
					y.Decl.Parents = append(y.Decl.Parents, Parent{t.Name, fmt.Sprint(90 + i)})
				}
			}
		}
		return "cycle"
	case 7:
		f := x.File
		if r.Bool() {
			f.Imports = append(f.Imports, Pick(r, []string{"nothing.hbuf", "", ".", "..", "/", "/dev/null", "a\\\"b", "x/../y.hbuf", "%s"}))
		} else {
			f.Pkgs = append(f.Pkgs, Pkg{Pick(r, []string{"go", "java", "ts", "x"}), Pick(r, []string{"", "a", "a.b", "..", "a/b", "1", ".", "名"})})
		}
		return "file"
	}
	return "none"
}
