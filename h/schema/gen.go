package schema

import (
	"fmt"
	"strconv"
	"strings"
)

// Cfg says what a generated program may contain.
type Cfg struct {
	MinFiles, MaxFiles int
	MaxEnums           int // per program
	MaxDatas           int
	MaxServers         int
	MinDatas           int
	MinServers         int
	MinEnums           int
	MaxFields          int
	MaxItems           int
	MaxMethods         int
	ParentPct          int
	MaxParents         int
	Override           bool // children may redeclare an inherited field
	Diamonds           bool // several parents may share an ancestor
	NoEmbed            bool // no data may require a nested non-null data by itself
	Scalars            []string
	MapKeys            []string // scalar keys allowed
	EnumKeys           bool
	Shapes             bool // arrays and maps
	NoNullInArray      bool
	DataRefs           bool
	EnumRefs           bool
	DocPct             int
	MultiDoc           bool
	GoPkgs             string   // "": none, "one": same package everywhere, "each": per file
	Pkgs               []string // other languages to declare a package for
	Dirs               bool
	HexPct             int
	ZeroEnum           bool // every enum has an item numbered 0
	NameStyles         []string
	RPCTags            bool
	BigIDs             bool
	Void               bool
	Unused             bool // files that nothing imports
}

var AllKeys = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "string", "date"}

var baseWords = []string{"user", "name", "order", "item", "price", "count", "type", "status", "time", "level", "page", "code", "title", "owner", "group", "phone", "email", "city", "score", "state", "range", "total", "size", "note", "mode", "rate", "unit", "token", "image", "range", "result", "region", "weight", "color", "detail", "parent", "child", "extra", "begin", "finish", "active", "remark", "quota", "limit_no", "a", "b", "x", "y", "z", "id", "ok", "url", "ip"}

// words that are unusable as identifiers in some target, or that collide with generated members
var badNames = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`data server enum import package int8 int16 int32 int64 uint8 uint16 uint32 uint64 bool float double decimal string date void
 abstract as assert async await break case catch class const continue covariant default deferred do dynamic else export extends extension external factory false final finally for function get hide if implements in interface is late library mixin new null of on operator part required rethrow return sealed set show static super switch sync this throw true try typedef var void when while with yield
 boolean byte char goto instanceof int long native private protected public short strictfp synchronized throws transient volatile record
 chan defer fallthrough func go map range select struct type any error nil len cap make append copy print println panic recover iota
 arguments debugger delete eval let package typeof undefined constructor prototype symbol number object
 value values todata formdata tojson fromjson fromdata frommap tomap clone copy hashcode tostring runtimetype nosuchmethod verify name_ ret temp key val json ctx client req invoke response request getname getid getinvoke getserver init server_ this_ array list record future promise error_ g r p i e s w self context`) {
		badNames[Norm(s)] = true
	}
	delete(badNames, "range")
	delete(badNames, "type")
}

// strict names are additionally unusable as identifiers in Go/TS/Dart/Java (parameter names, single letters used by generated code).
// clientNames are members of the generated servers and clients: methods called like them are known findings.
var clientNames = map[string]bool{"init": true, "client": true, "invoke": true}

// softNames are words that generated code uses for its own variables and members.
var softNames = strings.Fields(`value values key val temp ret json list map array record init request response req client invoke error number object self context ctx len g r p i e s w v f arguments print append make any make cap future promise db tag form getter`)

func badField(n string) bool {
	m := Norm(n)
	if badNames[m] || m == "range" && false {
		return true
	}
	for _, pre := range []string{"get", "set", "verify", "db"} {
		if strings.HasPrefix(m, pre) {
			return true
		}
	}
	return false
}

type Gen struct {
	R     *R
	C     Cfg
	P     *Program
	used  map[string]bool // normalised type-level names
	types []string
	n     int
}

func style(r *R, ws []string, st string) string {
	switch st {
	case "snake":
		return strings.Join(ws, "_")
	case "hump":
		o := ""
		for _, w := range ws {
			o += strings.ToUpper(w[:1]) + w[1:]
		}
		return o
	case "camel":
		o := ""
		for i, w := range ws {
			if i == 0 {
				o += w
			} else {
				o += strings.ToUpper(w[:1]) + w[1:]
			}
		}
		return o
	case "humpsnake":
		o := []string{}
		for _, w := range ws {
			o = append(o, strings.ToUpper(w[:1])+w[1:])
		}
		return strings.Join(o, "_")
	case "upper":
		return strings.ToUpper(strings.Join(ws, "_"))
	case "acronym":
		o := ""
		for i, w := range ws {
			if i == len(ws)-1 {
				o += strings.ToUpper(w)
			} else {
				o += w
			}
		}
		return o
	}
	return strings.Join(ws, "")
}

// Name makes a fresh name in one of the styles; ok decides acceptance.
func (g *Gen) Name(styles []string, taken map[string]bool, ok func(string) bool) string {
	for try := 0; ; try++ {
		n := 1 + g.R.Int(3)
		if try > 6 {
			n = 3
		}
		ws := make([]string, n)
		for i := range ws {
			w := Pick(g.R, baseWords)
			w = strings.ReplaceAll(w, "_", "")
			ws[i] = w
		}
		if g.R.P(12) {
			ws[n-1] += strconv.Itoa(g.R.Int(30))
		}
		s := style(g.R, ws, Pick(g.R, styles))
		if try > 20 {
			s += strconv.Itoa(try)
		}
		if taken[Norm(s)] || (ok != nil && !ok(s)) {
			continue
		}
		taken[Norm(s)] = true
		return s
	}
}

// caseVariant is a name that differs from one of names only in where its words begin, as userid from userId; "" if there is none.
func (g *Gen) caseVariant(names []string, inherited map[string]bool, ok func(string) bool) string {
	if len(names) == 0 || !g.R.P(6) || g.C.NameStyles != nil {
		return ""
	}
	q := Pick(g.R, names)
	v := strings.ToLower(strings.ReplaceAll(q, "_", ""))
	if inherited[Norm(q)] || !ok(v) {
		return ""
	}
	for _, n := range names {
		if n == v || Hump(n) == Hump(v) || LowerHump(n) == LowerHump(v) || Snake(n) == Snake(v) {
			return ""
		}
	}
	return v
}

var DefStyles = []string{"camel", "hump", "snake", "camel", "hump", "snake", "acronym", "humpsnake"}
var TypeStyles = []string{"hump", "hump", "hump", "camel", "snake", "humpsnake"}

// pkgPrefixes are the leading parts of dotted package names.
var pkgPrefixes = []string{"app", "lib.v1", "zz", "com.acme.core"}

func (g *Gen) typeName(kind string) string {
	st := g.C.NameStyles
	if st == nil {
		st = TypeStyles
	}
	if v := g.caseVariant(g.types, nil, func(s string) bool { return !badNames[Norm(s)] }); v != "" {
		v = strings.ToUpper(v[:1]) + v[1:]
		g.types = append(g.types, v)
		return v
	}
	n := g.Name(st, g.used, func(s string) bool {
		m := Norm(s)
		if badNames[m] || len(m) < 2 {
			return false
		}
		for _, suf := range []string{"router", "client", "values", "map", "lang"} {
			if strings.HasSuffix(m, suf) {
				return false
			}
		}
		for _, pre := range []string{"default", "new", "notfound", "get", "impl"} {
			if strings.HasPrefix(m, pre) {
				return false
			}
		}
		// enum constants are EnumName+ItemName in Go: no type name may extend another
		for u := range g.used {
			if strings.HasPrefix(m, u) || strings.HasPrefix(u, m) {
				return false
			}
		}
		return true
	})
	g.types = append(g.types, n)
	return n
}

func (g *Gen) doc() []string {
	if !g.R.P(g.C.DocPct) {
		return nil
	}
	return GenDoc(g.R, g.C.MultiDoc)
}

var docWords = []string{"the user name", "名称", "a \"quoted\" word", "100% of it", "x := 1", "func f() {", "}", "*", "see https://x.y/z", "'single'", "back\\slash", "`tick`", "${value}", "<tag>", "int32 id = 0", "todo: y", "end;", "data Q {", "// nested", "é à"}

func GenDoc(r *R, multi bool) []string {
	n := 1
	if multi {
		n = 1 + r.Int(3)
	}
	if multi && r.P(15) {
		s := "/*"
		for i := 0; i < n; i++ {
			if i > 0 {
				s += "\n"
			}
			s += " " + strings.ReplaceAll(Pick(r, docWords), "*", "+")
		}
		return []string{s + " */"}
	}
	var out []string
	for i := 0; i < n; i++ {
		if i > 0 && i < n-1 && r.P(10) {
			out = append(out, "")
			continue
		}
		switch w := Pick(r, docWords); {
		case multi && r.P(8): // no space after the mark
			out = append(out, "\x00//"+Pick(r, []string{"", "note:"})+w)
		case multi && r.P(5): // a comment of its own among the lines
			out = append(out, "\x00/*"+strings.ReplaceAll(w, "*", "+")+"*/")
		default:
			out = append(out, w)
		}
	}
	return out
}

func (g *Gen) id(used map[string]bool) string {
	for try := 0; ; try++ {
		n := g.R.Int(12 + try)
		if g.R.P(8) {
			n = g.R.Int(100000)
		}
		if g.C.BigIDs && g.R.P(5) {
			n = Pick(g.R, []int{127, 128, 255, 256, 32767, 65535, 65536, 1<<31 - 1})
		}
		k := strconv.Itoa(n)
		if used[k] {
			continue
		}
		used[k] = true
		if g.R.P(g.C.HexPct) {
			return fmt.Sprintf("0x%X", n)
		}
		return k
	}
}

func (g *Gen) memberStyles() []string {
	if g.C.NameStyles != nil {
		return g.C.NameStyles
	}
	return DefStyles
}

func (g *Gen) enum() *Decl {
	d := &Decl{Kind: Enum, Name: g.typeName(Enum), Doc: g.doc()}
	r, n := g.R, 1+g.R.Int(g.C.MaxItems)
	taken := map[string]bool{}
	ids := map[string]bool{}
	var own []string
	st := append([]string{"upper"}, g.memberStyles()...)
	for i := 0; i < n; i++ {
		it := &Item{Name: g.Name(st, taken, func(s string) bool { return !badNames[Norm(s)] && !strings.HasSuffix(Norm(s), "values") }), Doc: g.doc()}
		if s := Pick(r, softNames); r.P(4) && g.C.NameStyles == nil && !taken[Norm(s)] && s != "values" {
			taken[Norm(s)] = true
			it.Name = s
		}
		if v := g.caseVariant(own, nil, func(s string) bool { return !badNames[Norm(s)] && !strings.HasSuffix(Norm(s), "values") }); v != "" {
			it.Name = v
		}
		own = append(own, it.Name)
		if i == 0 && g.C.ZeroEnum {
			it.ID = "0"
			ids["0"] = true
		} else {
			it.ID = g.id(ids)
		}
		d.Items = append(d.Items, it)
	}
	if g.C.ZeroEnum && g.R.Bool() { // put item 0 anywhere
		j := g.R.Int(n)
		d.Items[0], d.Items[j] = d.Items[j], d.Items[0]
	}
	return d
}

// Program generates a whole valid program.
func Generate(r *R, c Cfg) *Program {
	g := &Gen{R: r, C: c, P: &Program{}, used: map[string]bool{}}
	return g.program()
}

func (g *Gen) program() *Program {
	r, c := g.R, g.C
	if len(c.Scalars) == 0 {
		g.C.Scalars = Scalars
		c.Scalars = Scalars
	}
	nf := r.Range(max(1, c.MinFiles), max(1, c.MaxFiles))
	fnames := map[string]bool{}
	pkgs := map[string]bool{}
	onePkg := "model"
	if c.GoPkgs == "one" {
		onePkg = Pick(r, []string{"model", "api", "user_pkg", "p1", "acme.model", "com.acme.api"})
	}
	var bases []string
	for i := 0; i < nf; i++ {
		base := g.Name([]string{"snake", "camel", "plain"}, fnames, func(s string) bool {
			return !strings.HasPrefix(s, "_") && !badNames[Norm(s)] && len(s) > 1
		})
		if v := g.caseVariant(bases, nil, func(s string) bool { return !badNames[Norm(s)] }); v != "" {
			base = v
		}
		bases = append(bases, base)
		p := base + ".hbuf"
		if c.Dirs && r.P(35) {
			p = Pick(r, []string{"sub", "lib", "sub/deep", "v1.2"}) + "/" + p
		}
		f := &File{Path: p}
		switch c.GoPkgs {
		case "one":
			f.Pkgs = append(f.Pkgs, Pkg{"go", onePkg})
		case "each":
			pk := ""
			if i > 0 && r.P(40) { // a package of the same short name elsewhere
				old := g.P.Files[r.Int(i)].Pkg("go")
				pk = old[strings.LastIndexByte(old, '.')+1:]
				for _, pre := range r.Perm(len(pkgPrefixes)) {
					if q := pkgPrefixes[pre] + "." + pk; !pkgs[q] {
						pkgs[q] = true
						f.Pkgs = append(f.Pkgs, Pkg{"go", q})
						break
					}
				}
				if len(f.Pkgs) > 0 {
					break
				}
			}
			pk = g.Name([]string{"plain", "snake"}, pkgs, func(s string) bool {
				return !badNames[Norm(s)] && len(s) > 2 && s != "range" && s != "type" && !map[string]bool{"context": true, "json": true, "db": true, "rpc": true, "hbuf": true, "cache": true, "time": true, "rand": true, "sql": true, "errors": true, "decimal": true, "manage": true, "utl": true, "regexp": true, "utf8": true, "erro": true}[s]
			})
			if r.P(30) {
				q := Pick(r, pkgPrefixes) + "." + pk
				pkgs[q] = true
				pk = q
			}
			f.Pkgs = append(f.Pkgs, Pkg{"go", pk})
		}
		for _, l := range c.Pkgs {
			f.Pkgs = append(f.Pkgs, Pkg{l, "com.gen." + strings.ToLower(strings.ReplaceAll(base, "_", ""))})
		}
		g.P.Files = append(g.P.Files, f)
	}
	// import graph
	for i, f := range g.P.Files {
		for j, q := range g.P.Files {
			if i == j {
				continue
			}
			allowed := j < i || (c.GoPkgs != "each" && r.P(20))
			if allowed && r.P(70) {
				f.Imports = append(f.Imports, relPath(f.Path, q.Path))
			}
		}
	}
	// declarations: enums, then datas, then servers; each placed in a random file
	var enums, datas, servers []Ref
	ne := r.Range(c.MinEnums, max(c.MinEnums, c.MaxEnums))
	for i := 0; i < ne; i++ {
		f := Pick(r, g.P.Files)
		d := g.enum()
		if r.P(4) { // nothing uses an enumeration without items
			d.Items = nil
			f.Decls = append(f.Decls, d)
			continue
		}
		f.Decls = append(f.Decls, d)
		enums = append(enums, Ref{f, d})
	}
	nd := r.Range(c.MinDatas, max(c.MinDatas, c.MaxDatas))
	for i := 0; i < nd; i++ {
		f := Pick(r, g.P.Files)
		d := &Decl{Kind: Data, Name: g.typeName(Data), Doc: g.doc()}
		datas = append(datas, Ref{f, d})
	}
	for i, x := range datas {
		g.fillData(x, datas, i, enums)
		x.File.Decls = append(x.File.Decls, x.Decl)
	}
	ns := r.Range(c.MinServers, max(c.MinServers, c.MaxServers))
	for i := 0; i < ns && len(datas) > 0; i++ {
		f := Pick(r, g.P.Files)
		d := &Decl{Kind: Server, Name: g.typeName(Server), Doc: g.doc()}
		x := Ref{f, d}
		g.fillServer(x, datas, servers)
		servers = append(servers, x)
		f.Decls = append(f.Decls, d)
	}
	for _, f := range g.P.Files {
		ds := f.Decls
		pm := r.Perm(len(ds))
		f.Decls = nil
		for _, k := range pm {
			f.Decls = append(f.Decls, ds[k])
		}
	}
	// drop imports of files nothing is used from, sometimes
	return g.P
}

func relPath(from, to string) string {
	fd := strings.Split(from, "/")
	td := strings.Split(to, "/")
	fd = fd[:len(fd)-1]
	i := 0
	for i < len(fd) && i < len(td)-1 && fd[i] == td[i] {
		i++
	}
	out := ""
	for k := i; k < len(fd); k++ {
		out += "../"
	}
	return out + strings.Join(td[i:], "/")
}

func (g *Gen) visible(f *File, xs []Ref) []Ref {
	var out []Ref
	for _, x := range xs {
		if x.File == f {
			out = append(out, x)
			continue
		}
		for _, im := range f.Imports {
			if g.P.FileByPath(joinRel(f.Path, im)) == x.File {
				out = append(out, x)
				break
			}
		}
	}
	return out
}

func joinRel(from, im string) string {
	parts := strings.Split(from, "/")
	parts = parts[:len(parts)-1]
	for _, s := range strings.Split(im, "/") {
		if s == ".." {
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		} else if s != "." && s != "" {
			parts = append(parts, s)
		}
	}
	return strings.Join(parts, "/")
}

func (g *Gen) ancestors(x Ref, set map[*Decl]bool) {
	for _, p := range x.Decl.Parents {
		if q := g.find(p.Name); q != nil && !set[q.Decl] {
			set[q.Decl] = true
			g.ancestors(*q, set)
		}
	}
}
func (g *Gen) find(name string) *Ref {
	for _, f := range g.P.Files {
		for _, d := range f.Decls {
			if d.Name == name {
				return &Ref{f, d}
			}
		}
	}
	return nil
}

// allNames lists the normalised names of all members of a decl including inherited.
func (g *Gen) allNames(x Ref, out map[string]bool) {
	for _, f := range x.Decl.Fields {
		out[Norm(f.Name)] = true
	}
	for _, m := range x.Decl.Methods {
		out[Norm(m.Name)] = true
	}
	for _, p := range x.Decl.Parents {
		out[Norm(p.Name)] = true // the embedded field's Go name
		if q := g.find(p.Name); q != nil {
			g.allNames(*q, out)
		}
	}
}

func (g *Gen) pickParents(x Ref, cand []Ref) {
	r, c := g.R, g.C
	if !r.P(c.ParentPct) || len(cand) == 0 {
		return
	}
	n := 1 + r.Int(max(1, c.MaxParents))
	ids := map[string]bool{}
	anc := map[*Decl]bool{}
	names := map[string]bool{}
	for _, k := range r.Perm(len(cand)) {
		if n == 0 {
			break
		}
		q := cand[k]
		if anc[q.Decl] {
			continue
		}
		qa := map[*Decl]bool{q.Decl: true}
		g.ancestors(q, qa)
		clash := false
		if !c.Diamonds {
			for a := range qa {
				if anc[a] {
					clash = true
				}
			}
		}
		qn := map[string]bool{}
		g.allNames(q, qn)
		shared := map[string]bool{}
		if c.Diamonds {
			for a := range qa {
				if anc[a] {
					g.allNames(Ref{q.File, a}, shared)
					shared[Norm(a.Name)] = true
				}
			}
		}
		for m := range qn {
			if names[m] && !shared[m] {
				clash = true
			}
		}
		// a parent's Go name must not equal a member name
		if names[Norm(q.Decl.Name)] || qn[Norm(q.Decl.Name)] {
			clash = true
		}
		if clash {
			continue
		}
		for m := range qn {
			names[m] = true
		}
		names[Norm(q.Decl.Name)] = true
		for a := range qa {
			anc[a] = true
		}
		x.Decl.Parents = append(x.Decl.Parents, Parent{q.Decl.Name, g.id(ids)})
		n--
	}
}

func (g *Gen) GenType(x Ref, earlier, all []Ref, enums []Ref) Type {
	r, c := g.R, g.C
	var t Type
	roll := r.Int(100)
	switch {
	case c.DataRefs && roll < 14 && len(all) > 0:
		t.Name = Pick(r, all).Decl.Name
	case c.EnumRefs && roll < 28 && len(enums) > 0:
		t.Name = Pick(r, enums).Decl.Name
	default:
		t.Name = Pick(r, c.Scalars)
	}
	t.Null = r.P(40)
	if c.Shapes && r.P(35) {
		t.ONull = r.P(40)
		if r.P(50) || (len(c.MapKeys) == 0 && !c.EnumKeys) {
			t.Shape = "array"
			if c.NoNullInArray {
				t.Null = false
			}
		} else {
			t.Shape = "map"
			if c.EnumKeys && len(enums) > 0 && (r.P(25) || len(c.MapKeys) == 0) {
				t.Key = Pick(r, enums).Decl.Name
			} else if len(c.MapKeys) > 0 {
				t.Key = Pick(r, c.MapKeys)
			} else {
				t.Shape = "array"
			}
		}
	}
	if t.Shape == "" && !t.Null {
		// a required nested data must not be recursive
		for _, q := range all {
			if q.Decl.Name == t.Name {
				ok := false
				for _, e := range earlier {
					if e.Decl == q.Decl {
						ok = true
					}
				}
				if !ok {
					t.Null = true
				}
			}
		}
	}
	return t
}

func (g *Gen) fillData(x Ref, datas []Ref, idx int, enums []Ref) {
	r, c := g.R, g.C
	var earlier []Ref
	for k := 0; k < idx; k++ {
		earlier = append(earlier, datas[k])
	}
	earlier = g.visible(x.File, earlier)
	all := g.visible(x.File, datas)
	en := g.visible(x.File, enums)
	g.pickParents(x, earlier)
	names := map[string]bool{}
	inherited := map[string]bool{}
	g.allNames(x, inherited)
	names[Norm(x.Decl.Name)] = true
	for k := range inherited {
		names[k] = true
	}
	ids := map[string]bool{}
	n := r.Int(c.MaxFields + 1)
	if c.Override && len(x.Decl.Parents) > 0 && r.P(50) {
		fs := g.P.AllFields(x)
		if len(fs) > 0 {
			f := Pick(r, fs).Field
			x.Decl.Fields = append(x.Decl.Fields, &Field{Name: f.Name, ID: g.id(ids), Type: f.Type, Doc: g.doc()})
		}
	}
	for i := 0; i < n; i++ {
		f := &Field{Name: g.Name(g.memberStyles(), names, func(s string) bool { return !badField(s) && !(s[0] >= 'A' && s[0] <= 'Z' && g.used[Norm(s)]) }), Doc: g.doc()}
		f.ID = g.id(ids)
		f.Type = g.GenType(x, earlier, all, en)
		x.Decl.Fields = append(x.Decl.Fields, f)
	}
	var own []string
	for _, f := range x.Decl.Fields {
		own = append(own, f.Name)
	}
	if r.P(8) && c.NameStyles == nil { // a field named like a variable or member of generated code
		if s := Pick(r, softNames); !names[Norm(s)] {
			names[Norm(s)] = true
			x.Decl.Fields = append(x.Decl.Fields, &Field{Name: s, ID: g.id(ids), Type: g.GenType(x, earlier, all, en), Doc: g.doc()})
		}
	}
	if r.P(12) && c.NameStyles == nil { // a field named like a type
		d := Pick(r, datas).Decl
		if len(enums) > 0 && r.P(30) {
			d = Pick(r, enums).Decl
		}
		if s := d.Name; !names[Norm(s)] && !badField(s) {
			names[Norm(s)] = true
			x.Decl.Fields = append(x.Decl.Fields, &Field{Name: s, ID: g.id(ids), Type: g.GenType(x, earlier, all, en), Doc: g.doc()})
		}
	}
	if v := g.caseVariant(own, inherited, func(s string) bool { return !badField(s) }); v != "" {
		x.Decl.Fields = append(x.Decl.Fields, &Field{Name: v, ID: g.id(ids), Type: g.GenType(x, earlier, all, en), Doc: g.doc()})
	}
	if len(x.Decl.Fields) > 1 {
		pm := r.Perm(len(x.Decl.Fields))
		fs := make([]*Field, len(pm))
		for i, k := range pm {
			fs[i] = x.Decl.Fields[k]
		}
		x.Decl.Fields = fs
	}
}

func (g *Gen) fillServer(x Ref, datas []Ref, servers []Ref) {
	r, c := g.R, g.C
	vis := g.visible(x.File, datas)
	g.pickParents(x, g.visible(x.File, servers))
	if len(vis) == 0 {
		return
	}
	names := map[string]bool{}
	g.allNames(x, names)
	ids := map[string]bool{}
	n := r.Int(c.MaxMethods + 1)
	if len(x.Decl.Parents) == 0 && n == 0 {
		n = 1
	}
	var own []string
	inherited := map[string]bool{}
	for k := range names {
		inherited[k] = true
	}
	for i := 0; i < n; i++ {
		m := &Method{Name: g.Name(g.memberStyles(), names, func(s string) bool { return !badField(s) && !g.used[Norm(s)] }), Doc: g.doc()}
		if s := Pick(r, softNames); r.P(5) && c.NameStyles == nil && !names[Norm(s)] && !g.used[Norm(s)] && !clientNames[s] {
			names[Norm(s)] = true
			m.Name = s
		}
		if v := g.caseVariant(own, inherited, func(s string) bool { return !badField(s) && !g.used[Norm(s)] }); v != "" {
			m.Name = v
		}
		own = append(own, m.Name)
		m.ID = g.id(ids)
		m.Param = Pick(r, vis).Decl.Name
		m.Result = Pick(r, vis).Decl.Name
		if c.Void && r.P(25) {
			m.Result = "void"
		}
		m.ParamName = "req"
		if r.P(40) {
			m.ParamName = g.Name(g.memberStyles(), map[string]bool{}, func(s string) bool {
				return !badField(s) && s != "range" && s != "type" && !g.used[Norm(s)] && LowerHump(s) != "range" && LowerHump(s) != "type" && len(s) > 1
			})
		}
		if c.RPCTags && r.P(40) {
			t := Tag{Name: "tag"}
			ks := map[string]bool{}
			for k := 0; k < 1+r.Int(3); k++ {
				kv := KV{K: g.Name([]string{"camel", "snake"}, ks, func(s string) bool { return !badNames[Norm(s)] })}
				for q := 0; q < 1+r.Int(3); q++ {
					kv.V = append(kv.V, Pick(r, []string{"admin", "用户", "1", "a b", "x/y", "role:2", "true", "", " ", `a\\b`, `say \"x\"`, `\u00e9\n\x41`, "\x00say \"x\" \\n", "\x00", "%d", "$x", "a`b"}))
				}
				t.KV = append(t.KV, kv)
			}
			m.Tags = append(m.Tags, t)
		}
		x.Decl.Methods = append(x.Decl.Methods, m)
	}
}
