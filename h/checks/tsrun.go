package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/schema"
	"hv/tsx"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// tsUnit is one case whose generated TypeScript was compiled.
type tsUnit struct {
	N     int
	Case  *core.Case
	Prog  *schema.Program
	bad   *core.Result
	Files map[string]string // generated files
	desc  *tsDesc
}

type tsOpt struct {
	Types bool // compile a file that states the declared types
	UI    bool // compile the components, too
	Extra func(u *tsUnit) map[string]string
}

var node tsx.Node

// tsBatch type-checks the generated TypeScript of all cases together and evaluates each.
func tsBatch(cs []*core.Case, valid func(c *core.Case) bool, opt tsOpt, eval func(u *tsUnit) *core.Result) []*core.Result {
	out := make([]*core.Result, len(cs))
	units, err := tsCompile(cs, valid, opt)
	for i, u := range units {
		switch {
		case u == nil:
			out[i] = &core.Result{Labels: []string{"outside the domain"}}
		case u.bad != nil:
			out[i] = u.bad
		case err != nil:
			out[i] = &core.Result{Infra: err.Error()}
		default:
			core.Progress(i)
			out[i] = eval(u)
		}
	}
	return out
}

// tsCompile generates and compiles; a unit is nil outside the domain.
func tsCompile(cs []*core.Case, valid func(c *core.Case) bool, opt tsOpt) ([]*tsUnit, error) {
	units := make([]*tsUnit, len(cs))
	dir := scratch()
	defer os.RemoveAll(dir)
	var us []*tsx.Unit
	for i, c := range cs {
		if !valid(c) {
			continue
		}
		u := &tsUnit{N: i, Case: c, Prog: c.Prog, desc: describeTS(c.Prog)}
		units[i] = u
		src, gen := filepath.Join(dir, fmt.Sprint("s", i)), filepath.Join(dir, fmt.Sprint("g", i))
		u.Files, u.bad = generate(c.Prog, src, gen, "ts")
		if u.bad != nil {
			continue
		}
		fs := map[string]string{}
		for k, t := range u.Files {
			if opt.UI || !strings.HasSuffix(k, ".tsx") {
				fs[k] = t
			}
		}
		if opt.Types {
			fs["zz_types.ts"] = tsTypes(c.Prog)
		}
		if opt.Extra != nil {
			for k, t := range opt.Extra(u) {
				fs[k] = t
			}
		}
		us = append(us, &tsx.Unit{N: i, Files: fs})
	}
	if len(us) == 0 {
		return units, nil
	}
	diags, err := node.Compile(us)
	if err != nil {
		return units, err
	}
	for _, x := range us {
		if ds := diags[x.N]; len(ds) > 0 {
			sig := "typecheck"
			for _, d := range ds {
				if strings.HasPrefix(d, "zz_types.ts") {
					d = "the generated API lacks what the schema promises: " + d
				}
				if len(ds) > 8 {
					ds = append(ds[:8:8], fmt.Sprintf("and %d more", len(ds)-8))
				}
			}
			units[x.N].bad = core.Failf(sig, "the generated TypeScript does not type-check:\n%s", strings.Join(ds, "\n"))
		}
	}
	return units, nil
}

// generate writes a program's files below src and builds each for one target into gen; the generated files are read back.
func generate(p *schema.Program, src, gen, typ string) (map[string]string, *core.Result) {
	writeSources(src, p)
	for _, f := range p.Files {
		if err, _ := buildQuiet(gen, filepath.Join(src, f.Path), typ, "gen/"); err != nil {
			return nil, core.Failf("build", "a valid schema is rejected: %v", err)
		}
	}
	o := map[string]string{}
	filepath.WalkDir(gen, func(p string, d os.DirEntry, err error) error {
		if err == nil && !d.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(gen, p)
			o[filepath.ToSlash(rel)] = string(b)
		}
		return nil
	})
	return o, nil
}

func (u *tsUnit) ask(ops []*gop) ([]*grep, error) {
	var reps []*grep
	err := node.Ask(u.N, u.desc, ops, &reps)
	return reps, err
}

// ---- description of the program for the driver

type tsDesc struct {
	Datas   map[string]tsData   `json:"datas"`
	Enums   map[string]tsRef    `json:"enums"`
	Servers map[string]tsServer `json:"servers"`
}
type tsRef struct {
	Module string `json:"module"`
	Cls    string `json:"cls"`
}
type tsData struct {
	tsRef
	Fields []tsField `json:"fields"`
}
type tsField struct {
	Name string `json:"name"`
	Prop string `json:"prop"`
	Type tsType `json:"type"`
}
type tsType struct {
	Name  string `json:"name"`
	Shape string `json:"shape"`
	Key   string `json:"key"`
}
type tsServer struct {
	tsRef
	Methods []tsMethod `json:"methods"`
}
type tsMethod struct {
	Name   string `json:"name"`
	Fn     string `json:"fn"`
	Param  string `json:"param"`
	Result string `json:"result"`
}

func describeTS(p *schema.Program) *tsDesc {
	d := &tsDesc{map[string]tsData{}, map[string]tsRef{}, map[string]tsServer{}}
	for _, x := range p.Decls("") {
		ref := tsRef{"./" + x.File.Base() + "." + x.Decl.Kind, schema.Hump(x.Decl.Name)}
		switch x.Decl.Kind {
		case schema.Enum:
			d.Enums[x.Decl.Name] = ref
		case schema.Data:
			t := tsData{tsRef: ref, Fields: []tsField{}}
			for _, f := range p.AllFields(x) {
				t.Fields = append(t.Fields, tsField{f.Field.Name, schema.LowerHump(f.Field.Name), tsType{f.Field.Type.Name, f.Field.Type.Shape, f.Field.Type.Key}})
			}
			d.Datas[x.Decl.Name] = t
		case schema.Server:
			t := tsServer{tsRef: ref, Methods: []tsMethod{}}
			for _, m := range p.AllMethods(x) {
				t.Methods = append(t.Methods, tsMethod{m.Method.Name, schema.LowerHump(m.Method.Name), m.Method.Param, m.Method.Result})
			}
			d.Servers[x.Decl.Name] = t
		}
	}
	return d
}

// tsTypes is a TypeScript file that only type-checks when the generated classes have the declared fields and types.
func tsTypes(p *schema.Program) string {
	var imp, b strings.Builder
	alias := map[string]string{}
	q := func(f *schema.File, kind string) string {
		m := "./" + f.Base() + "." + kind
		if alias[m] == "" {
			alias[m] = fmt.Sprintf("m%d", len(alias))
			fmt.Fprintf(&imp, "import * as %s from %q\n", alias[m], m)
		}
		return alias[m] + "."
	}
	imp.WriteString("import Long from \"long\"\nimport * as d from \"decimal.js\"\n")
	b.WriteString("type Eq<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false\n")
	b.WriteString("const used: [Long | null, d.Decimal | null] = [null, null]\n")
	for _, x := range p.Decls(schema.Data) {
		cls := q(x.File, schema.Data) + schema.Hump(x.Decl.Name)
		for i, f := range p.AllFields(x) {
			if multiField(p, x, f.Field.Name) {
				continue
			}
			fmt.Fprintf(&b, "{ const c%d: Eq<%s[%q], %s> = true; void c%d }\n", i, cls, schema.LowerHump(f.Field.Name), tsTypeOf(p, f.File, f.Field.Type, q), i)
		}
	}
	return imp.String() + b.String()
}

// multiField tells whether a field is defined more than once along the inheritance.
func multiField(p *schema.Program, x schema.Ref, name string) bool {
	n := 0
	var walk func(x schema.Ref)
	seen := map[*schema.Decl]bool{}
	walk = func(x schema.Ref) {
		if seen[x.Decl] {
			return
		}
		seen[x.Decl] = true
		for _, f := range x.Decl.Fields {
			if f.Name == name {
				n++
			}
		}
		for _, q := range x.Decl.Parents {
			if v := p.Visible(x.File, q.Name); v != nil {
				walk(*v)
			}
		}
	}
	walk(x)
	return n > 1
}

var tsScalar = map[string]string{"int8": "number", "int16": "number", "int32": "number", "int64": "Long", "uint8": "number", "uint16": "number", "uint32": "number", "uint64": "Long",
	"bool": "boolean", "float": "number", "double": "number", "string": "string", "date": "Date", "decimal": "d.Decimal"}

func tsTypeOf(p *schema.Program, f *schema.File, t schema.Type, q func(*schema.File, string) string) string {
	e := tsScalar[t.Name]
	if e == "" {
		x := p.Visible(f, t.Name)
		e = q(x.File, x.Decl.Kind) + schema.Hump(x.Decl.Name)
	}
	if t.Null {
		e += " | null"
	}
	switch t.Shape {
	case "array":
		e = "(" + e + ")[]"
	case "map":
		k := "string"
		switch t.Key {
		case "int8", "int16", "int32", "uint8", "uint16", "uint32", "float", "double", "date":
			k = "number"
		}
		if !schema.IsScalar(t.Key) {
			k = "number"
		}
		e = "Record<" + k + ", " + e + ">"
	default:
		return e
	}
	if t.ONull {
		e += " | null"
	}
	return e
}

// canon brings floats and decimals of a neutral value into one spelling.
func canon(p *schema.Program, x schema.Ref, v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	o := map[string]any{}
	for k, e := range m {
		o[k] = e
	}
	for _, f := range p.AllFields(x) {
		if e, ok := m[f.Field.Name]; ok {
			o[f.Field.Name] = canonField(p, f.File, f.Field.Type, e)
		}
	}
	return o
}

func canonField(p *schema.Program, f *schema.File, t schema.Type, v any) any {
	l, ok := v.([]any)
	if t.Shape == "" || !ok {
		return canonElem(p, f, t.Name, v)
	}
	o := []any{}
	for _, e := range l {
		if pr, ok := e.([]any); ok && t.Shape == "map" && len(pr) == 2 {
			o = append(o, []any{canonElem(p, f, t.Key, pr[0]), canonElem(p, f, t.Name, pr[1])})
		} else {
			o = append(o, canonElem(p, f, t.Name, e))
		}
	}
	return o
}

func canonElem(p *schema.Program, f *schema.File, n string, v any) any {
	if m, ok := v.(map[string]any); ok && !schema.IsScalar(n) {
		if x := p.Visible(f, n); x != nil && x.Decl.Kind == schema.Data {
			return canon(p, *x, m)
		}
		return v
	}
	s, ok := v.(string)
	if !ok {
		return v
	}
	switch n {
	case "float", "double":
		bits := 64
		if n == "float" {
			bits = 32
		}
		if g, err := strconv.ParseFloat(s, bits); err == nil {
			return strconv.FormatFloat(g, 'g', -1, bits)
		}
	case "decimal":
		if g, ok := new(big.Rat).SetString(s); ok {
			return g.RatString()
		}
	}
	return v
}

// zeroEnums: every enumeration has an item numbered 0, which is what a required field holds by default.
func zeroEnums(p *schema.Program) bool {
	for _, x := range p.Decls(schema.Enum) {
		ok := false
		for _, i := range x.Decl.Items {
			ok = ok || schema.ItemNum(i.ID) == "0"
		}
		if !ok {
			return false
		}
	}
	return true
}

// tsGlobals are names the generated code expects to be the standard ones.
var tsGlobals = map[string]bool{"Record": true, "Date": true, "Number": true, "Boolean": true, "Promise": true, "Error": true, "Long": true, "ArrayBuffer": true, "BinaryData": true, "RegExp": true}

func validTS(p *schema.Program) bool {
	all := map[int]bool{}
	for i := range p.Files {
		all[i] = true
	}
	for _, x := range p.Decls("") {
		if tsGlobals[schema.Hump(x.Decl.Name)] {
			return false
		}
	}
	for _, x := range p.Decls(schema.Server) { // members of the generated client
		for _, m := range x.Decl.Methods {
			if n := schema.LowerHump(m.Name); n == "id" || n == "name" {
				return false
			}
		}
	}
	return len(p.Validate(all)) == 0 && p.ValidVerify() && zeroEnums(p)
}

// tsDomain: valid for TypeScript, or the case of a known finding, which is outside the judged domain on purpose.
func tsDomain(c *core.Case) bool {
	all := map[int]bool{}
	for i := range c.Prog.Files {
		all[i] = true
	}
	return validTS(c.Prog) || c.Args["known"] != "" && len(c.Prog.Validate(all)) == 0
}

func must(v any) json.RawMessage { b, _ := json.Marshal(v); return b }

// badPart finds a value that has not the declared type.
func badPart(at string, v any) string {
	switch x := v.(type) {
	case map[string]any:
		if s, ok := x["!"]; ok && len(x) == 1 {
			return fmt.Sprintf("%s: %v", at, s)
		}
		for k, e := range x {
			if b := badPart(at+"."+k, e); b != "" {
				return b
			}
		}
	case []any:
		for i, e := range x {
			if b := badPart(fmt.Sprintf("%s[%d]", at, i), e); b != "" {
				return b
			}
		}
	}
	return ""
}

// diffNil is diff, but absent and empty lists differ.
func diffNil(at string, a, b any) string {
	if d := diff(at, a, b); d != "" {
		return d
	}
	return nilDiff(at, a, b)
}

func nilDiff(at string, a, b any) string {
	if (a == nil) != (b == nil) {
		return fmt.Sprintf("%s: %s became %s", at, show(a), show(b))
	}
	switch x := a.(type) {
	case map[string]any:
		y, _ := b.(map[string]any)
		for k, e := range x {
			if d := nilDiff(at+"."+k, e, y[k]); d != "" {
				return d
			}
		}
	case []any:
		y, _ := b.([]any)
		if len(y) != len(x) {
			return at + ": length"
		}
		if isPairs(x) && isPairs(y) && len(x) > 0 {
			x, y = sortPairs(x), sortPairs(y)
		}
		for i := range x {
			if d := nilDiff(fmt.Sprintf("%s[%d]", at, i), x[i], y[i]); d != "" {
				return d
			}
		}
	}
	return ""
}

func keysOf(m map[string]bool) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}
