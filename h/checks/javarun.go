package checks

import (
	"fmt"
	"hv/core"
	"hv/jx"
	"hv/schema"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

// javaUnit is one case whose generated Java was compiled.
type javaUnit struct {
	N     int
	Case  *core.Case
	Prog  *schema.Program
	bad   *core.Result
	Files map[string]string
}

var jvm jx.Java

// javaCompile generates and compiles; a unit is nil outside the domain.
func javaCompile(cs []*core.Case, valid func(c *core.Case) bool) ([]*javaUnit, error) {
	units := make([]*javaUnit, len(cs))
	dir := scratch()
	defer os.RemoveAll(dir)
	var us []*jx.Unit
	for i, c := range cs {
		if !valid(c) {
			continue
		}
		u := &javaUnit{N: i, Case: c, Prog: c.Prog}
		units[i] = u
		u.Files, u.bad = generate(c.Prog, filepath.Join(dir, fmt.Sprint("s", i)), filepath.Join(dir, fmt.Sprint("g", i)), "java")
		if u.bad == nil {
			us = append(us, &jx.Unit{N: i, Files: u.Files})
		}
	}
	if len(us) == 0 {
		return units, nil
	}
	diags, err := jvm.Compile(us)
	if err != nil {
		return units, err
	}
	for _, x := range us {
		if ds := diags[x.N]; len(ds) > 0 {
			if len(ds) > 8 {
				ds = append(ds[:8:8], fmt.Sprintf("and %d more", len(ds)-8))
			}
			units[x.N].bad = core.Failf("compile", "the generated Java does not compile:\n%s", strings.Join(ds, "\n"))
		}
	}
	return units, nil
}

func javaBatch(cs []*core.Case, valid func(c *core.Case) bool, eval func(u *javaUnit) *core.Result) []*core.Result {
	out := make([]*core.Result, len(cs))
	units, err := javaCompile(cs, valid)
	for i, u := range units {
		switch {
		case u == nil:
			out[i] = &core.Result{Labels: []string{"outside the domain"}}
		case u.bad != nil:
			out[i] = u.bad
		case err != nil:
			out[i] = &core.Result{Infra: err.Error()}
		default:
			core.Progress(i)
			out[i] = eval(u)
		}
	}
	return out
}

func (u *javaUnit) ask(ops []*gop) ([]*grep, error) {
	var reps []*grep
	err := jvm.Ask(u.N, ops, &reps)
	return reps, err
}

func javaPkg(f *schema.File) string { return f.Pkg("java") }

// javaOuter is the class that holds the declarations of one kind of a file.
func javaOuter(f *schema.File, kind string) string {
	return schema.Hump(f.Base()) + map[string]string{schema.Data: "Data", schema.Enum: "Enum", schema.Server: "Server"}[kind]
}

// javaClass is the binary name of a declaration's class.
func javaClass(x schema.Ref) string {
	return javaPkg(x.File) + "." + javaOuter(x.File, x.Decl.Kind) + "$" + schema.Hump(x.Decl.Name)
}

var javaScalars = map[string]string{"int8": "java.lang.Byte", "int16": "java.lang.Short", "int32": "java.lang.Integer", "int64": "java.lang.Long", "uint8": "java.lang.Character", "uint16": "java.lang.Integer", "uint32": "java.lang.Long", "uint64": "java.math.BigInteger",
	"bool": "java.lang.Boolean", "float": "java.lang.Float", "double": "java.lang.Double", "string": "java.lang.String", "date": "java.util.Date", "decimal": "java.math.BigDecimal"}

func javaType(p *schema.Program, f *schema.File, t schema.Type) string {
	s := javaScalars[t.Name]
	if s == "" {
		if x := p.Visible(f, t.Name); x != nil {
			s = javaClass(*x)
		}
	}
	switch t.Shape {
	case "array":
		return "java.util.List<" + s + ">"
	case "map":
		return "java.util.Map<" + javaScalarOr(p, f, t.Key) + ", " + s + ">"
	}
	return s
}

func javaScalarOr(p *schema.Program, f *schema.File, n string) string {
	if s := javaScalars[n]; s != "" {
		return s
	}
	if x := p.Visible(f, n); x != nil {
		return javaClass(*x)
	}
	return ""
}

// names of the Java and runtime libraries that the generated code uses without a qualifier
var javaTaken = map[string]bool{}

func init() {
	for _, s := range strings.Fields("Byte Short Integer Long Character Boolean Float Double String Date BigDecimal BigInteger List Map Data Server Object Override Exception RuntimeException Void CompletableFuture Context Client ClientRouter Class FormJson Decode") {
		javaTaken[s] = true
	}
}

// validJava: valid, every file has a Java package, and no known finding applies.
func validJava(p *schema.Program) bool { return javaProblem(p, "") }

// javaProblem: like validJava, with one of the known findings allowed.
func javaProblem(p *schema.Program, allow string) bool {
	all := map[int]bool{}
	outer, types := map[string]bool{}, map[string]bool{}
	for i, f := range p.Files {
		all[i] = true
		if javaPkg(f) == "" {
			return false
		}
		for _, k := range []string{schema.Data, schema.Enum, schema.Server} {
			o := javaOuter(f, k)
			if outer[o] {
				return false
			}
			outer[o] = true
		}
	}
	if len(p.Validate(all)) > 0 || !p.ValidVerify() {
		return false
	}
	add := func(n string) bool {
		ok := !types[n] && !javaTaken[n] && !outer[n]
		types[n] = true
		return ok
	}
	for _, x := range p.Decls("") {
		n := schema.Hump(x.Decl.Name)
		ok := add(n)
		switch x.Decl.Kind {
		case schema.Data:
			ok = add(n+"Impl") && ok
		case schema.Server:
			ok = add(n+"Client") && ok
		case schema.Enum:
			for _, i := range x.Decl.Items {
				if v, err := strconv.ParseInt(schema.ItemNum(i.ID), 10, 64); err != nil || v < -1<<31 || v > 1<<31-1 {
					return false
				}
			}
		}
		if !ok && allow != "names" {
			return false
		}
	}
	if allow == "redeclared" {
		return true
	}
	for _, x := range p.Decls(schema.Data) {
		have := map[string]string{}
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				t := javaType(p, q.File, f.Type)
				if h := have[f.Name]; h != "" && h != t {
					return false
				}
				have[f.Name] = t
			}
		}
	}
	for _, x := range p.Decls(schema.Server) {
		have := map[string]string{}
		for _, q := range ancestors(p, x) {
			for _, m := range q.Decl.Methods {
				t := javaResult(p, q.File, m) + " " + javaScalarOr(p, q.File, m.Param)
				if h := have[m.Name]; h != "" && h != t {
					return false
				}
				have[m.Name] = t
			}
		}
	}
	return true
}

func javaResult(p *schema.Program, f *schema.File, m *schema.Method) string {
	if m.Result == "void" {
		return "java.lang.Void"
	}
	return javaScalarOr(p, f, m.Result)
}

// ancestors lists a declaration and everything it inherits from, each once.
func ancestors(p *schema.Program, x schema.Ref) []schema.Ref {
	var out []schema.Ref
	seen := map[*schema.Decl]bool{}
	var walk func(x schema.Ref)
	walk = func(x schema.Ref) {
		if seen[x.Decl] {
			return
		}
		seen[x.Decl] = true
		out = append(out, x)
		for _, n := range x.Decl.Parents {
			if q := p.Visible(x.File, n.Name); q != nil && q.Decl.Kind == x.Decl.Kind {
				walk(*q)
			}
		}
	}
	walk(x)
	return out
}
