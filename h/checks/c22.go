package checks

import (
	"fmt"
	"hv/core"
	"hv/jx"
	"hv/schema"
	"sort"
	"strings"
)

// C22: generated Java compiles and keeps every field and method.
func init() {
	core.Register(&core.Check{
		ID:    "C22",
		Rule:  "at least one data type with three or more fields, or a server with two or more methods, was exercised through its compiled Java classes; distinct programs",
		Quick: 3000, Thorough: 60000, Batch: 60, Timeout: 400e9,
		Setup: jx.Setup,
		Gen:   genC22,
		Eval: func(cs []*core.Case) []*core.Result {
			return javaBatch(cs, func(c *core.Case) bool { return javaProblem(c.Prog, c.Args["allow"]) }, evalC22)
		},
		Assumptions: []string{
			"the runtime (com.hbuf.java.Data and Server) is a stand-in with the names the generated code uses",
			"every file has a Java package; enumeration numbers fit an int",
			"copy(), toData() and formData() of the generated classes are unfinished stubs upstream and not judged",
		},
	})
}

func genC22(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	cfg.Pkgs = []string{"java"}
	cfg.ZeroEnum = r.P(50)
	cfg.NoEmbed = r.P(30)
	if cfg.NoEmbed == false {
		cfg.NoEmbed = true // required self reference is outside every target's domain
	}
	cfg.MaxServers = schema.Pick(r, []int{0, 2, 4})
	cfg.Unused = r.P(20)
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	p.Layout = r.U64()
	if r.P(30) { // packages may be shared, and nested
		for _, f := range p.Files {
			for k := range f.Pkgs {
				if f.Pkgs[k].Lang == "java" {
					f.Pkgs[k].Value = schema.Pick(r, []string{"gen", "gen", "com.gen", "com.gen.api.v1", f.Pkgs[k].Value})
				}
			}
		}
	}
	if r.P(25) {
		schema.DecorateVerify(r, p, 40)
	}
	if r.P(25) {
		schema.DecorateUI(r, p, 60)
	}
	// a redeclared field keeps its type
	for _, x := range p.Decls(schema.Data) {
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				for _, g := range x.Decl.Fields {
					if g != f && g.Name == f.Name && q.Decl != x.Decl {
						if d := p.Visible(x.File, f.Type.Name); javaScalars[f.Type.Name] != "" || d != nil {
							g.Type.Name, g.Type.Shape, g.Type.Key = f.Type.Name, f.Type.Shape, f.Type.Key
						}
					}
				}
			}
		}
	}
	return &core.Case{Prog: p}
}

func evalC22(u *javaUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	want := map[string]bool{}
	for _, f := range p.Files {
		for _, k := range []string{schema.Data, schema.Enum, schema.Server} {
			want[javaOuter(f, k)+".java"] = true
		}
	}
	for n := range u.Files {
		if !want[n] {
			return core.Failf("files", "unexpected file %s", n)
		}
	}
	type job struct {
		x  schema.Ref
		op *gop
	}
	var jobs []job
	add := func(x schema.Ref, o *gop) { jobs = append(jobs, job{x, o}) }
	for i, x := range p.Decls("") {
		cls := javaClass(x)
		switch x.Decl.Kind {
		case schema.Data:
			add(x, &gop{Op: "api", Type: cls})
			add(x, &gop{Op: "api", Type: cls + "Impl", Name: "impl"})
			fs := p.AllFields(x)
			js := []string{}
			for k := 0; k < 2*len(fs); k++ {
				n := schema.Hump(fs[(k*5+i)%len(fs)].Field.Name)
				if k < len(fs) {
					n = schema.Hump(fs[k].Field.Name)
				} else if k%3 == 0 {
					n = "-" + n
				}
				js = append(js, n)
			}
			add(x, &gop{Op: "bean", Type: cls + "Impl", Name: cls, J: js})
		case schema.Enum:
			add(x, enumOp(x, cls, "7919"))
		case schema.Server:
			add(x, &gop{Op: "api", Type: cls})
			add(x, &gop{Op: "api", Type: cls + "Client", Name: "client"})
			js := []map[string]string{}
			for _, m := range p.AllMethods(x) {
				js = append(js, map[string]string{"fn": lowerFirst(schema.Hump(m.Method.Name)), "param": javaScalarOr(p, m.File, m.Method.Param)})
			}
			add(x, &gop{Op: "rpc", Type: cls + "Client", Name: cls, J: js})
		}
	}
	if len(jobs) == 0 {
		return res
	}
	var ops []*gop
	for _, j := range jobs {
		ops = append(ops, j.op)
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		r, at := reps[i], j.x.Decl.Kind+" "+j.x.Decl.Name
		if r.Panic != "" {
			return core.Failf(j.op.Op, "%s: %s", at, r.Panic)
		}
		var f *core.Result
		switch j.op.Op {
		case "enum":
			f = newEnumModelOf(j.x, schema.UpperSnake).judgeObj("Java", r, j.op)
		case "api":
			f = judgeJavaAPI(p, j.x, j.op, r)
		case "bean":
			if b, _ := r.M["bad"].([]any); len(b) > 0 {
				f = core.Failf("bean", "%s: %s", at, show(b))
			}
			if len(p.AllFields(j.x)) > 2 {
				res.NonTrivial = true
			}
		case "rpc":
			f = judgeJavaRPC(p, j.x, r)
			if len(p.AllMethods(j.x)) > 1 {
				res.NonTrivial = true
			}
		}
		if f != nil {
			return f
		}
		res.Evals++
		if len(res.Sample) < 300 {
			res.Sample += at + " "
		}
	}
	return res
}

// judgeJavaAPI: the methods of a class are those declared and inherited, with their types, and it has its supertypes.
func judgeJavaAPI(p *schema.Program, x schema.Ref, o *gop, r *grep) *core.Result {
	at := "class " + o.Type
	if r.M["none"] == true {
		return core.Failf("missing", "there is no %s", at)
	}
	if itf := o.Name == ""; r.M["interface"] != itf || r.M["public"] != true {
		return core.Failf("api", "%s: public %v, interface %v", at, r.M["public"], r.M["interface"])
	}
	sup := map[string]bool{}
	for _, s := range r.M["supers"].([]any) {
		sup[s.(string)] = true
	}
	for _, q := range ancestors(p, x) {
		if n := javaClass(q); n != o.Type && !sup[n] {
			return core.Failf("api", "%s is not a %s", at, n)
		}
	}
	got := map[string]bool{}
	for _, m := range r.M["methods"].([]any) {
		var s []string
		for _, t := range m.([]any) {
			s = append(s, t.(string))
		}
		if x.Decl.Kind == schema.Data && !strings.HasPrefix(s[0], "get") && !strings.HasPrefix(s[0], "set") {
			continue
		}
		if o.Name == "client" && (s[0] == "getName" || s[0] == "getId") && len(s) == 2 || s[0] == "invoke" && len(s) > 4 {
			continue
		}
		got[strings.Join(s, " ")] = true
	}
	want := map[string]bool{}
	if x.Decl.Kind == schema.Data {
		for _, f := range p.AllFields(x) {
			t, h := javaType(p, f.File, f.Field.Type), schema.Hump(f.Field.Name)
			want["get"+h+" "+t] = true
			want["set"+h+" void "+t] = true
		}
	} else {
		for _, m := range p.AllMethods(x) {
			want[fmt.Sprintf("%s java.util.concurrent.CompletableFuture<%s> %s com.hbuf.java.Server$Context", lowerFirst(schema.Hump(m.Method.Name)), javaResult(p, m.File, m.Method), javaScalarOr(p, m.File, m.Method.Param))] = true
		}
	}
	var miss, more []string
	for k := range want {
		if !got[k] {
			miss = append(miss, k)
		}
	}
	for k := range got {
		if !want[k] {
			more = append(more, k)
		}
	}
	sort.Strings(miss)
	sort.Strings(more)
	if len(miss)+len(more) > 0 {
		return core.Failf("api", "%s: missing %s, unexpected %s", at, show(miss), show(more))
	}
	return nil
}

func judgeJavaRPC(p *schema.Program, x schema.Ref, r *grep) *core.Result {
	at := "client of " + x.Decl.Name
	if r.M["name"] != schema.Snake(x.Decl.Name) {
		return core.Failf("rpc", "%s: the server is called %s", at, show(r.M["name"]))
	}
	out := r.M["out"].([]any)
	seen := map[string]bool{}
	for i, m := range p.AllMethods(x) {
		o := out[i].(map[string]any)
		if e, _ := o["err"].(string); e != "" {
			return core.Failf("rpc", "%s.%s: %s", at, m.Method.Name, e)
		}
		path := schema.Snake(x.Decl.Name) + "/" + schema.Snake(m.Method.Name)
		if plain(o["calls"]) != "1" || o["path"] != path || o["same"] != true || o["result"] != true || seen[path] {
			return core.Failf("rpc", "%s.%s: %s, the endpoint is %s", at, m.Method.Name, show(o), path)
		}
		seen[path] = true
		if o["id"] != schema.ItemNum(m.Method.ID) {
			return core.Failf("rpc", "%s.%s: the number is %s, declared %s", at, m.Method.Name, show(o["id"]), m.Method.ID)
		}
		var dec any
		if m.Method.Result != "void" {
			dec = javaResult(p, m.File, m.Method) + "Impl"
			if o["decodedText"] != `{"a":1}` {
				return core.Failf("rpc", "%s.%s: the reply's text is decoded as %s", at, m.Method.Name, show(o["decodedText"]))
			}
		}
		if o["decoded"] != dec {
			return core.Failf("rpc", "%s.%s: the reply is decoded as %s, declared %s", at, m.Method.Name, show(o["decoded"]), show(dec))
		}
	}
	return nil
}
