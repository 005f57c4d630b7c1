package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"sort"
	"strings"
)

// C14: inheritance yields every field and method exactly once, in every target.
func init() {
	core.Register(&core.Check{
		ID:    "C14",
		Rule:  "a data type or server with two or more ancestors, or one that redeclares or shares inherited members, was judged in every target; distinct programs and values",
		Quick: 600, Thorough: 20000, Batch: 40, Timeout: 400e9,
		Setup:   setupAll,
		Gen:     genC14,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			valid := func(c *core.Case) bool {
				return crossValid(c) && !hasBytes(c.Prog) && validJava(c.Prog)
			}
			js, err := javaCompile(cs, valid)
			return bothBatch(cs, valid, regOpt{Servers: true}, tsOpt{Types: true}, func(g *goUnit, t *tsUnit) *core.Result {
				j := js[g.N]
				if j.bad != nil {
					return j.bad
				}
				if err != nil {
					return &core.Result{Infra: err.Error()}
				}
				return evalC14(g, t, j)
			})
		},
		Assumptions: []string{
			"the runtime libraries are those of C10 and C11; Dart runs in the interpreter of C23, where the program is within its domain",
			"of members declared more than once along the inheritance only that there is one is judged here, not which",
		},
	})
}

func genC14(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MaxEnums = 1
	cfg.MinDatas, cfg.MaxDatas = 3, 9
	cfg.MaxFields = 4
	cfg.MaxServers, cfg.MaxMethods = 6, 3
	cfg.ParentPct, cfg.MaxParents = 85, 4
	cfg.DocPct = 0
	cfg.MapKeys = jsonGoKeys
	cfg.ZeroEnum, cfg.NoEmbed = true, true
	cfg.Pkgs = []string{"java"}
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	for _, x := range p.Decls(schema.Data) {
		for _, f := range x.Decl.Fields {
			if f.Type.Shape == "array" && f.Type.Name == "uint8" && !f.Type.Null {
				f.Type.Name = "uint16"
			}
		}
	}
	for _, x := range p.Decls(schema.Data) { // a redeclared field keeps its type
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				for _, g := range x.Decl.Fields {
					if g != f && g.Name == f.Name && q.Decl != x.Decl {
						if d := p.Visible(x.File, f.Type.Name); javaScalars[f.Type.Name] != "" || d != nil {
							g.Type = f.Type
						}
					}
				}
			}
		}
	}
	return &core.Case{Prog: p, Ops: valueOps(r, p, 8+r.Int(12), schema.ValCfg{Depth: 2, MaxLen: 3})}
}

// twice finds a key that an object of a JSON text has twice.
func twice(text string) string {
	d := json.NewDecoder(strings.NewReader(text))
	var val func(at string) string
	val = func(at string) string {
		t, err := d.Token()
		if err != nil {
			return "no JSON: " + err.Error()
		}
		switch t {
		case json.Delim('{'):
			seen := map[string]bool{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return "no JSON: " + err.Error()
				}
				s, _ := k.(string)
				if seen[s] {
					return at + "." + s + " is there twice"
				}
				seen[s] = true
				if b := val(at + "." + s); b != "" {
					return b
				}
			}
			d.Token()
		case json.Delim('['):
			for d.More() {
				if b := val(at + "[]"); b != "" {
					return b
				}
			}
			d.Token()
		}
		return ""
	}
	return val("")
}

// sameSet compares a list of names with the expected ones, each once.
func sameSet(got []string, want []string) string {
	n := map[string]int{}
	for _, g := range got {
		n[g]++
	}
	var bad []string
	for _, w := range want {
		switch n[w] {
		case 0:
			bad = append(bad, w+" is missing")
		case 1:
		default:
			bad = append(bad, fmt.Sprintf("%s is there %d times", w, n[w]))
		}
		delete(n, w)
	}
	for g := range n {
		bad = append(bad, g+" is not declared")
	}
	sort.Strings(bad)
	return strings.Join(bad, ", ")
}

func anyNames(v any) (o []string) {
	l, _ := v.([]any)
	for _, e := range l {
		o = append(o, fmt.Sprint(e))
	}
	return
}

func each(p *schema.Program, x schema.Ref, conv func(string) string, pre string) (o []string) {
	if x.Decl.Kind == schema.Server {
		for _, m := range p.AllMethods(x) {
			o = append(o, pre+conv(m.Method.Name))
		}
		return
	}
	for _, f := range p.AllFields(x) {
		o = append(o, pre+conv(f.Field.Name))
	}
	return
}

func evalC14(g *goUnit, t *tsUnit, j *javaUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	var d *dartUnit
	if dartProblem(p, "") {
		var bad *core.Result
		if d, bad = dartOpen(g.Case); bad != nil {
			return bad
		}
		res.Labels = append(res.Labels, "dart")
	}
	for _, x := range p.Decls("") {
		if x.Decl.Kind == schema.Enum {
			continue
		}
		an := ancestors(p, x)
		all := 0
		for _, q := range an {
			all += len(q.Decl.Fields) + len(q.Decl.Methods)
		}
		if n := len(each(p, x, schema.Hump, "")); len(an) > 2 || n < all {
			res.NonTrivial = true
		}
	}
	// members
	var xs []schema.Ref
	var gops, tops, jops []*gop
	for _, x := range p.Decls("") {
		if x.Decl.Kind == schema.Enum {
			continue
		}
		xs = append(xs, x)
		gops = append(gops, &gop{Op: "members", Type: x.Decl.Name, Name: x.Decl.Kind})
		tops = append(tops, &gop{Op: "members", Type: x.Decl.Name, Name: x.Decl.Kind})
		jops = append(jops, &gop{Op: "api", Type: javaClass(x)})
	}
	if len(xs) == 0 {
		return res
	}
	greps, err := g.ask(gops)
	if err != nil {
		return died(err)
	}
	treps, err := t.ask(tops)
	if err != nil {
		return died(err)
	}
	jreps, err := j.ask(jops)
	if err != nil {
		return died(err)
	}
	for i, x := range xs {
		at := x.Decl.Kind + " " + x.Decl.Name
		for k, r := range map[string]*grep{"Go": greps[i], "TypeScript": treps[i], "Java": jreps[i]} {
			if r.Panic+r.Err != "" {
				return core.Failf("members", "%s, %s: %s%s", k, at, r.Panic, r.Err)
			}
		}
		var bad string
		say := func(target, what string, got, want []string) {
			if s := sameSet(got, want); s != "" && bad == "" {
				bad = fmt.Sprintf("%s, %s: %s: %s", target, at, what, s)
			}
			res.Evals++
		}
		gm, tm := greps[i].M, treps[i].M
		var java []string
		seen := map[string]bool{} // an interface lists what it inherits twice twice
		for _, m := range jreps[i].M["methods"].([]any) {
			n := fmt.Sprint(m.([]any)[0])
			if k := show(m); seen[k] {
				continue
			} else {
				seen[k] = true
			}
			if x.Decl.Kind == schema.Server || strings.HasPrefix(n, "get") || strings.HasPrefix(n, "set") {
				java = append(java, n)
			}
		}
		hump := each(p, x, schema.Hump, "")
		lower := each(p, x, schema.LowerHump, "")
		if x.Decl.Kind == schema.Data {
			say("Go", "fields", anyNames(gm["fields"]), hump)
			say("Go", "getters", anyNames(gm["Get"]), hump)
			say("Go", "setters", anyNames(gm["Set"]), hump)
			say("TypeScript", "fields", anyNames(tm["fields"]), lower)
			say("TypeScript", "wire names", anyNames(tm["wire"]), each(p, x, schema.Snake, ""))
			say("Java", "getters and setters", java, append(each(p, x, schema.Hump, "get"), each(p, x, schema.Hump, "set")...))
		} else {
			say("Go", "methods of the interface", anyNames(gm["interface"]), append(hump, "Init"))
			say("TypeScript", "methods of the client", anyNames(tm["client"]), lower)
			say("TypeScript", "endpoints", anyNames(tm["router"]), each(p, x, schema.Snake, schema.Snake(x.Decl.Name)+"/"))
			say("Go", "endpoints", anyNames(gm["router"]), each(p, x, schema.Snake, schema.Snake(x.Decl.Name)+"/"))
			var ms []string
			for _, n := range java {
				if n != "getName" && n != "getId" && n != "invoke" {
					ms = append(ms, n)
				}
			}
			say("Java", "methods", ms, lowers(hump))
		}
		if d != nil {
			if s := d.members(x, say); s != "" {
				return core.Failf("members", "Dart, %s: %s", at, s)
			}
		}
		if bad != "" {
			return core.Failf("members", "%s", bad)
		}
	}
	// the wire has each once, with the one value that was set
	type job struct {
		x schema.Ref
		v map[string]any
	}
	var jobs []job
	gops, tops = nil, nil
	for _, o := range g.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		dartDomain(p, *x, v)
		jobs = append(jobs, job{*x, v})
		gops = append(gops, &gop{Op: "roundtrip", Type: x.Decl.Name, Value: goValue(p, *x, v)})
		tops = append(tops, &gop{Op: "data", Type: x.Decl.Name, Value: v})
	}
	if len(jobs) == 0 {
		return res
	}
	if greps, err = g.ask(gops); err != nil {
		return died(err)
	}
	if treps, err = t.ask(tops); err != nil {
		return died(err)
	}
	for i, j := range jobs {
		at := j.x.Decl.Name + " " + show(j.v)
		judge := func(target string, text string, w schema.Wire) *core.Result {
			if s := twice(text); s != "" {
				return core.Failf("twice", "%s: %s\nencoded %s\nvalue %s", target, s, text, at)
			}
			tree, err := numTree(text)
			if err != nil {
				return core.Failf("json", "%s: no JSON: %q", target, text)
			}
			if s := w.Data(j.x.Decl.Name, j.x, j.v, tree); s != "" {
				return core.Failf("wire", "%s: %s\nencoded %s\nvalue %s", target, s, text, at)
			}
			res.Evals++
			return nil
		}
		if r := greps[i]; r.Panic+r.Err != "" {
			return core.Failf("go", "%s: %s%s", at, r.Panic, r.Err)
		}
		if r := treps[i]; r.Panic != "" {
			return core.Failf("ts", "%s: %s", at, r.Panic)
		}
		if f := judge("Go", greps[i].Text, schema.Wire{P: p, OmitZero: true}); f != nil {
			return f
		}
		if f := judge("TypeScript", treps[i].Text, schema.Wire{P: p}); f != nil {
			return f
		}
		if d != nil {
			text := ""
			err := dartx.Guard(func() {
				var e error
				if text, e = d.In.JSON(d.call(d.obj(j.x, j.v), "toMap")); e != nil {
					panic(&dartx.Thrown{V: e.Error()})
				}
			})
			if err != nil {
				return core.Failf("dart", "%s: %v", at, err)
			}
			if f := judge("Dart", text, schema.Wire{P: p}); f != nil {
				return f
			}
		}
		if len(res.Sample) < 300 {
			res.Sample += j.x.Decl.Name + " " + greps[i].Text + "\n"
		}
	}
	return res
}

func lowers(s []string) (o []string) {
	for _, n := range s {
		o = append(o, lowerFirst(n))
	}
	return
}

// members judges what a Dart class offers.
func (u *dartUnit) members(x schema.Ref, say func(target, what string, got, want []string)) string {
	p := u.P
	lower := each(p, x, schema.LowerHump, "")
	names := func(c *dartx.Class, kind func(*dartx.Func) bool) (o []string) {
		for _, f := range c.Funcs {
			if kind(f) {
				o = append(o, f.Name)
			}
		}
		return
	}
	err := dartx.Guard(func() {
		if x.Decl.Kind == schema.Data {
			var fs []string
			for _, f := range u.need2("_"+schema.Hump(x.Decl.Name), x).Fields {
				if !f.Static {
					fs = append(fs, f.Name)
				}
			}
			say("Dart", "fields", fs, lower)
			m, _ := u.call(u.obj(x, p.Fit(x, nil)), "toMap").(*dartx.Map)
			var ks []string
			if m != nil {
				for _, k := range m.K {
					ks = append(ks, fmt.Sprint(k))
				}
			}
			say("Dart", "wire names", ks, each(p, x, schema.Snake, ""))
			return
		}
		set := map[string]bool{}
		for _, n := range lower {
			set[n] = true
		}
		say("Dart", "methods of the client", names(u.need(x, "Client"), func(f *dartx.Func) bool { return set[f.Name] || f.Kind == "" && f.Name != "" && f.Name != "invoke" }), lower)
		router := u.In.New(u.need(x, "Router"), []dartx.Value{u.In.Stub(u.need(x, ""), nil)}, nil)
		var ks []string
		if m, ok := u.In.Get(router, "invokeNames").(*dartx.Map); ok {
			for _, k := range m.K {
				ks = append(ks, fmt.Sprint(k))
			}
		}
		say("Dart", "endpoints", ks, each(p, x, schema.Snake, schema.Snake(x.Decl.Name)+"/"))
	})
	if err != nil {
		return err.Error()
	}
	return ""
}

func (u *dartUnit) need2(name string, x schema.Ref) *dartx.Class {
	if f := u.In.P.Files[x.File.Base()+"."+x.Decl.Kind+".dart"]; f != nil {
		for _, c := range f.Classes {
			if c.Name == name {
				return c
			}
		}
	}
	panic(&dartx.Thrown{V: "there is no class " + name})
}
