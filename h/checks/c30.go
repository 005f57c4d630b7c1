package checks

import (
	"hv/core"
	"hv/dartx"
	"hv/gox"
	"hv/schema"
)

// C30: Go and Dart agree on the wire form of every value.
func init() {
	core.Register(&core.Check{
		ID:    "C30",
		Rule:  "at least one value with three or more set fields crossed between the compiled Go code and the interpreted Dart code in both directions; distinct programs and values",
		Quick: 1500, Thorough: 30000, Batch: 30, Timeout: 400e9,
		Setup:   gox.Setup,
		Gen:     genC30,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, func(c *core.Case) bool {
				return validGo(c.Prog) && jsonGo(c.Prog) && dartProblem(c.Prog, "")
			}, regOpt{}, evalC30)
		},
		Assumptions: []string{
			"the runtime libraries are those of C10; Dart runs in the interpreter of C23",
			"values: as in C10 and C23; nil and empty lists and maps are the same value, as Go's JSON leaves both out",
		},
	})
}

func genC30(r *schema.R, idx int) *core.Case {
	c := genC12(r, idx)
	c.Prog.Layout = r.U64()
	// a redeclared field keeps its type
	p := c.Prog
	for _, x := range p.Decls(schema.Data) {
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				for _, g := range x.Decl.Fields {
					if g != f && g.Name == f.Name && q.Decl != x.Decl && (schema.IsScalar(f.Type.Name) || p.Visible(x.File, f.Type.Name) != nil) {
						g.Type = f.Type
					}
				}
			}
		}
	}
	c.Ops = valueOps(r, p, 8+r.Int(20), schema.ValCfg{Depth: r.Range(1, 3), MaxLen: r.Range(2, 6)})
	return c
}

func evalC30(g *goUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	if hasBytes(p) && g.Case.Args["bytes"] == "" {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	u, bad := dartOpen(g.Case)
	if bad != nil {
		return bad
	}
	type job struct {
		x         *schema.Ref
		v         map[string]any
		want      any
		text, dar string
	}
	var jobs []*job
	var ops []*gop
	for _, o := range g.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		dartDomain(p, *x, v)
		jobs = append(jobs, &job{x: x, v: v, want: canon(p, *x, toAny(v))})
		ops = append(ops, &gop{Op: "roundtrip", Type: x.Decl.Name, Value: goValue(p, *x, v)})
	}
	if len(jobs) == 0 {
		return res
	}
	reps, err := g.ask(ops)
	if err != nil {
		return died(err)
	}
	// decoded is what Dart makes of a text; encoded is its own text of that object.
	dart := func(j *job, text string) (decoded any, encoded string, err error) {
		err = dartx.Guard(func() {
			m, e := dartx.FromJSON(text)
			if e != nil {
				panic(e)
			}
			o := u.In.Call(u.In.Static(u.need(*j.x, ""), "fromMap"), []dartx.Value{m}, nil)
			decoded = u.fields(*j.x, o)
			if encoded, e = u.In.JSON(u.call(o, "toMap")); e != nil {
				panic(e)
			}
		})
		return
	}
	var again []*gop
	ops = nil
	for i, j := range jobs {
		at := j.x.Decl.Name + " " + show(j.v)
		r := reps[i]
		if r.Err+r.Panic != "" {
			return core.Failf("go-encode", "Go cannot encode %s: %s%s", at, r.Err, r.Panic)
		}
		j.text = r.Text
		if err := dartx.Guard(func() {
			s, e := u.In.JSON(u.call(u.obj(*j.x, j.v), "toMap"))
			if e != nil {
				panic(e)
			}
			j.dar = s
		}); err != nil {
			return core.Failf("dart-encode", "Dart cannot encode %s: %v", at, err)
		}
		for k, text := range []string{j.text, j.dar} {
			tree, err := numTree(text)
			if err != nil {
				return core.Failf("json", "no JSON: %q", text)
			}
			w := schema.Wire{P: p, OmitZero: k == 0}
			if d := w.Data(j.x.Decl.Name, *j.x, j.v, tree); d != "" {
				return core.Failf([]string{"go-wire", "dart-wire"}[k], "%s encodes a value against its wire form: %s\nvalue %s\nencoded %s", []string{"Go", "Dart"}[k], d, at, text)
			}
		}
		got, back, err := dart(j, j.text)
		if err != nil {
			return core.Failf("dart-decode", "Dart cannot decode what Go encodes: %v\nvalue %s\nencoded %s", err, at, j.text)
		}
		if d := diff("", j.want, canon(p, *j.x, got)); d != "" {
			return core.Failf("go-to-dart", "from Go to Dart: %s\nvalue %s\nencoded %s", d, at, j.text)
		}
		ops = append(ops, &gop{Op: "decode", Type: j.x.Decl.Name, Text: j.dar})
		again = append(again, &gop{Op: "decode", Type: j.x.Decl.Name, Text: back})
	}
	for k, list := range [][]*gop{ops, again} {
		if reps, err = g.ask(list); err != nil {
			return died(err)
		}
		for i, j := range jobs {
			at, r := j.x.Decl.Name+" "+show(j.v), reps[i]
			sig, what := []string{"dart-to-go", "again"}[k], []string{"from Dart to Go", "from Go to Dart and back"}[k]
			if r.Err+r.Panic != "" {
				return core.Failf(sig, "%s: Go cannot decode what Dart encodes: %s%s\nvalue %s\nencoded %s", what, r.Err, r.Panic, at, list[i].Text)
			}
			if d := diff("", j.want, canon(p, *j.x, schemaKeys(p, *j.x, r.Value))); d != "" {
				return core.Failf(sig, "%s: %s\nvalue %s\nencoded %s", what, d, at, list[i].Text)
			}
		}
	}
	for _, j := range jobs {
		set := 0
		for _, v := range j.v {
			if v != nil {
				set++
			}
		}
		res.NonTrivial = res.NonTrivial || set >= 3
		res.Evals++
		if len(j.text) > len(res.Sample) {
			res.Sample = j.x.Decl.Name + "\nGo   " + j.text + "\nDart " + j.dar
		}
	}
	return res
}
