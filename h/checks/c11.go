package checks

import (
	"hv/core"
	"hv/schema"
	"hv/tsx"
)

// C11: generated TypeScript type-checks and round-trips every data value.
func init() {
	core.Register(&core.Check{
		ID:    "C11",
		Rule:  "at least one value with three or more set fields was encoded, decoded and cloned by the compiled generated code; distinct programs and values",
		Quick: 2000, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   tsx.Setup,
		Gen:     genC11,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return tsBatch(cs, tsDomain, tsOpt{Types: true, UI: true}, evalC11)
		},
		Assumptions: []string{
			"hbuf_ts, decimal.js and element-plus are stand-ins with the names the generated code uses; long is the published package (5.3.2)",
			"values: texts are valid Unicode, floats are finite and not minus zero, dates are whole milliseconds within what Date can hold",
			"every enumeration has an item numbered 0 (the default of a required field)",
		},
	})
}

var tsCfg = schema.Cfg{MinFiles: 1, MaxFiles: 4, MaxEnums: 3, MinEnums: 0, MaxDatas: 7, MinDatas: 1, MaxServers: 3, MaxFields: 7, MaxItems: 5, MaxMethods: 4, ParentPct: 45, MaxParents: 3, ZeroEnum: true, NoEmbed: true,
	MapKeys: schema.AllKeys, EnumKeys: true, Shapes: true, DataRefs: true, EnumRefs: true, DocPct: 15, MultiDoc: true, HexPct: 15, BigIDs: true, Void: true, Dirs: true, Diamonds: true, Override: true}

func genC11(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	if r.P(25) {
		schema.DecorateVerify(r, p, 40)
	}
	if r.P(30) {
		schema.DecorateUI(r, p, 60)
	}
	return &core.Case{Prog: p, Ops: valueOps(r, p, 10+r.Int(30), schema.ValCfg{Depth: r.Range(1, 3), MaxLen: r.Range(2, 6)})}
}

func evalC11(u *tsUnit) *core.Result {
	res := &core.Result{NonTrivial: false}
	p := u.Prog
	type job struct {
		x    *schema.Ref
		v    map[string]any
		want any
	}
	var jobs []job
	var ops []*gop
	for _, o := range u.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		jobs = append(jobs, job{x, v, canon(p, *x, toAny(v))})
		ops = append(ops, &gop{Op: "data", Type: x.Decl.Name, Value: v})
	}
	for _, x := range p.Decls(schema.Data) {
		jobs = append(jobs, job{&x, nil, nil})
		ops = append(ops, &gop{Op: "fresh", Type: x.Decl.Name})
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		rep := reps[i]
		at := j.x.Decl.Name + " " + show(j.v)
		if rep.Panic != "" {
			return core.Failf("throws", "encoding, decoding or cloning %s throws: %s", at, rep.Panic)
		}
		got := canon(p, *j.x, rep.Value)
		if j.v == nil { // a new object: whatever its defaults are, they have the declared types
			if b := badPart("", got); b != "" {
				return core.Failf("default", "a new %s: %s", j.x.Decl.Name, b)
			}
			continue
		}
		tree, err := numTree(rep.Text)
		if err != nil {
			return core.Failf("json", "%s is not encoded as JSON: %q", at, rep.Text)
		}
		w := schema.Wire{P: p, KeysOnly: true}
		if d := w.Data(j.x.Decl.Name, *j.x, j.v, tree); d != "" {
			return core.Failf("wire", "%s\nvalue %s\nencoded %s", d, at, rep.Text)
		}
		for _, q := range []struct {
			sig, what string
			v         any
		}{{"fields", "storing the value in the generated class", rep.M["built"]}, {"mutated", "encoding", rep.M["after"]}, {"roundtrip", "the round trip through JSON", rep.Value}, {"roundtrip", "the round trip without JSON text", rep.M["direct"]}, {"clone", "cloning", rep.M["clone"]}, {"mutated", "cloning the original", rep.M["afterClone"]}} {
			if d := diffNil("", j.want, canon(p, *j.x, q.v)); d != "" {
				return core.Failf(q.sig, "%s changes %s\nvalue %s\nencoded %s", q.what, d, at, rep.Text)
			}
		}
		if rep.M["cloneClass"] != true {
			return core.Failf("clone", "the clone of %s is no %s", at, j.x.Decl.Name)
		}
		if s, _ := rep.M["shared"].(string); s != "" {
			return core.Failf("shared", "the clone shares %s with its original: %s", s, at)
		}
		if a, b := treeOf(rep.M["cloneText"]), treeOf(rep.Text); diffNil("", a, b) != "" {
			return core.Failf("clone", "the clone is encoded differently: %s\n%v\n%s", diffNil("", a, b), rep.M["cloneText"], rep.Text)
		}
		set := 0
		for _, v := range j.v {
			if v != nil {
				set++
			}
		}
		res.NonTrivial = res.NonTrivial || set >= 3
		res.Evals++
		if len(rep.Text) > len(res.Sample) {
			res.Sample = j.x.Decl.Name + " " + rep.Text
		}
	}
	return res
}

func treeOf(v any) any {
	s, _ := v.(string)
	t, _ := numTree(s)
	return t
}
