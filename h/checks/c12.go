package checks

import (
	"hv/core"
	"hv/gox"
	"hv/jx"
	"hv/schema"
	"hv/tsx"
)

// C12: Go and TypeScript agree on the wire form of every value.
func init() {
	core.Register(&core.Check{
		ID:    "C12",
		Rule:  "at least one value with three or more set fields crossed between the compiled Go and TypeScript code in both directions; distinct programs and values",
		Quick: 1500, Thorough: 30000, Batch: 30, Timeout: 400e9,
		Setup:   setupBoth,
		Gen:     genC12,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return bothBatch(cs, crossValid, regOpt{}, tsOpt{}, evalC12)
		},
		Assumptions: []string{
			"the runtime libraries are those of C10 and C11",
			"values: as in C10 and C11; nil and empty lists and maps are the same value, as Go's JSON leaves both out",
		},
	})
}

func setupBoth() error {
	if err := gox.Setup(); err != nil {
		return err
	}
	return tsx.Setup()
}

func setupAll() error {
	if err := setupBoth(); err != nil {
		return err
	}
	return jx.Setup()
}

// crossValid: usable on both sides.
func crossValid(c *core.Case) bool {
	return validGo(c.Prog) && jsonGo(c.Prog) && validTS(c.Prog)
}

// bothBatch compiles the Go and the TypeScript code of all cases and evaluates each with both.
func bothBatch(cs []*core.Case, valid func(c *core.Case) bool, reg regOpt, opt tsOpt, eval func(g *goUnit, t *tsUnit) *core.Result) []*core.Result {
	units, err := tsCompile(cs, valid, opt)
	return goBatch(cs, valid, reg, func(g *goUnit) *core.Result {
		t := units[g.N]
		if t.bad != nil {
			return t.bad
		}
		if err != nil {
			return &core.Result{Infra: err.Error()}
		}
		return eval(g, t)
	})
}

// hasBytes tells whether some field is a list of bytes, which Go encodes as a base64 text.
func hasBytes(p *schema.Program) bool {
	for _, x := range p.Decls(schema.Data) {
		for _, f := range x.Decl.Fields {
			if f.Type.Shape == "array" && f.Type.Name == "uint8" && !f.Type.Null {
				return true
			}
		}
	}
	return false
}

func genC12(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MaxServers = 0
	cfg.MaxDatas = 6
	cfg.MapKeys = jsonGoKeys
	cfg.ZeroEnum = true
	cfg.NoEmbed = true
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	for _, x := range p.Decls(schema.Data) {
		for _, f := range x.Decl.Fields {
			if f.Type.Shape == "array" && f.Type.Name == "uint8" && !f.Type.Null {
				f.Type.Name = "uint16"
			}
		}
	}
	return &core.Case{Prog: p, Ops: valueOps(r, p, 8+r.Int(20), schema.ValCfg{Depth: r.Range(1, 3), MaxLen: r.Range(2, 6)})}
}

func evalC12(g *goUnit, t *tsUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	if hasBytes(p) && g.Case.Args["bytes"] == "" {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	type job struct {
		x        *schema.Ref
		v        map[string]any
		goIn     any
		want     any
		goT, tsT string
	}
	var jobs []*job
	var gops, tops []*gop
	for _, o := range g.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		jobs = append(jobs, &job{x: x, v: v, goIn: toAny(goValue(p, *x, v)), want: canon(p, *x, toAny(v))})
		gops = append(gops, &gop{Op: "roundtrip", Type: x.Decl.Name, Value: goValue(p, *x, v)})
		tops = append(tops, &gop{Op: "data", Type: x.Decl.Name, Value: v})
	}
	if len(jobs) == 0 {
		return res
	}
	greps, err := g.ask(gops)
	if err != nil {
		return died(err)
	}
	treps, err := t.ask(tops)
	if err != nil {
		return died(err)
	}
	gops, tops = nil, nil
	for i, j := range jobs {
		at := j.x.Decl.Name + " " + show(j.v)
		gr, tr := greps[i], treps[i]
		if gr.Err+gr.Panic != "" {
			return core.Failf("go-encode", "Go cannot encode %s: %s%s", at, gr.Err, gr.Panic)
		}
		if tr.Panic != "" {
			return core.Failf("ts-encode", "TypeScript cannot encode %s: %s", at, tr.Panic)
		}
		j.goT, j.tsT = gr.Text, tr.Text
		for k, text := range []string{gr.Text, tr.Text} {
			tree, err := numTree(text)
			if err != nil {
				return core.Failf("json", "no JSON: %q", text)
			}
			w := schema.Wire{P: p, OmitZero: k == 0}
			if d := w.Data(j.x.Decl.Name, *j.x, j.v, tree); d != "" {
				return core.Failf([]string{"go-wire", "ts-wire"}[k], "%s encodes a value against its wire form: %s\nvalue %s\nencoded %s", []string{"Go", "TypeScript"}[k], d, at, text)
			}
		}
		tops = append(tops, &gop{Op: "decode", Type: j.x.Decl.Name, Text: gr.Text})
		gops = append(gops, &gop{Op: "decode", Type: j.x.Decl.Name, Text: tr.Text})
	}
	if greps, err = g.ask(gops); err != nil {
		return died(err)
	}
	if treps, err = t.ask(tops); err != nil {
		return died(err)
	}
	gops, tops = nil, nil
	for i, j := range jobs {
		at := j.x.Decl.Name + " " + show(j.v)
		gr, tr := greps[i], treps[i]
		if gr.Err+gr.Panic != "" {
			return core.Failf("go-decode", "Go cannot decode what TypeScript encodes: %s%s\nvalue %s\nencoded %s", gr.Err, gr.Panic, at, j.tsT)
		}
		if tr.Panic != "" {
			return core.Failf("ts-decode", "TypeScript cannot decode what Go encodes: %s\nvalue %s\nencoded %s", tr.Panic, at, j.goT)
		}
		if d := diff("", j.want, canon(p, *j.x, schemaKeys(p, *j.x, gr.Value))); d != "" {
			return core.Failf("ts-to-go", "from TypeScript to Go: %s\nvalue %s\nencoded %s", d, at, j.tsT)
		}
		if d := diff("", j.want, canon(p, *j.x, tr.Value)); d != "" {
			return core.Failf("go-to-ts", "from Go to TypeScript: %s\nvalue %s\nencoded %s", d, at, j.goT)
		}
		gops = append(gops, &gop{Op: "decode", Type: j.x.Decl.Name, Text: tr.Text})
		set := 0
		for _, v := range j.v {
			if v != nil {
				set++
			}
		}
		res.NonTrivial = res.NonTrivial || set >= 3
		res.Evals++
		if len(j.goT) > len(res.Sample) {
			res.Sample = j.x.Decl.Name + "\nGo " + j.goT + "\nTS " + j.tsT
		}
	}
	if greps, err = g.ask(gops); err != nil { // Go -> TypeScript -> Go
		return died(err)
	}
	for i, j := range jobs {
		if d := diff("", j.want, canon(p, *j.x, schemaKeys(p, *j.x, greps[i].Value))); greps[i].Err+greps[i].Panic != "" || d != "" {
			return core.Failf("again", "from Go to TypeScript and back: %s%s%s\nvalue %s\nencoded %s\nthen %s", greps[i].Err, greps[i].Panic, d, show(j.v), j.goT, gops[i].Text)
		}
	}
	return res
}

// schemaKeys turns Go field names of a neutral value into schema names.
func schemaKeys(p *schema.Program, x schema.Ref, v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	o := map[string]any{}
	for k, e := range m {
		o["+"+k] = e
	}
	for _, f := range p.AllFields(x) {
		n := schema.Hump(f.Field.Name)
		e, ok := m[n]
		delete(o, "+"+n)
		if !ok {
			continue
		}
		o[f.Field.Name] = e
		y := p.Visible(f.File, f.Field.Type.Name)
		if schema.IsScalar(f.Field.Type.Name) || y == nil || y.Decl.Kind != schema.Data {
			continue
		}
		l, isList := e.([]any)
		switch {
		case f.Field.Type.Shape == "":
			o[f.Field.Name] = schemaKeys(p, *y, e)
		case isList:
			n := []any{}
			for _, q := range l {
				if pr, ok := q.([]any); ok && f.Field.Type.Shape == "map" && len(pr) == 2 {
					n = append(n, []any{pr[0], schemaKeys(p, *y, pr[1])})
				} else {
					n = append(n, schemaKeys(p, *y, q))
				}
			}
			o[f.Field.Name] = n
		}
	}
	return o
}
