package checks

import (
	"fmt"
	"hv/core"
	"hv/gox"
	"hv/schema"
)

// C10: Go data values survive the JSON round trip under their wire names.
func init() {
	core.Register(&core.Check{
		ID:    "C10",
		Rule:  "at least one value with three or more set fields was encoded and decoded by the compiled generated code; distinct programs and values",
		Quick: 1200, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     genC10,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, func(c *core.Case) bool { return validGo(c.Prog) && jsonGo(c.Prog) }, regOpt{}, evalC10)
		},
		Assumptions: []string{
			"values: texts are valid UTF-8, floats are finite and not minus zero, dates are whole milliseconds; nil and empty lists and maps are the same value",
			"map keys are integers, texts, enumeration items or decimals, which Go's encoding/json can express",
		},
	})
}

var jsonGoKeys = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "decimal"}

func genC10(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MaxServers = 0
	cfg.MaxDatas = 7
	cfg.MapKeys = jsonGoKeys
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	return &core.Case{Prog: p, Ops: valueOps(r, p, 10+r.Int(30), schema.ValCfg{Depth: r.Range(1, 3), MaxLen: r.Range(2, 6)})}
}

// jsonGo tells whether Go's encoder can express the program's maps.
func jsonGo(p *schema.Program) bool {
	for _, x := range p.Decls(schema.Data) {
		for _, f := range x.Decl.Fields {
			if f.Type.Shape == "map" && (f.Type.Key == "bool" || f.Type.Key == "float" || f.Type.Key == "double" || f.Type.Key == "date") {
				return false
			}
		}
	}
	return true
}

func evalC10(u *goUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	var ops []*gop
	type job struct {
		x    *schema.Ref
		v    map[string]any
		want any
	}
	var jobs []job
	for _, o := range u.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		want := toAny(goValue(p, *x, v))
		jobs = append(jobs, job{x, v, want})
		ops = append(ops, &gop{Op: "roundtrip", Type: x.Decl.Name, Value: want}, &gop{Op: "getset", Type: x.Decl.Name, Value: dropNil(want), Names: goNames(p, *x)})
	}
	if len(ops) == 0 {
		return res
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		rt, gs := reps[2*i], reps[2*i+1]
		at := j.x.Decl.Name + " " + show(j.v)
		if rt.Panic != "" {
			return core.Failf("panic", "encoding or decoding %s panics: %s", at, rt.Panic)
		}
		if rt.Err != "" {
			return core.Failf("error", "encoding or decoding %s fails: %s\n%s", at, rt.Err, rt.Text)
		}
		tree, err := numTree(rt.Text)
		if err != nil {
			return core.Failf("json", "%s is not encoded as JSON: %q", at, rt.Text)
		}
		w := schema.Wire{P: p, Base64: true, OmitZero: true, KeysOnly: true}
		if d := w.Data(j.x.Decl.Name, *j.x, j.v, tree); d != "" {
			return core.Failf("wire", "%s\nvalue %s\nencoded %s", d, at, rt.Text)
		}
		if d := diff("", j.want, rt.M["after"]); d != "" {
			return core.Failf("mutated", "encoding changes the value: %s\n%s", d, at)
		}
		if d := diff("", j.want, rt.Value); d != "" {
			return core.Failf("roundtrip", "the round trip changes %s\nvalue %s\nencoded %s", d, at, rt.Text)
		}
		if gs.Panic != "" {
			return core.Failf("getset", "getters or setters of %s panic: %s", at, gs.Panic)
		}
		if gs.Err != "" {
			return core.Failf("getset", "%s: %s", at, gs.Err)
		}
		got := gs.Value.(map[string]any)
		for _, f := range p.AllFields(*j.x) {
			n := schema.Hump(f.Field.Name)
			want := j.want.(map[string]any)[n]
			if want == nil && f.Field.Type.Shape == "" {
				if z, ok := zeroOf(p, f); ok && fmt.Sprint(got[n]) != z {
					return core.Failf("getset", "%s: the getter of the absent field %s gives %s, not its zero value", j.x.Decl.Name, f.Field.Name, show(got[n]))
				}
				continue
			}
			if d := diff("."+n, want, got[n]); d != "" {
				return core.Failf("getset", "%s: the getter gives another value than was set: %s", at, d)
			}
		}
		set := 0
		for _, v := range j.v {
			if v != nil {
				set++
			}
		}
		res.NonTrivial = res.NonTrivial || set >= 3
		res.Evals++
		if len(rt.Text) > len(res.Sample) {
			res.Sample = j.x.Decl.Name + " " + rt.Text
		}
	}
	return res
}

// zeroOf is the zero value of a scalar or enumeration field in neutral form.
func zeroOf(p *schema.Program, f schema.FieldRef) (string, bool) {
	switch n := f.Field.Type.Name; {
	case n == "date":
		return "-62135596800000", true
	case n == "bool":
		return "false", true
	case n == "string":
		return "", true
	case schema.IsScalar(n):
		return "0", true
	default:
		x := p.Visible(f.File, n)
		return "0", x != nil && x.Decl.Kind == schema.Enum
	}
}

func dropNil(v any) any {
	o := map[string]any{}
	for k, x := range v.(map[string]any) {
		if x != nil {
			o[k] = x
		}
	}
	return o
}

func goNames(p *schema.Program, x schema.Ref) (out []string) {
	for _, f := range p.AllFields(x) {
		out = append(out, schema.Hump(f.Field.Name))
	}
	return out
}
