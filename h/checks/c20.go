package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"hv/schema"
	"strconv"
)

// C20: Go verification accepts exactly the values the declared formats allow.
func init() {
	core.Register(&core.Check{
		ID:    "C20",
		Rule:  "values of verified fields were judged both ways (accepted and rejected) by the compiled checks; distinct programs and values",
		Quick: 1200, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     genC20,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			schema.AnyEnum = true
			return goBatch(cs, func(c *core.Case) bool { return validGo(c.Prog) }, regOpt{}, evalC20)
		},
		Assumptions: []string{
			"patterns are valid in Go's regexp syntax and apply to text fields; bounds are numbers of the field's kind (text: a length in characters; date: 2006-01-02T15:04:05Z)",
			"a field redeclared along its inheritance with different formats is not judged",
			"a float bound is the nearest value of the field's type",
		},
	})
}

func genC20(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MaxServers = 0
	cfg.MinEnums, cfg.MaxEnums = 1, 4
	cfg.MaxDatas = 5
	cfg.MapKeys = jsonGoKeys
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	schema.DecorateVerify(r, p, 75)
	c := &core.Case{Prog: p}
	ds := p.Decls(schema.Data)
	for i := 0; i < 30+r.Int(40); i++ {
		x := ds[i%len(ds)]
		v := map[string]any{}
		for _, f := range p.AllFields(x) {
			v[f.Field.Name] = p.GenVerifyValue(r, f, schema.ValCfg{Depth: 1, MaxLen: 2})
		}
		b, _ := json.Marshal(v)
		c.Ops = append(c.Ops, core.Op{Op: "value", Args: map[string]string{"type": x.Decl.Name}, J: b})
	}
	return c
}

func evalC20(u *goUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	type job struct {
		at    string
		field schema.FieldRef // with no field: the whole value
		want  *schema.Format
		v     any
	}
	var ops []*gop
	var jobs []job
	for _, o := range u.Case.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		multi := p.MultiDefined(*x)
		gv := goValue(p, *x, v)
		whole, judged := (*schema.Format)(nil), true
		for _, f := range p.AllFields(*x) {
			if schema.GetTag(f.Field.Tags, "verify") == nil && !multi[f.Field.Name] {
				continue
			}
			if multi[f.Field.Name] {
				judged = false
				continue
			}
			w := p.Violated(f, v[f.Field.Name])
			if whole == nil {
				whole = w
			}
			ops = append(ops, &gop{Op: "verify", Type: x.Decl.Name, Value: gv, Name: "Verify" + schema.Hump(f.Field.Name)})
			jobs = append(jobs, job{x.Decl.Name + "." + f.Field.Name, f, w, v[f.Field.Name]})
		}
		if judged && schema.GetTag(x.Decl.Tags, "verify") != nil {
			ops = append(ops, &gop{Op: "verify", Type: x.Decl.Name, Value: gv, Name: "Verify"})
			jobs = append(jobs, job{x.Decl.Name, schema.FieldRef{}, whole, v})
		}
	}
	if len(ops) == 0 {
		return res
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	acc, rej := 0, 0
	for i, j := range jobs {
		r := reps[i]
		if r.Panic != "" {
			return core.Failf("panic", "verifying %s = %s panics: %s", j.at, show(j.v), r.Panic)
		}
		if r.Err != "" {
			return core.Failf("error", "verifying %s = %s: %s", j.at, show(j.v), r.Err)
		}
		got, want := "", ""
		if r.M != nil {
			got = fmt.Sprintf("%v %v", r.M["code"], r.M["msg"])
		}
		if j.want != nil {
			n, _ := strconv.ParseInt(schema.ItemNum(j.want.Item.ID), 10, 64)
			want = fmt.Sprintf("%v %v", float64(n), schema.Hump(j.want.Item.Name))
			rej++
		} else {
			acc++
		}
		if got != want {
			sig := "field"
			if j.field.Field == nil {
				sig = "whole"
			}
			return core.Failf(sig, "verifying %s = %s gives %q, the declared formats say %q", j.at, show(j.v), got, want)
		}
		res.Evals++
		if j.want != nil && len(res.Sample) < 400 {
			res.Sample += fmt.Sprintf("%s = %s -> %s; ", j.at, show(j.v), got)
		}
	}
	res.NonTrivial = acc > 0 && rej > 0
	return res
}
