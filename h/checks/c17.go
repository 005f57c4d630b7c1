package checks

import (
	"hv/core"
	"hv/gox"
	"hv/schema"
)

// C17: generated reads select exactly the declared rows and columns. C18: generated writes change exactly the declared
// columns and rows.
func init() {
	assume := []string{
		"statements are compared after removing insignificant spacing; the database library is the stand-in over database/sql",
		"not judged: an unset key, an empty required list filter, updates or inserts that assign nothing, unsigned values above 2^63-1",
	}
	core.Register(&core.Check{
		ID:    "C17",
		Rule:  "at least one read with a condition or result rows was executed by compiled generated code against the recording driver; distinct programs and calls",
		Quick: 1000, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     func(r *schema.R, idx int) *core.Case { return genDB(r, false) },
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, validDBCase, regOpt{}, evalDB)
		},
		Assumptions: assume,
	})
	core.Register(&core.Check{
		ID:    "C18",
		Rule:  "at least one write with bound values was executed by compiled generated code against the recording driver; distinct programs and calls",
		Quick: 1000, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     func(r *schema.R, idx int) *core.Case { return genDB(r, true) },
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, validDBCase, regOpt{}, evalDB)
		},
		Assumptions: assume,
	})
}

func genDB(r *schema.R, write bool) *core.Case {
	p := genDBProg(r, 20)
	c := &core.Case{Prog: p, Args: map[string]string{"prefix": schema.Pick(r, []string{"", "", "p_"})}}
	for _, x := range p.Decls(schema.Data) {
		ops := p.DBOps(x)
		for _, fn := range schema.SortedOps(ops) {
			if isWrite(fn) != write {
				continue
			}
			for k := 0; k < 4; k++ {
				c.Ops = append(c.Ops, genDBOp(r, p, x, fn))
			}
		}
	}
	return c
}

func evalDB(u *goUnit) *core.Result {
	res := &core.Result{}
	prefix := u.Case.Args["prefix"]
	var ops []*gop
	var jobs []*dbJob
	for _, o := range u.Case.Ops {
		j := dbJobOf(u.Prog, o, prefix)
		if j == nil || j.want != nil && j.want.skip != "" {
			continue
		}
		j.call.Fail, j.call.Taken = nil, nil
		jobs = append(jobs, j)
		ops = append(ops, &gop{Op: "db", Text: prefix, J: []*dbCall{j.call}})
	}
	if len(ops) == 0 {
		return res
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	for i, j := range jobs {
		if reps[i].Panic != "" || reps[i].Err != "" {
			return &core.Result{Infra: reps[i].Panic + reps[i].Err}
		}
		rs, err := readReps(reps[i])
		if err != nil || len(rs) != 1 {
			return &core.Result{Infra: "bad reply"}
		}
		g := rs[0]
		if g.Panic != "" {
			return core.Failf("panic", "%spanics: %s", j.at(), g.Panic)
		}
		var es []dbEvent
		for _, e := range g.Events {
			if e.Op == "query" || e.Op == "exec" {
				es = append(es, e)
			}
		}
		if j.want == nil { // nothing to insert
			if len(es) > 0 || g.Err != "" {
				return core.Failf("empty", "%swith nothing to insert asks the database: %s %s", j.at(), show(es), g.Err)
			}
			continue
		}
		op := "query"
		if j.write {
			op = "exec"
		}
		if len(es) != 1 || es[0].Op != op {
			return core.Failf("count", "%sasks the database %d times: %s; error %q", j.at(), len(es), show(es), g.Err)
		}
		if r := j.statement(es[0]); r != nil {
			return r
		}
		if g.Err != "" {
			return core.Failf("error", "%sfails: %s", j.at(), g.Err)
		}
		if g.After != nil {
			return core.Failf("mutated", "%schanges the request to %s", j.at(), show(g.After))
		}
		if j.write {
			want := []any{json64(j.in.Count), json64(j.in.ID)}
			if d := diff("affected rows and id", toAny(want), any(g.Out)); d != "" {
				return core.Failf("result", "%s%s", j.at(), d)
			}
		} else {
			if d := diff("result", j.result(), g.Out[0]); d != "" {
				return core.Failf("result", "%sreturns other rows: %s\nstatement %s\nrows %s", j.at(), d, es[0].Name, show(j.call.Results))
			}
		}
		res.Evals++
		if len(j.want.args) > 0 || len(j.rows) > 0 {
			res.NonTrivial = true
		}
		if len(res.Sample) < 400 {
			res.Sample += norm(es[0].Name) + " " + show(es[0].Args) + "\n"
		}
	}
	return res
}
