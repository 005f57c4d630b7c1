package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"hv/schema"
	"strconv"
	"strings"
	"time"
)

// C19: cached queries are coherent and always released.
func init() {
	core.Register(&core.Check{
		ID:    "C19",
		Rule:  "the history has a read answered from the cache and a write that invalidates, or an injected failure; distinct programs and histories",
		Quick: 1200, Thorough: 40000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     genC19,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, validDBCase, regOpt{}, evalC19)
		},
		Assumptions: []string{
			"the cache library is the stand-in for hbuf_golang's pkg/cache over memory, whose keys are the table, the calling function and the statement with its values",
			"only writes through data types with caching enabled invalidate; lifetimes are whole seconds of at least one",
		},
	})
}

func genC19(r *schema.R, idx int) *core.Case {
	for {
		p := genDBProg(r, 90)
		c := &core.Case{Prog: p, Args: map[string]string{"prefix": schema.Pick(r, []string{"", "p_"})}}
		type fn struct {
			x  schema.Ref
			fn string
		}
		var reads, writes []fn
		for _, x := range p.Decls(schema.Data) {
			if schema.GetTag(x.Decl.Tags, "cache") == nil {
				continue
			}
			for _, f := range schema.SortedOps(p.DBOps(x)) {
				if isWrite(f) {
					writes = append(writes, fn{x, f})
				} else {
					reads = append(reads, fn{x, f})
				}
			}
		}
		if len(reads) == 0 {
			continue
		}
		// a few reads asked again and again, with writes, failures and foreign locks between them
		var pool []core.Op
		for i := 0; i < 2+r.Int(4); i++ {
			f := schema.Pick(r, reads)
			pool = append(pool, genDBOp(r, p, f.x, f.fn))
		}
		faults := r.P(60)
		for n := 6 + r.Int(20); n > 0; n-- {
			var o core.Op
			if len(writes) > 0 && r.P(22) {
				f := schema.Pick(r, writes)
				o = genDBOp(r, p, f.x, f.fn)
			} else {
				o = schema.Pick(r, pool)
			}
			if faults && r.P(40) {
				var in dbIn
				json.Unmarshal(o.J, &in)
				switch r.Int(5) {
				case 0:
					in.Taken = true
				case 1:
					if len(in.Rows) > 0 {
						in.Bad = 1 + r.Int(len(in.Rows))
					}
				default:
					for k := 1 + r.Int(2); k > 0; k-- {
						in.Fail = append(in.Fail, r.Int(5))
					}
				}
				o.J, _ = json.Marshal(in)
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// ttl is the declared range of lifetimes.
func ttl(t *schema.Tag) (lo, hi int) {
	lo, hi = 2*60*60, 3*60*60
	min, hasMin := t.Get("min")
	max, hasMax := t.Get("max")
	if hasMin {
		lo, _ = strconv.Atoi(min)
	}
	if hasMax {
		hi, _ = strconv.Atoi(max)
	}
	if hi < lo { // a single declared bound moves the default one
		if hasMin {
			hi = lo
		} else {
			lo = hi
		}
	}
	return
}

func evalC19(u *goUnit) *core.Result {
	res := &core.Result{}
	prefix := u.Case.Args["prefix"]
	var jobs []*dbJob
	var calls []*dbCall
	for _, o := range u.Case.Ops {
		j := dbJobOf(u.Prog, o, prefix)
		if j == nil || j.want == nil || j.want.skip != "" || j.cache == nil {
			continue
		}
		jobs = append(jobs, j)
		calls = append(calls, j.call)
	}
	if len(jobs) == 0 {
		return res
	}
	reps, err := u.ask([]*gop{{Op: "db", Text: prefix, J: calls}})
	if err != nil {
		return died(err)
	}
	if reps[0].Panic != "" || reps[0].Err != "" {
		return &core.Result{Infra: reps[0].Panic + reps[0].Err}
	}
	got, err := readReps(reps[0])
	if err != nil || len(got) != len(jobs) {
		return &core.Result{Infra: "bad reply"}
	}
	type entry struct {
		val   any
		table string
	}
	store := map[string]entry{} // by key: what the cache holds
	hits, inval, faults := 0, 0, 0
	for i, j := range jobs {
		g := got[i]
		table := prefix + j.m.td.FullName()
		at := fmt.Sprintf("call %d: %sevents %s\n", i, j.at(), show(g.Events))
		if g.Panic != "" {
			return core.Failf("panic", "%spanics: %s", at, g.Panic)
		}
		if len(g.Held) > 0 {
			return core.Failf("held", "%sreturns with the lock of %v still held", at, g.Held)
		}
		pos := map[string]int{}
		var dbe *dbEvent
		dbn := 0
		failed := false
		for k := range g.Events {
			e := &g.Events[k]
			pos[e.Op] = k + 1
			failed = failed || e.Fail
			switch e.Op {
			case "query", "exec":
				dbe = e
				dbn++
			case "lock", "unlock", "del":
				if e.Name != table {
					return core.Failf("table", "%s%s of %q instead of the table %q", at, e.Op, e.Name, table)
				}
			case "get", "set":
				if !strings.HasPrefix(e.Name, "db:"+table+":") {
					return core.Failf("table", "%s%s under %q, which is not of the table %q", at, e.Op, e.Name, table)
				}
			}
		}
		if failed || j.in.Taken {
			faults++
		}
		if dbn > 1 {
			return core.Failf("count", "%sasks the database %d times", at, dbn)
		}
		if dbe != nil {
			if r := j.statement(*dbe); r != nil {
				return r
			}
		}
		if j.write {
			if pos["set"] > 0 || pos["get"] > 0 {
				return core.Failf("write", "%sa write reads or fills the cache", at)
			}
			if dbe != nil {
				if pos["del"] == 0 || pos["del"] > pos["exec"] {
					return core.Failf("invalidate", "%sthe cached results of the table are not invalidated before the write", at)
				}
				if g.Events[pos["del"]-1].Fail {
					return core.Failf("invalidate", "%sthe write goes on although the invalidation failed", at)
				}
			} else if g.Err == "" {
				return core.Failf("write", "%sneither writes nor fails", at)
			}
			if pos["del"] > 0 && !g.Events[pos["del"]-1].Fail {
				for k, e := range store {
					if e.table == table {
						delete(store, k)
						inval++
					}
				}
			}
			if g.Err == "" && dbe.Fail {
				return core.Failf("error", "%sthe error of the database is lost", at)
			}
			if g.Err != "" && !failed {
				return core.Failf("error", "%sfails: %s", at, g.Err)
			}
			res.Evals++
			continue
		}
		if pos["del"] > 0 {
			return core.Failf("read", "%sa read invalidates the cache", at)
		}
		if pos["get"] == 0 {
			return core.Failf("read", "%sthe cache is not asked", at)
		}
		get := g.Events[pos["get"]-1]
		e, hit := store[get.Name]
		switch {
		case hit && !get.Fail:
			if dbe != nil || pos["set"] > 0 {
				return core.Failf("hit", "%sa cached result is there, yet the database is asked or the cache filled", at)
			}
			if g.Err != "" {
				return core.Failf("hit", "%sa cached result is there, yet the call fails: %s", at, g.Err)
			}
			if d := diff("result", e.val, g.Out[0]); d != "" {
				return core.Failf("hit", "%sthe result differs from the cached one: %s", at, d)
			}
			hits++
		case dbe == nil:
			return core.Failf("miss", "%snothing is cached, yet the database is not asked", at)
		case dbe.Fail || j.bad:
			if g.Err == "" {
				return core.Failf("error", "%sthe error of the database is lost", at)
			}
			if pos["set"] > 0 {
				return core.Failf("poison", "%sa failed query is cached", at)
			}
		default:
			if g.Err != "" {
				return core.Failf("miss", "%sthe query succeeds, yet the call fails: %s", at, g.Err)
			}
			if d := diff("result", j.result(), g.Out[0]); d != "" {
				return core.Failf("miss", "%sreturns other rows: %s", at, d)
			}
			lockOK := pos["lock"] > 0 && !g.Events[pos["lock"]-1].Fail && g.Events[pos["lock"]-1].Val != "busy"
			if pos["set"] == 0 {
				if lockOK || pos["lock"] == 0 {
					return core.Failf("miss", "%sthe result is not cached", at)
				}
				break
			}
			if pos["set"] < pos["query"] {
				return core.Failf("miss", "%sthe cache is filled before the query", at)
			}
			set := g.Events[pos["set"]-1]
			lo, hi := ttl(j.cache)
			if d := time.Duration(set.TTL); d < time.Duration(lo)*time.Second || d > time.Duration(hi)*time.Second {
				return core.Failf("lifetime", "%sa lifetime of %v is outside the declared %d..%d s", at, d, lo, hi)
			}
			if !get.Fail && set.Name != get.Name {
				return core.Failf("miss", "%sthe result is stored under another key than was asked", at)
			}
			if d := j.sameJSON(set.Val); d != "" {
				return core.Failf("stored", "%sthe cache holds something else than the result: %s", at, d)
			}
			if !set.Fail {
				store[set.Name] = entry{g.Out[0], table}
			}
		}
		res.Evals++
		if len(res.Sample) < 500 {
			ops := []string{}
			for _, e := range g.Events {
				ops = append(ops, e.Op)
			}
			res.Sample += j.m.x.Decl.Name + "." + j.fn + " " + strings.Join(ops, ",") + "; "
		}
	}
	res.NonTrivial = hits > 0 && inval > 0 || faults > 0
	if hits > 0 {
		res.Labels = append(res.Labels, "cache hit")
	}
	if inval > 0 {
		res.Labels = append(res.Labels, "invalidation")
	}
	if faults > 0 {
		res.Labels = append(res.Labels, "fault")
	}
	return res
}

// sameJSON compares what was stored with the expected result.
func (j *dbJob) sameJSON(text string) string {
	tree, err := numTree(text)
	if err != nil {
		return err.Error()
	}
	w := schema.Wire{P: j.m.p, Base64: true, OmitZero: true}
	row := func(at string, v map[string]any, t any) string {
		o := j.m.p.ZeroData(j.typ, zeroDate)
		for _, f := range j.cols {
			o[f.Field.Name] = v[f.Field.Name]
		}
		return w.Data(at, j.typ, o, t)
	}
	switch j.fn {
	case "DbCount":
		if fmt.Sprint(tree) != j.result() {
			return text
		}
	case "DbGet":
		if len(j.rows) == 0 {
			if tree != nil {
				return text
			}
			return ""
		}
		return row("value", j.rows[0], tree)
	case "DbList":
		l, _ := tree.([]any)
		if len(l) != len(j.rows) {
			return text
		}
		for i := range l {
			if d := row(fmt.Sprintf("row %d", i), j.rows[i], l[i]); d != "" {
				return d
			}
		}
	case "DbMap":
		m, _ := tree.(map[string]any)
		if len(m) != len(j.rows) {
			return text
		}
		for _, v := range j.rows {
			k := j.rowKey(v)
			if d := row("row "+k, v, m[k]); d != "" {
				return d
			}
		}
	}
	return ""
}
