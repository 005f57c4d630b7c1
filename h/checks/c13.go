package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"sort"
	"strconv"
)

// C13: enumerations map names and numbers one to one in every target.
func init() {
	core.Register(&core.Check{
		ID:    "C13",
		Rule:  "at least one enumeration with two or more items was looked up by every number and name, and by unknown ones, in the compiled code of every target",
		Quick: 1500, Thorough: 30000, Batch: 40, Timeout: 400e9,
		Setup:   setupAll,
		Gen:     genC13,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			valid := func(c *core.Case) bool { return validGo(c.Prog) && validTS(c.Prog) && validJava(c.Prog) }
			js, err := javaCompile(cs, valid)
			return bothBatch(cs, valid, regOpt{Enums: true}, tsOpt{}, func(g *goUnit, t *tsUnit) *core.Result {
				j := js[g.N]
				if j.bad != nil {
					return j.bad
				}
				if err != nil {
					return &core.Result{Infra: err.Error()}
				}
				if !dartProblem(g.Prog, "") {
					return evalC13(g, t, j, nil)
				}
				d, bad := dartOpen(g.Case)
				if bad != nil {
					return bad
				}
				return evalC13(g, t, j, d)
			})
		},
		Assumptions: []string{"the runtime libraries are those of C10 and C11", "Dart runs in the interpreter of C23"},
	})
}

func genC13(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MinEnums, cfg.MaxEnums = 1, 6
	cfg.MaxItems = schema.Pick(r, []int{2, 5, 12, 40})
	cfg.MaxDatas, cfg.MinDatas, cfg.MaxServers = 2, 0, 0
	cfg.MapKeys = jsonGoKeys
	cfg.NoEmbed = true
	cfg.ZeroEnum = true
	cfg.HexPct = 25
	cfg.Pkgs = []string{"java"}
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	return &core.Case{Prog: p, Args: map[string]string{"n": strconv.Itoa(r.Range(1, 1<<30))}}
}

func evalC13(g *goUnit, t *tsUnit, j *javaUnit, d *dartUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	es := p.Decls(schema.Enum)
	var gops, tops, jops []*gop
	for _, x := range es {
		o := enumOp(x, x.Decl.Name, g.Case.Args["n"])
		jo := *o
		jo.Type = javaClass(x)
		gops, tops, jops = append(gops, o), append(tops, o), append(jops, &jo)
	}
	if len(es) == 0 {
		return res
	}
	greps, err := g.ask(gops)
	if err != nil {
		return died(err)
	}
	treps, err := t.ask(tops)
	if err != nil {
		return died(err)
	}
	jreps, err := j.ask(jops)
	if err != nil {
		return died(err)
	}
	for i, x := range es {
		if f := newEnumModelOf(x, schema.UpperSnake).judgeObj("Java", jreps[i], jops[i]); f != nil {
			return f
		}
		e := newEnumModel(x)
		if f := e.judgeGo(greps[i], gops[i]); f != nil {
			return f
		}
		if d != nil {
			if f := e.judgeObj("Dart", d.enum(x, gops[i]), gops[i]); f != nil {
				return f
			}
			res.Labels = append(res.Labels, "dart")
		}
		if f := e.judgeObj("TypeScript", treps[i], gops[i]); f != nil {
			return f
		}
		res.NonTrivial = res.NonTrivial || len(x.Decl.Items) > 1
		res.Evals += len(gops[i].Nums) + len(gops[i].Names)
		if len(res.Sample) < 400 {
			res.Sample += fmt.Sprintf("%s %v\n", x.Decl.Name, e.num)
		}
	}
	return res
}

type enumModel struct {
	x    schema.Ref
	num  map[string]string // item (converted name) -> number
	name map[string]string // number -> item
	conv func(string) string
}

func newEnumModel(x schema.Ref) *enumModel { return newEnumModelOf(x, schema.Hump) }

// newEnumModelOf: conv makes an item's name at run time.
func newEnumModelOf(x schema.Ref, conv func(string) string) *enumModel {
	e := &enumModel{x, map[string]string{}, map[string]string{}, conv}
	for _, i := range x.Decl.Items {
		n := schema.ItemNum(i.ID)
		e.num[conv(i.Name)] = n
		e.name[n] = conv(i.Name)
	}
	return e
}

func (e *enumModel) judgeGo(r *grep, o *gop) *core.Result {
	at := "Go enumeration " + e.x.Decl.Name
	if r.Panic+r.Err != "" {
		return core.Failf("go", "%s: %s%s", at, r.Panic, r.Err)
	}
	items := r.M["items"].(map[string]any)
	for _, i := range e.x.Decl.Items {
		if got := plain(items[i.Name]); got != schema.ItemNum(i.ID) {
			return core.Failf("go", "%s: the constant of %s is %s, declared %s", at, i.Name, got, i.ID)
		}
	}
	names := r.M["names"].(map[string]any)
	for _, n := range o.Nums {
		k := strconv.FormatInt(n, 10)
		if got := fmt.Sprint(names[k]); got != e.name[k] {
			return core.Failf("go", "%s: the name of %s is %q, declared %q", at, k, got, e.name[k])
		}
	}
	for _, m := range []string{"values", "again"} {
		vals := r.M[m].(map[string]any)
		if len(vals) != len(e.num) {
			return core.Failf("go", "%s: %d values of %d items: %v", at, len(vals), len(e.num), vals)
		}
		for k, n := range e.num {
			if got := plain(vals[k]); got != n {
				return core.Failf("go", "%s: the value of %s is %s, declared %s", at, k, got, n)
			}
		}
	}
	return nil
}

// plain writes a number from JSON without an exponent.
func plain(v any) string {
	if f, ok := v.(float64); ok {
		return strconv.FormatFloat(f, 'f', -1, 64)
	}
	return fmt.Sprint(v)
}

// judgeObj judges an enumeration class: items by member name, values, lookups by number and name.
func (e *enumModel) judgeObj(lang string, r *grep, o *gop) *core.Result {
	at := lang + " enumeration " + e.x.Decl.Name
	if r.Panic+r.Err != "" {
		return core.Failf(lang, "%s: %s%s", at, r.Panic, r.Err)
	}
	items := r.M["items"].(map[string]any)
	if len(items) != len(e.num) {
		return core.Failf(lang, "%s: %d item members for %d items: %v", at, len(items), len(e.num), items)
	}
	for _, i := range e.x.Decl.Items {
		m, _ := items[schema.UpperSnake(i.Name)].([]any)
		if m == nil || m[0] != e.conv(i.Name) || m[1] != schema.ItemNum(i.ID) {
			return core.Failf(lang, "%s: the member of item %s = %s is %s", at, i.Name, i.ID, show(m))
		}
		if plain(m[2]) == "-1" {
			return core.Failf(lang, "%s: item %s is not among the values", at, i.Name)
		}
	}
	seen := map[string]bool{}
	vals := r.M["values"].([]any)
	for _, v := range vals {
		pr := v.([]any)
		n := fmt.Sprint(pr[0])
		if seen[n] || e.num[n] != pr[1] {
			return core.Failf(lang, "%s: the list of values is %s", at, show(vals))
		}
		seen[n] = true
	}
	if len(vals) != len(e.num) {
		return core.Failf(lang, "%s: the list of values is %s", at, show(vals))
	}
	byNum, byName := r.M["byNum"].(map[string]any), r.M["byName"].(map[string]any)
	for _, n := range o.Nums {
		k := strconv.FormatInt(n, 10)
		m, _ := byNum[k].([]any)
		if name, ok := e.name[k]; ok != (m != nil) || ok && (m[0] != name || m[1] != k) {
			return core.Failf(lang, "%s: looking up the number %s gives %s, declared %q", at, k, show(byNum[k]), name)
		}
	}
	for _, s := range o.Names {
		m, _ := byName["="+s].([]any)
		if num, ok := e.num[s]; ok != (m != nil) || ok && (m[0] != s || m[1] != num) {
			return core.Failf(lang, "%s: looking up the name %q gives %s, declared %q", at, s, show(byName["="+s]), num)
		}
	}
	return nil
}

// enumOp looks an enumeration up by declared and other numbers and names.
func enumOp(x schema.Ref, typ, extra string) *gop {
	more, _ := strconv.ParseInt(extra, 10, 64)
	nums := map[int64]bool{0: true, 1: true, -1: true, 2: true, more: true, 1<<31 - 1: true}
	names := map[string]bool{"": true, "toString": true, "values": true, "constructor": true, "__proto__": true, "0": true, "undefined": true}
	for _, i := range x.Decl.Items {
		n, _ := strconv.ParseInt(schema.ItemNum(i.ID), 10, 64)
		nums[n], nums[n+1], nums[n-1], nums[n*10] = true, true, true, true
		for _, s := range []string{schema.Hump(i.Name), schema.UpperSnake(i.Name), i.Name, schema.LowerHump(i.Name), schema.Snake(i.Name), schema.Hump(i.Name) + " ", schema.Hump(x.Decl.Name) + schema.Hump(i.Name)} {
			names[s] = true
		}
	}
	var ns []int64
	for n := range nums {
		ns = append(ns, n)
	}
	sort.Slice(ns, func(i, j int) bool { return ns[i] < ns[j] })
	var ss []string
	for s := range names {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	return &gop{Op: "enum", Type: typ, Name: x.Decl.Name, Nums: ns, Names: ss}
}
