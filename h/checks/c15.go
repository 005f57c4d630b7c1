package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"hv/schema"
	"strings"
)

// C15: Go clients and servers agree on every call.
func init() {
	core.Register(&core.Check{
		ID:    "C15",
		Rule:  "at least two calls of different methods were answered through a generated client and router; distinct programs and call histories",
		Quick: 900, Thorough: 30000, Batch: 40, Timeout: 300e9,
		Setup:   gox.Setup,
		Gen:     genC15,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, func(c *core.Case) bool {
				return validGo(c.Prog) && jsonGo(c.Prog) && len(c.Prog.Decls(schema.Server)) > 0
			}, regOpt{Servers: true}, evalC15)
		},
		Assumptions: []string{
			"framing, routing and context tags are those of the stand-in for hbuf_golang's pkg/rpc (client and server joined in memory, each with its own context)",
			"an implementation answers with a result or an error, not with neither; bindings do not form a cycle",
		},
	})
}

type rpcCall struct {
	Via    string   `json:"via"`
	Server string   `json:"server"`
	Method string   `json:"method"`
	Value  any      `json:"value"`
	Reply  rpcReply `json:"reply"`
}
type rpcReply struct {
	Value any    `json:"value"`
	Err   string `json:"err,omitempty"`
	Code  int    `json:"code,omitempty"`
}
type rpcSeen struct {
	Server string         `json:"server"`
	Method string         `json:"method"`
	Req    any            `json:"req"`
	Tags   map[string]any `json:"tags"`
	Path   string         `json:"path"`
}
type rpcRep struct {
	Seen   []rpcSeen `json:"seen"`
	Wire   []string  `json:"wire"`
	Result any       `json:"result"`
	Null   bool      `json:"null"`
	Err    string    `json:"err"`
	Code   int       `json:"code"`
	Panic  string    `json:"panic"`
}

var errTexts = []string{"no", "not found", "", "坏了", "a\"b", "line\nline", "not find server x", "{}", "<x>"}

func genC15(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MinServers, cfg.MaxServers = 1, 5
	cfg.MaxDatas, cfg.MinDatas = 5, 1
	cfg.MaxFields = 4
	cfg.MapKeys = jsonGoKeys
	cfg.MaxMethods = 5
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	if r.P(40) {
		schema.DecorateBind(r, p, 40)
	}
	c := &core.Case{Prog: p, Args: map[string]string{}}
	ss := p.Decls(schema.Server)
	var up []string
	for _, s := range ss {
		if r.P(75) {
			up = append(up, s.Decl.Name)
		}
	}
	c.Args["up"] = strings.Join(up, ",")
	n := 6 + r.Int(20)
	vc := schema.ValCfg{Depth: 2, MaxLen: 3}
	add := func(s schema.Ref, m schema.MethodRef, via string) {
		pr := p.Visible(m.File, m.Method.Param)
		call := map[string]any{"value": p.GenData(r, *pr, vc)}
		rep := rpcReply{}
		switch {
		case r.P(15):
			rep.Code, rep.Err = schema.Pick(r, []int{-1, 1, 2, 404, 1 << 30}), schema.Pick(r, errTexts)
		case r.P(10):
			rep.Err = schema.Pick(r, errTexts[:2])
		case m.Method.Result != "void":
			rep.Value = p.GenData(r, *p.Visible(m.File, m.Method.Result), vc)
		}
		call["reply"] = rep
		b, _ := json.Marshal(call)
		c.Ops = append(c.Ops, core.Op{Op: "call", Args: map[string]string{"via": via, "server": s.Decl.Name, "method": m.Method.Name}, J: b})
	}
	if len(ss) == 0 {
		return c
	}
	for _, s := range ss { // every method once through its client
		for _, m := range p.AllMethods(s) {
			add(s, m, "client")
		}
	}
	for ; n > 0; n-- {
		s := schema.Pick(r, ss)
		ms := p.AllMethods(s)
		if len(ms) > 0 {
			add(s, schema.Pick(r, ms), schema.Pick(r, []string{"client", "local", "local", "default", "clientlocal"}))
		}
	}
	return c
}

func evalC15(u *goUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	up := map[string]bool{}
	var names []string
	paths := 0
	for _, n := range strings.Split(u.Case.Args["up"], ",") {
		if x := declOf(p, schema.Server, n); x != nil {
			up[n] = true
			names = append(names, n)
			paths += len(p.AllMethods(*x))
		}
	}
	type job struct {
		op    core.Op
		s     schema.Ref
		m     schema.MethodRef
		req   map[string]any
		reply rpcReply
		exp   expect
	}
	var jobs []job
	var calls []*rpcCall
	for _, o := range u.Case.Ops {
		s := declOf(p, schema.Server, o.Args["server"])
		if s == nil {
			continue
		}
		var m *schema.MethodRef
		for _, q := range p.AllMethods(*s) {
			if q.Method.Name == o.Args["method"] {
				m = &q
			}
		}
		if m == nil {
			continue
		}
		var in struct {
			Value any      `json:"value"`
			Reply rpcReply `json:"reply"`
		}
		json.Unmarshal(o.J, &in)
		j := job{op: o, s: *s, m: *m, req: p.Fit(*p.Visible(m.File, m.Method.Param), in.Value), reply: in.Reply}
		j.exp = p15(p, up, o.Args["via"], *s, *m, j.req, nil)
		if j.exp.skip {
			continue
		}
		if j.reply.Err == "" && j.reply.Code == 0 {
			j.reply.Value = nil
			if j.exp.server != "" && j.exp.method.Method.Result != "void" {
				rx := p.Visible(j.exp.method.File, j.exp.method.Method.Result)
				j.reply.Value = goValue(p, *rx, p.Fit(*rx, in.Reply.Value))
			}
		} else {
			j.reply.Value = nil
		}
		jobs = append(jobs, j)
		calls = append(calls, &rpcCall{Via: o.Args["via"], Server: s.Decl.Name, Method: schema.Hump(m.Method.Name), Value: goValue(p, *p.Visible(m.File, m.Method.Param), j.req), Reply: j.reply})
	}
	reps, err := u.ask([]*gop{{Op: "rpc", Names: names, J: calls}})
	if err != nil {
		return died(err)
	}
	if reps[0].Panic != "" {
		return core.Failf("panic", "%s", reps[0].Panic)
	}
	var got []*rpcRep
	b, _ := json.Marshal(reps[0].Value)
	json.Unmarshal(b, &got)
	if len(got) != len(jobs) {
		return &core.Result{Infra: fmt.Sprintf("%d answers to %d calls", len(got), len(jobs))}
	}
	if ps, _ := reps[0].M["paths"].([]any); len(ps) != paths {
		return core.Failf("endpoints", "%d methods on the registered servers, but %d endpoints: %v", paths, len(ps), ps)
	}
	seenMethods := map[string]bool{}
	for i, j := range jobs {
		g := got[i]
		at := fmt.Sprintf("call %d (%s) of %s.%s with %s, reply %s\nanswer %s\n", i, j.op.Args["via"], j.s.Decl.Name, j.m.Method.Name, show(j.req), show(j.reply), show(g))
		if g.Panic != "" {
			return core.Failf("panic", "%spanics: %s", at, g.Panic)
		}
		e := j.exp
		if e.server == "" {
			if len(g.Seen) > 0 {
				return core.Failf("reached", "%sno implementation stands behind this call, yet one was reached: %s", at, show(g.Seen))
			}
			if g.Err == "" && g.Code == 0 {
				return core.Failf("unimplemented", "%sa method without an implementation does not answer with an error", at)
			}
			continue
		}
		if len(g.Seen) != 1 {
			return core.Failf("reached", "%sthe call reached %d implementations: %s", at, len(g.Seen), g.Err)
		}
		sn := g.Seen[0]
		if sn.Server != e.server || sn.Method != e.method.Method.Name {
			return core.Failf("reached", "%sthe call reached %s.%s instead of %s.%s", at, sn.Server, sn.Method, e.server, e.method.Method.Name)
		}
		px := p.Visible(e.method.File, e.method.Method.Param)
		if d := diff("parameter", toAny(goValue(p, *px, e.req)), sn.Req); d != "" {
			return core.Failf("parameter", "%sthe implementation sees another parameter: %s", at, d)
		}
		wantTags := map[string]any{}
		if e.wire {
			for _, t := range e.method.Method.Tags {
				if t.Name == "tag" {
					for _, kv := range t.KV {
						var vs []string
						for _, v := range kv.V {
							vs = append(vs, schema.Meaning(v))
						}
						wantTags[kv.K] = toAny(vs)
					}
				}
			}
			if len(g.Wire) == 0 {
				return &core.Result{Infra: "no wire record"}
			}
		}
		if d := diff("tags", any(wantTags), orEmpty(sn.Tags)); d != "" {
			return core.Failf("tags", "%sthe call context has other tags: %s", at, d)
		}
		switch {
		case j.reply.Code != 0:
			if g.Code != j.reply.Code || g.Err != j.reply.Err {
				return core.Failf("error", "%sthe error changed: code %d %q became code %d %q", at, j.reply.Code, j.reply.Err, g.Code, g.Err)
			}
		case j.reply.Err != "":
			if g.Err != j.reply.Err {
				return core.Failf("error", "%sthe error changed: %q became %q", at, j.reply.Err, g.Err)
			}
		case g.Err != "" || g.Code != 0:
			return core.Failf("error", "%sa successful call answers with an error", at)
		case j.m.Method.Result != "void":
			if g.Null {
				return core.Failf("result", "%sthe result is missing", at)
			}
			want := toAny(j.reply.Value)
			if e.partial { // the bound result is the embedded part
				rx := p.Visible(j.m.File, j.m.Method.Result)
				want = partial(p, *rx, g.Result, want)
			}
			if d := diff("result", want, g.Result); d != "" {
				return core.Failf("result", "%sthe result changed: %s", at, d)
			}
		}
		res.Evals++
		if e.wire {
			seenMethods[j.s.Decl.Name+"."+j.m.Method.Name] = true
			if len(res.Sample) < 300 {
				res.Sample += fmt.Sprintf("%s.%s %s\n", j.s.Decl.Name, j.m.Method.Name, show(g.Wire))
			}
		}
	}
	res.NonTrivial = len(seenMethods) > 1
	return res
}

func orEmpty(m map[string]any) any {
	if m == nil {
		return map[string]any{}
	}
	return any(m)
}

// partial keeps of the result only what the bound method answered.
func partial(p *schema.Program, x schema.Ref, got, want any) any {
	w := want.(map[string]any)
	o := map[string]any{}
	if g, ok := got.(map[string]any); ok {
		for k, v := range g {
			o[k] = v
		}
	}
	for k, v := range w {
		o[k] = v
	}
	return o
}

// expect says which implementation a call must reach ("" for none).
type expect struct {
	server  string
	method  schema.MethodRef
	req     map[string]any
	wire    bool // through client and router
	partial bool
	skip    bool
}

func p15(p *schema.Program, up map[string]bool, via string, s schema.Ref, m schema.MethodRef, req map[string]any, seen []*schema.Method) expect {
	switch via {
	case "client", "clientlocal":
		if up[s.Decl.Name] {
			return expect{server: s.Decl.Name, method: m, req: req, wire: true}
		}
		return expect{}
	case "local":
		if up[s.Decl.Name] {
			return expect{server: s.Decl.Name, method: m, req: req}
		}
	}
	// the default server: bound methods call another server, the others answer with an error
	if schema.GetTag(m.Method.Tags, "bind") == nil {
		return expect{}
	}
	for _, q := range seen {
		if q == m.Method {
			return expect{skip: true}
		}
	}
	ref, q := p.Bound(m.File, m.Method)
	if ref == nil {
		return expect{skip: true}
	}
	pa, pb := p.Visible(m.File, m.Method.Param), p.Visible(ref.File, q.Param)
	breq := req
	if pa.Decl != pb.Decl {
		if !clean(p, *pa) {
			return expect{skip: true}
		}
		breq = map[string]any{}
		for _, f := range p.AllFields(*pb) {
			breq[f.Field.Name] = req[f.Field.Name]
		}
	}
	e := p15(p, up, "local", *ref, schema.MethodRef{Ref: *ref, Method: q}, breq, append(seen, m.Method))
	if m.Method.Result != "void" && e.server != "" {
		ra, rb := p.Visible(m.File, m.Method.Result), p.Visible(ref.File, q.Result)
		if ra.Decl != rb.Decl {
			if !clean(p, *ra) {
				return expect{skip: true}
			}
			e.partial = true
		}
	}
	return e
}

// clean: every field of the type has one definition only, so that an embedded parent holds its fields.
func clean(p *schema.Program, x schema.Ref) bool {
	n := 0
	var walk func(x schema.Ref)
	walk = func(x schema.Ref) {
		n += len(x.Decl.Fields)
		for _, q := range x.Decl.Parents {
			if v := p.Visible(x.File, q.Name); v != nil {
				walk(*v)
			}
		}
	}
	walk(x)
	return n == len(p.AllFields(x))
}
