package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/schema"
)

// C16: TypeScript clients and routers agree with each other and with Go endpoints.
func init() {
	core.Register(&core.Check{
		ID:    "C16",
		Rule:  "at least two different methods were called through a generated TypeScript client, served by the generated TypeScript router and by the generated Go router; distinct programs and call histories",
		Quick: 1200, Thorough: 25000, Batch: 30, Timeout: 400e9,
		Setup:   setupBoth,
		Gen:     genC16,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return bothBatch(cs, func(c *core.Case) bool {
				return crossValid(c) && !hasBytes(c.Prog) && len(c.Prog.Decls(schema.Server)) > 0
			}, regOpt{Servers: true}, tsOpt{}, evalC16)
		},
		Assumptions: []string{
			"framing and routing are those of the stand-ins: an endpoint is the server's name, a slash, and the name the router lists (hbuf_golang's rpc.Server.Add)",
			"lists of bytes are left out (see the known finding of C12)",
		},
	})
}

func genC16(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MinServers, cfg.MaxServers = 1, 5
	cfg.MaxDatas, cfg.MinDatas = 5, 1
	cfg.MaxFields = 4
	cfg.MapKeys = jsonGoKeys
	cfg.MaxMethods = 5
	cfg.ZeroEnum, cfg.NoEmbed = true, true
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	for _, x := range p.Decls(schema.Data) {
		for _, f := range x.Decl.Fields {
			if f.Type.Shape == "array" && f.Type.Name == "uint8" && !f.Type.Null {
				f.Type.Name = "uint16"
			}
		}
	}
	c := &core.Case{Prog: p, Args: map[string]string{}}
	vc := schema.ValCfg{Depth: 2, MaxLen: 3}
	ss := p.Decls(schema.Server)
	add := func(s schema.Ref, m schema.MethodRef) {
		call := map[string]any{"value": p.GenData(r, *p.Visible(m.File, m.Method.Param), vc)}
		rep := rpcReply{}
		if r.P(12) {
			rep.Err = schema.Pick(r, []string{"no", "not found", "坏了"})
		} else if m.Method.Result != "void" {
			rep.Value = p.GenData(r, *p.Visible(m.File, m.Method.Result), vc)
		}
		call["reply"] = rep
		c.Ops = append(c.Ops, core.Op{Op: "call", Args: map[string]string{"server": s.Decl.Name, "method": m.Method.Name}, J: must(call)})
	}
	for _, s := range ss {
		for _, m := range p.AllMethods(s) {
			add(s, m)
		}
	}
	for n := r.Int(10); n > 0 && len(ss) > 0; n-- {
		s := schema.Pick(r, ss)
		if ms := p.AllMethods(s); len(ms) > 0 {
			add(s, schema.Pick(r, ms))
		}
	}
	return c
}

type tsCall struct {
	Server string   `json:"server"`
	Target string   `json:"target"`
	Method string   `json:"method"`
	Value  any      `json:"value"`
	Reply  rpcReply `json:"reply"`
	Answer string   `json:"answer"`
}
type tsRep struct {
	Seen   []rpcSeen `json:"seen"`
	Wire   [][]any   `json:"wire"`
	Name   string    `json:"name"`
	Result any       `json:"result"`
	Void   bool      `json:"void"`
	Err    string    `json:"err"`
	Stack  string    `json:"stack"`
}

func evalC16(g *goUnit, t *tsUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	type job struct {
		s      schema.Ref
		m      schema.MethodRef
		px, rx *schema.Ref
		req    map[string]any
		reply  rpcReply
		goCall *rawCall
	}
	var jobs []*job
	calls := []*tsCall{}
	for _, o := range g.Case.Ops {
		s := declOf(p, schema.Server, o.Args["server"])
		if s == nil {
			continue
		}
		for _, m := range p.AllMethods(*s) {
			if m.Method.Name != o.Args["method"] {
				continue
			}
			var in struct {
				Value any      `json:"value"`
				Reply rpcReply `json:"reply"`
			}
			json.Unmarshal(o.J, &in)
			j := &job{s: *s, m: m, px: p.Visible(m.File, m.Method.Param), reply: in.Reply}
			j.req = p.Fit(*j.px, in.Value)
			if m.Method.Result != "void" {
				j.rx = p.Visible(m.File, m.Method.Result)
			}
			if j.reply.Value = nil; j.reply.Err == "" && j.rx != nil {
				j.reply.Value = p.Fit(*j.rx, in.Reply.Value)
			}
			jobs = append(jobs, j)
			calls = append(calls, &tsCall{Server: s.Decl.Name, Target: s.Decl.Name, Method: m.Method.Name, Value: j.req, Reply: j.reply})
		}
	}
	var names []string
	want := map[string]bool{} // endpoints of all servers
	for _, s := range p.Decls(schema.Server) {
		names = append(names, s.Decl.Name)
		for _, m := range p.AllMethods(s) {
			want[s.Decl.Name+" "+m.Method.Name] = true
		}
	}
	reps, err := t.ask([]*gop{{Op: "rpc", Names: names, J: calls}})
	if err != nil {
		return died(err)
	}
	if reps[0].Panic != "" {
		return core.Failf("ts", "%s", reps[0].Panic)
	}
	var got []*tsRep
	b, _ := json.Marshal(reps[0].Value)
	if err := json.Unmarshal(b, &got); err != nil || len(got) != len(jobs) {
		return &core.Result{Infra: fmt.Sprint("answers: ", err, len(got), len(jobs))}
	}
	tsPaths := map[string]bool{}
	for _, e := range reps[0].M["paths"].([]any) {
		pr := e.([]any)
		k := fmt.Sprintf("/%v/%v", pr[1], pr[2])
		if tsPaths[k] {
			return core.Failf("endpoints", "the TypeScript routers list the endpoint %s twice", k)
		}
		tsPaths[k] = true
	}
	if len(tsPaths) != len(want) {
		return core.Failf("endpoints", "%d methods, but the TypeScript routers list %d endpoints: %v", len(want), len(tsPaths), keysOf(tsPaths))
	}
	raw := []*rawCall{}
	for i, j := range jobs {
		r := got[i]
		at := fmt.Sprintf("TypeScript call %d of %s.%s with %s, reply %s\nanswer %s\n", i, j.s.Decl.Name, j.m.Method.Name, show(j.req), show(j.reply), show(r))
		if len(r.Wire) == 0 || len(r.Wire[0]) < 3 {
			return core.Failf("ts", "%sthe client sends nothing: %s", at, r.Stack)
		}
		if len(r.Seen) != 1 {
			return core.Failf("reached", "%sthe call reached %d implementations: %s", at, len(r.Seen), r.Stack)
		}
		sn := r.Seen[0]
		if sn.Server != j.s.Decl.Name || sn.Method != j.m.Method.Name {
			return core.Failf("reached", "%sthe call reached %s.%s", at, sn.Server, sn.Method)
		}
		if d := diff("parameter", canon(p, *j.px, toAny(j.req)), canon(p, *j.px, sn.Req)); d != "" {
			return core.Failf("parameter", "%sthe implementation sees another parameter: %s", at, d)
		}
		switch {
		case j.reply.Err != "":
			if r.Err != j.reply.Err {
				return core.Failf("error", "%sthe error changed: %q became %q", at, j.reply.Err, r.Err)
			}
		case r.Err != "":
			return core.Failf("error", "%sa successful call fails: %s", at, r.Stack)
		case j.rx != nil:
			if d := diff("result", canon(p, *j.rx, toAny(j.reply.Value)), canon(p, *j.rx, r.Result)); d != "" {
				return core.Failf("result", "%sthe result changed: %s", at, d)
			}
		case !r.Void || r.Result != nil:
			return core.Failf("result", "%sa method without result answers with one", at)
		}
		path := fmt.Sprintf("/%s/%v", r.Name, r.Wire[0][0])
		if !tsPaths[path] {
			return core.Failf("endpoints", "%sno router serves %s", at, path)
		}
		j.goCall = &rawCall{Via: "raw", Path: path, Text: fmt.Sprint(r.Wire[0][2])}
		if j.reply.Value != nil {
			j.goCall.Reply.Value = goValue(p, *j.rx, j.reply.Value)
		}
		j.goCall.Reply.Err = j.reply.Err
		raw = append(raw, j.goCall)
		res.Evals++
	}
	// the same requests, sent to the generated Go routers
	greps, err := g.ask([]*gop{{Op: "rpc", Names: names, J: raw}})
	if err != nil {
		return died(err)
	}
	if greps[0].Panic != "" {
		return core.Failf("go", "%s", greps[0].Panic)
	}
	var back []*rpcRep
	b, _ = json.Marshal(greps[0].Value)
	json.Unmarshal(b, &back)
	if len(back) != len(jobs) {
		return &core.Result{Infra: "answers"}
	}
	var dec []*gop
	var decJobs []*job
	seen := map[string]bool{}
	for i, j := range jobs {
		r := back[i]
		at := fmt.Sprintf("TypeScript request %s %s\nfor %s.%s, reply %s\nGo endpoints %s\nanswer %s\n", j.goCall.Path, j.goCall.Text, j.s.Decl.Name, j.m.Method.Name, show(j.reply), show(greps[0].M["paths"]), show(r))
		if len(r.Seen) != 1 {
			return core.Failf("go-endpoint", "%sno Go implementation is reached: %s", at, r.Err)
		}
		sn := r.Seen[0]
		if sn.Server != j.s.Decl.Name || sn.Method != j.m.Method.Name {
			return core.Failf("go-endpoint", "%sthe Go implementation of %s.%s is reached", at, sn.Server, sn.Method)
		}
		if d := diff("parameter", canon(p, *j.px, toAny(j.req)), canon(p, *j.px, schemaKeys(p, *j.px, sn.Req))); d != "" {
			return core.Failf("go-parameter", "%sthe Go implementation sees another parameter: %s", at, d)
		}
		seen[j.s.Decl.Name+"."+j.m.Method.Name] = true
		if j.rx != nil && j.reply.Err == "" {
			var a struct {
				Data json.RawMessage `json:"data"`
			}
			s, _ := r.Result.(string)
			if err := json.Unmarshal([]byte(s), &a); err != nil {
				return core.Failf("go-result", "%sthe answer is no JSON", at)
			}
			dec, decJobs = append(dec, &gop{Op: "decode", Type: j.rx.Decl.Name, Text: string(a.Data)}), append(decJobs, j)
		}
		if len(res.Sample) < 300 {
			res.Sample += j.goCall.Path + " " + core.Head(j.goCall.Text, 100) + "\n"
		}
	}
	if len(dec) > 0 {
		dr, err := t.ask(dec)
		if err != nil {
			return died(err)
		}
		for i, j := range decJobs {
			if d := diff("result", canon(p, *j.rx, toAny(j.reply.Value)), canon(p, *j.rx, dr[i].Value)); d != "" || dr[i].Panic != "" {
				return core.Failf("go-result", "the result of Go's %s.%s changes on the way to TypeScript: %s%s\n%s", j.s.Decl.Name, j.m.Method.Name, d, dr[i].Panic, dec[i].Text)
			}
		}
	}
	res.NonTrivial = len(seen) > 1
	return res
}

type rawCall struct {
	Via   string   `json:"via"`
	Path  string   `json:"path"`
	Text  string   `json:"text"`
	Reply rpcReply `json:"reply"`
}
