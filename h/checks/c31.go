package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/gox"
	"hv/schema"
	"strings"
)

// C31: Dart clients and routers agree with Go endpoints and clients.
func init() {
	core.Register(&core.Check{
		ID:    "C31",
		Rule:  "at least two different methods were called from a generated Dart client into the generated Go router and from a generated Go client into the generated Dart router; distinct programs and call histories",
		Quick: 1500, Thorough: 25000, Batch: 30, Timeout: 400e9,
		Setup:   gox.Setup,
		Gen:     genC31,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			return goBatch(cs, func(c *core.Case) bool {
				return validGo(c.Prog) && jsonGo(c.Prog) && !hasBytes(c.Prog) && dartProblem(c.Prog, "") && len(c.Prog.Decls(schema.Server)) > 0
			}, regOpt{Servers: true}, evalC31)
		},
		Assumptions: []string{
			"framing and routing are those of the stand-ins: an endpoint is the server's name, a slash, and the name the router lists, as in hbuf_golang's rpc.Server.Add; Dart runs in the interpreter of C23",
			"lists of bytes are left out (see the known finding of C30); values as in C30",
		},
	})
}

func genC31(r *schema.R, idx int) *core.Case {
	c := genC16(r, idx)
	c.Prog.Layout = r.U64()
	for i, o := range c.Ops { // errors are the concern of C15
		var in struct {
			Value any      `json:"value"`
			Reply rpcReply `json:"reply"`
		}
		json.Unmarshal(o.J, &in)
		if in.Reply.Err != "" {
			in.Reply.Err = ""
			c.Ops[i].J = must(in)
		}
	}
	return c
}

func evalC31(g *goUnit) *core.Result {
	res := &core.Result{}
	p := g.Prog
	u, bad := dartOpen(g.Case)
	if bad != nil {
		return bad
	}
	in := u.In
	type job struct {
		s                schema.Ref
		m                schema.MethodRef
		px, rx           *schema.Ref
		req, rep         map[string]any
		path, req2, name string
	}
	var jobs []*job
	var names []string
	for _, s := range p.Decls(schema.Server) {
		names = append(names, s.Decl.Name)
	}
	for _, o := range g.Case.Ops {
		s := declOf(p, schema.Server, o.Args["server"])
		if s == nil {
			continue
		}
		for _, m := range p.AllMethods(*s) {
			if m.Method.Name != o.Args["method"] {
				continue
			}
			var v struct {
				Value any      `json:"value"`
				Reply rpcReply `json:"reply"`
			}
			json.Unmarshal(o.J, &v)
			j := &job{s: *s, m: m, px: p.Visible(m.File, m.Method.Param)}
			j.req = p.Fit(*j.px, v.Value)
			dartDomain(p, *j.px, j.req)
			if m.Method.Result != "void" {
				j.rx = p.Visible(m.File, m.Method.Result)
				j.rep = p.Fit(*j.rx, v.Reply.Value)
				dartDomain(p, *j.rx, j.rep)
			}
			jobs = append(jobs, j)
		}
	}
	if len(jobs) == 0 {
		return res
	}
	at := func(j *job) string {
		return fmt.Sprintf("%s.%s with %s, reply %s", j.s.Decl.Name, j.m.Method.Name, show(j.req), show(j.rep))
	}
	// call makes the call through the Dart client, with answer as what comes back.
	call := func(j *job, answer string) (out any, fail *core.Result) {
		n := 0
		in.Invoke = func(path string, id int64, req string) (string, error) {
			n++
			j.path, j.req2 = path, req
			return answer, nil
		}
		if err := dartx.Guard(func() {
			client := in.New(u.need(j.s, "Client"), []dartx.Value{&dartx.Ext{Name: "Client", P: map[string]dartx.Value{}}}, nil)
			j.name = fmt.Sprint(in.Get(client, "name"))
			v := in.Call(in.Get(client, schema.LowerHump(j.m.Method.Name)), []dartx.Value{u.obj(*j.px, j.req)}, nil)
			if j.rx != nil {
				out = u.fields(*j.rx, v)
			}
		}); err != nil {
			return nil, core.Failf("dart-client", "the Dart client fails: %v\ncall %s\nanswer %s", err, at(j), answer)
		}
		if n != 1 {
			return nil, core.Failf("dart-client", "the Dart client reaches the transport %d times\ncall %s", n, at(j))
		}
		return out, nil
	}
	ask := func(calls any) ([]*rpcRep, string, *core.Result) {
		reps, err := g.ask([]*gop{{Op: "rpc", Names: names, J: calls}})
		if err != nil {
			return nil, "", died(err)
		}
		if reps[0].Panic != "" {
			return nil, "", core.Failf("go", "%s", reps[0].Panic)
		}
		var back []*rpcRep
		b, _ := json.Marshal(reps[0].Value)
		json.Unmarshal(b, &back)
		if len(back) != len(jobs) {
			return nil, "", &core.Result{Infra: "answers"}
		}
		return back, show(reps[0].M["paths"]), nil
	}
	reached := func(j *job, r *rpcRep, paths string) *core.Result {
		if len(r.Seen) != 1 || r.Seen[0].Server != j.s.Decl.Name || r.Seen[0].Method != j.m.Method.Name {
			return core.Failf("go-endpoint", "the Go implementation is not reached: %s %s%s\ncall %s\npath %s\nGo endpoints %s", show(r.Seen), r.Err, r.Panic, at(j), j.path, paths)
		}
		if d := diff("parameter", canon(p, *j.px, toAny(j.req)), canon(p, *j.px, schemaKeys(p, *j.px, r.Seen[0].Req))); d != "" {
			return core.Failf("go-parameter", "the Go implementation sees another parameter: %s\ncall %s\nsent %s", d, at(j), j.req2)
		}
		return nil
	}
	reply := func(j *job) (o rpcReply) {
		if j.rx != nil {
			o.Value = goValue(p, *j.rx, j.rep)
		}
		return
	}
	// Dart to Go: the request of the Dart client enters the Go router, whose answer comes back to the Dart client.
	raw, own := []*rawCall{}, []*rpcCall{}
	for _, j := range jobs {
		text := "{}"
		if j.rx != nil {
			if err := dartx.Guard(func() {
				s, e := in.JSON(u.call(u.obj(*j.rx, j.rep), "toMap"))
				if e != nil {
					panic(e)
				}
				text = s
			}); err != nil {
				return core.Failf("dart-encode", "Dart cannot encode the reply: %v\ncall %s", err, at(j))
			}
		}
		if _, f := call(j, text); f != nil {
			return f
		}
		raw = append(raw, &rawCall{Via: "raw", Path: "/" + j.name + "/" + j.path, Text: j.req2, Reply: reply(j)})
		own = append(own, &rpcCall{Via: "client", Server: j.s.Decl.Name, Method: schema.Hump(j.m.Method.Name), Value: goValue(p, *j.px, j.req), Reply: reply(j)})
	}
	back, paths, f := ask(raw)
	if f != nil {
		return f
	}
	done := map[string]bool{}
	for i, j := range jobs {
		if f := reached(j, back[i], paths); f != nil {
			return f
		}
		text, _ := back[i].Result.(string)
		var env struct {
			Data json.RawMessage `json:"data"`
		}
		if err := json.Unmarshal([]byte(text), &env); err != nil {
			return core.Failf("go-result", "the answer of Go is no JSON: %q\ncall %s", text, at(j))
		}
		answer := "{}"
		if j.rx != nil {
			answer = string(env.Data)
		}
		got, f := call(j, answer)
		if f != nil {
			return f
		}
		if j.rx != nil {
			if d := diff("result", canon(p, *j.rx, toAny(j.rep)), canon(p, *j.rx, got)); d != "" {
				return core.Failf("go-result", "the result of Go changes on the way to Dart: %s\ncall %s\nanswer %s", d, at(j), answer)
			}
		}
		done[j.s.Decl.Name+"."+j.m.Method.Name] = true
		res.Evals++
		if len(res.Sample) < 300 {
			res.Sample += j.path + " " + core.Head(j.req2, 100) + "\n"
		}
	}
	// Go to Dart: what the Go client sends enters the Dart router.
	if back, paths, f = ask(own); f != nil {
		return f
	}
	for i, j := range jobs {
		if f := reached(j, back[i], paths); f != nil {
			return f
		}
		if len(back[i].Wire) < 2 {
			return &core.Result{Infra: "no wire record"}
		}
		path, text := back[i].Wire[0], back[i].Wire[1]
		var req, out any
		hit, reqSeen := "", false
		var wrong *core.Result
		if err := dartx.Guard(func() {
			stub := map[string]func(a []dartx.Value) dartx.Value{}
			for _, m := range p.AllMethods(j.s) {
				n := schema.LowerHump(m.Method.Name)
				stub[n] = func(a []dartx.Value) dartx.Value {
					hit += n + " "
					if n == schema.LowerHump(j.m.Method.Name) {
						req, reqSeen = u.fields(*j.px, a[0]), true
						if j.rx != nil {
							return u.obj(*j.rx, j.rep)
						}
					}
					return nil
				}
			}
			router := in.New(u.need(j.s, "Router"), []dartx.Value{in.Stub(u.need(j.s, ""), stub)}, nil)
			name := fmt.Sprint(in.Get(router, "name"))
			table := in.Get(router, "invokeNames").(*dartx.Map)
			var e dartx.Value
			for k := range table.K {
				if name+"/"+fmt.Sprint(table.K[k]) == strings.TrimPrefix(path, "/") {
					e = table.V[k]
				}
			}
			if e == nil {
				return
			}
			bytes := &dartx.List{}
			for _, b := range []byte(text) {
				bytes.V = append(bytes.V, int64(b))
			}
			data := u.call(e, "toData", bytes)
			ans := u.call(e, "invoke", &dartx.Ext{Name: "Context", P: map[string]dartx.Value{}}, data)
			out = u.call(e, "formData", ans)
			// the table by number serves the method under its declared number
			num, uses := schema.ItemNum(j.m.Method.ID), 0
			for _, m := range p.AllMethods(j.s) {
				if schema.ItemNum(m.Method.ID) == num {
					uses++
				}
			}
			if uses > 1 {
				return
			}
			byNum, idHit := in.Get(router, "invokeIds").(*dartx.Map), hit
			hit = ""
			for k := range byNum.K {
				if fmt.Sprint(byNum.K[k]) == num {
					back := u.call(byNum.V[k], "invoke", &dartx.Ext{Name: "Context", P: map[string]dartx.Value{}}, data)
					if j.rx == nil {
						u.call(byNum.V[k], "formData", back)
					}
				}
			}
			if hit != idHit {
				wrong = core.Failf("dart-number", "the number %s reaches %q in the Dart router\ncall %s\nnumbers %s", num, hit, at(j), in.Text(byNum))
			}
		}); err != nil {
			return core.Failf("dart-router", "the Dart router fails: %v\ncall %s\nsent %s %s", err, at(j), path, text)
		}
		if wrong != nil {
			return wrong
		}
		if hit != schema.LowerHump(j.m.Method.Name)+" " || !reqSeen {
			return core.Failf("dart-endpoint", "the Go client's %s reaches %q in the Dart router\ncall %s", path, hit, at(j))
		}
		if d := diff("parameter", canon(p, *j.px, toAny(j.req)), canon(p, *j.px, req)); d != "" {
			return core.Failf("dart-parameter", "the Dart implementation sees another parameter: %s\ncall %s\nsent %s", d, at(j), text)
		}
		l, ok := out.(*dartx.List)
		if !ok {
			return core.Failf("dart-router", "the Dart router's answer is not encoded\ncall %s", at(j))
		}
		var b []byte
		for _, v := range l.V {
			b = append(b, byte(v.(int64)))
		}
		tree, err := numTree(string(b))
		if err != nil {
			return core.Failf("dart-router", "the Dart router's answer is no JSON: %q\ncall %s", b, at(j))
		}
		if j.rx != nil {
			if d := (schema.Wire{P: p}).Data("answer", *j.rx, j.rep, tree); d != "" {
				return core.Failf("dart-result", "the Dart router's answer has not its wire form: %s\ncall %s\nanswer %s", d, at(j), b)
			}
		}
		res.Evals++
	}
	res.NonTrivial = len(done) > 1
	return res
}
