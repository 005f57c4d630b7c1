package checks

import (
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"sort"
	"strconv"
	"strings"
)

// C23: generated Dart compiles and keeps every value.
func init() {
	core.Register(&core.Check{
		ID:    "C23",
		Rule:  "at least one value with three or more set fields was stored, encoded, decoded and copied by the generated classes, or a server with two or more methods was called; distinct programs and values",
		Quick: 6000, Thorough: 120000, Timeout: 60e9,
		Gen:     genC23,
		Shrinks: valueShrinks,
		Eval1:   evalC23,
		Assumptions: []string{
			"there is no Dart SDK here: a checker and interpreter of the part of Dart that the generated code uses (h/dartx) stands for compiler and virtual machine; it knows the used members of dart:core, dart:convert, fixnum, decimal and Flutter, and hbuf_dart and hbuf_flutter by the names the generated code uses",
			"values: texts are valid Unicode, floats finite and not minus zero, dates whole milliseconds within what DateTime holds, unsigned 64 bit numbers below 2^63 (fixnum has no unsigned type)",
			"every enumeration has an item numbered 0 (the default of a required field); classes are not named like those of the libraries",
		},
	})
}

func genC23(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	p.Layout = r.U64()
	if r.P(25) {
		schema.DecorateVerify(r, p, 40)
	}
	if r.P(30) {
		schema.DecorateUI(r, p, 60)
	}
	// a redeclared field keeps its type
	for _, x := range p.Decls(schema.Data) {
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				for _, g := range x.Decl.Fields {
					if g != f && g.Name == f.Name && q.Decl != x.Decl && p.Visible(x.File, f.Type.Name) != nil {
						g.Type = f.Type
					}
				}
			}
		}
	}
	return &core.Case{Prog: p, Ops: valueOps(r, p, 10+r.Int(20), schema.ValCfg{Depth: r.Range(1, 3), MaxLen: r.Range(2, 6)}), Args: map[string]string{"n": strconv.Itoa(r.Range(1, 1<<30))}}
}

func evalC23(c *core.Case) *core.Result {
	if !dartProblem(c.Prog, c.Args["allow"]) {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	u, bad := dartOpen(c)
	if bad != nil {
		return bad
	}
	res := &core.Result{}
	p := u.P
	for _, x := range p.Decls(schema.Data) {
		if f := u.judgeAPI(x); f != nil {
			return f
		}
	}
	for _, x := range p.Decls(schema.Enum) {
		o := enumOp(x, x.Decl.Name, orDefault(c.Args["n"], "7919"))
		if f := newEnumModel(x).judgeObj("Dart", u.enum(x, o), o); f != nil {
			return f
		}
	}
	pool := map[string]map[string]any{}
	for i, o := range c.Ops {
		x, v := opValue(p, o)
		if x == nil {
			continue
		}
		dartDomain(p, *x, v)
		prev := pool[x.Decl.Name]
		pool[x.Decl.Name] = v
		var f *core.Result
		err := dartx.Guard(func() { f = u.judgeValue(*x, v, prev, i, res) })
		if err != nil {
			return core.Failf("throws", "%s %s: %v", x.Decl.Name, show(v), err)
		}
		if f != nil {
			return f
		}
	}
	for _, x := range p.Decls(schema.Data) {
		var f *core.Result
		if err := dartx.Guard(func() { f = u.judgeEmpty(x) }); err != nil {
			return core.Failf("empty", "%s of an empty map: %v", x.Decl.Name, err)
		}
		if f != nil {
			return f
		}
	}
	for _, x := range p.Decls(schema.Server) {
		var f *core.Result
		if err := dartx.Guard(func() { f = u.judgeServer(x, pool, res) }); err != nil {
			return core.Failf("server", "server %s: %v", x.Decl.Name, err)
		}
		if f != nil {
			return f
		}
	}
	return res
}

func orDefault(s, d string) string {
	if s == "" {
		return d
	}
	return s
}

// judgeAPI: the abstract class has a getter and a setter of the declared type for each of the type's own fields, and is
// a subclass of its parents' classes.
func (u *dartUnit) judgeAPI(x schema.Ref) *core.Result {
	c := u.class(x, "")
	if c == nil {
		return core.Failf("api", "there is no class for data %s", x.Decl.Name)
	}
	impl := map[string]bool{}
	for _, t := range c.Impl {
		impl[t.String()] = true
	}
	for _, q := range x.Decl.Parents {
		if y := u.P.Visible(x.File, q.Name); y != nil && !impl[schema.Hump(y.Decl.Name)] {
			return core.Failf("api", "class %s does not implement %s", c.Name, schema.Hump(y.Decl.Name))
		}
	}
	get, set := map[string]string{}, map[string]string{}
	for _, f := range c.Funcs {
		switch f.Kind {
		case "get":
			get[f.Name] = f.Ret.String()
		case "set":
			set[f.Name] = f.Params[0].T.String()
		}
	}
	for _, f := range x.Decl.Fields {
		n, t := schema.LowerHump(f.Name), dartType(u.P, x.File, f.Type)
		if get[n] != t || set[n] != t {
			return core.Failf("api", "%s.%s of type %s has a getter of %q and a setter of %q", x.Decl.Name, f.Name, t, get[n], set[n])
		}
		delete(get, n)
		delete(set, n)
	}
	if len(get)+len(set) > 0 {
		return core.Failf("api", "%s has further members: %v %v", c.Name, get, set)
	}
	return nil
}

// shares finds a list, map or object that two values have in common.
func shares(a, b dartx.Value, at string) string {
	switch x := a.(type) {
	case *dartx.List:
		y, ok := b.(*dartx.List)
		if !ok {
			return ""
		}
		if x == y {
			return at
		}
		for i := range x.V {
			if i < len(y.V) {
				if s := shares(x.V[i], y.V[i], fmt.Sprintf("%s[%d]", at, i)); s != "" {
					return s
				}
			}
		}
	case *dartx.Map:
		y, ok := b.(*dartx.Map)
		if !ok {
			return ""
		}
		if x == y {
			return at
		}
		for i := range x.V {
			if i < len(y.V) {
				if s := shares(x.V[i], y.V[i], fmt.Sprintf("%s{%d}", at, i)); s != "" {
					return s
				}
			}
		}
	case *dartx.Obj:
		y, ok := b.(*dartx.Obj)
		if !ok || strings.HasSuffix(x.C.File.Name, ".enum.dart") {
			return ""
		}
		if x == y {
			return at
		}
		var ks []string
		for k := range x.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if s := shares(x.F[k], y.F[k], at+"."+k); s != "" {
				return s
			}
		}
	}
	return ""
}

func (u *dartUnit) call(o dartx.Value, m string, a ...dartx.Value) dartx.Value {
	return u.In.Call(u.In.Get(o, m), a, nil)
}

func (u *dartUnit) eq(a, b dartx.Value) bool {
	return u.In.Equal(a, b)
}

// judgeValue takes one value through everything a data class offers.
func (u *dartUnit) judgeValue(x schema.Ref, v, prev map[string]any, i int, res *core.Result) *core.Result {
	p, in := u.P, u.In
	at := x.Decl.Name + " " + show(v)
	want := canon(p, x, toAny(v))
	same := func(sig, what string, o dartx.Value) *core.Result {
		if d := diffNil("", want, canon(p, x, u.fields(x, o))); d != "" {
			return core.Failf(sig, "%s changes %s\nvalue %s", what, d, at)
		}
		return nil
	}
	o := u.obj(x, v)
	if f := same("fields", "storing the value", o); f != nil {
		return f
	}
	m := u.call(o, "toMap")
	text, err := in.JSON(m)
	if err != nil {
		return core.Failf("json", "the map of %s cannot be encoded as JSON: %v", at, err)
	}
	tree, err := numTree(text)
	if err != nil {
		return core.Failf("json", "no JSON: %q", text)
	}
	w := schema.Wire{P: p}
	if d := w.Data(x.Decl.Name, x, v, tree); d != "" {
		return core.Failf("wire", "%s\nvalue %s\nencoded %s", d, at, text)
	}
	if f := same("mutated", "encoding", o); f != nil {
		return f
	}
	from := in.Static(u.need(x, ""), "fromMap")
	back, err := dartx.FromJSON(text)
	if err != nil {
		return core.Failf("json", "no JSON: %v", err)
	}
	if f := same("roundtrip", "the round trip through JSON", in.Call(from, []dartx.Value{back}, nil)); f != nil {
		return f
	}
	if f := same("roundtrip", "the round trip through the map", in.Call(from, []dartx.Value{m}, nil)); f != nil {
		return f
	}
	cp := u.call(o, "copy")
	if f := same("copy", "copying", cp); f != nil {
		return f
	}
	if s := shares(o, cp, x.Decl.Name); s != "" {
		return core.Failf("shared", "the copy shares %s with its original: %s", s, at)
	}
	cw := u.call(o, "copyWith")
	if f := same("copywith", "copyWith() without changes", cw); f != nil {
		return f
	}
	if !u.eq(o, o) || !u.eq(o, cw) || !u.eq(cw, o) {
		return core.Failf("equal", "a value is not equal to its unchanged copyWith(): %s", at)
	}
	if a, b := in.Get(o, "hashCode"), in.Get(cw, "hashCode"); a != b {
		return core.Failf("equal", "equal values have the hash codes %v and %v: %s", a, b, at)
	}
	if u.eq(o, "x") {
		return core.Failf("equal", "a value is equal to something else: %s", at)
	}
	s, _ := in.Call(in.Get(o, "toString"), nil, nil).(string)
	fs := p.AllFields(x)
	for _, f := range fs {
		if !strings.Contains(s, schema.LowerHump(f.Field.Name)) {
			return core.Failf("text", "toString() does not mention %s: %q", f.Field.Name, core.Head(s, 300))
		}
	}
	// one field changed, by copyWith and by the setter
	if prev != nil && len(fs) > 0 {
		f := fs[i%len(fs)]
		n := schema.LowerHump(f.Field.Name)
		if nv := prev[f.Field.Name]; true {
			exp := map[string]any{}
			for k, e := range v {
				exp[k] = e
			}
			if nv != nil {
				exp[f.Field.Name] = nv
			}
			wantOne := canon(p, x, toAny(exp))
			c1 := in.Call(in.Get(o, "copyWith"), nil, map[string]dartx.Value{n: u.toDart(f.File, f.Field.Type, nv)})
			if d := diffNil("", wantOne, canon(p, x, u.fields(x, c1))); d != "" {
				return core.Failf("copywith", "copyWith(%s: %s) gives %s\nvalue %s", n, show(nv), d, at)
			}
			scalar := f.Field.Type.Shape == "" && schema.IsScalar(f.Field.Type.Name)
			if d := diffNil("", wantOne, want); scalar && (d != "") == u.eq(o, c1) {
				return core.Failf("equal", "values that differ by %q are equal: %v; %s", d, u.eq(o, c1), at)
			}
			if f := same("mutated", "copyWith with a change", o); f != nil {
				return f
			}
			exp[f.Field.Name] = nv
			c2 := u.call(o, "copy")
			in.Set(c2, n, u.toDart(f.File, f.Field.Type, nv))
			if d := diffNil("", canon(p, x, toAny(exp)), canon(p, x, u.fields(x, c2))); d != "" {
				return core.Failf("setter", "setting %s gives %s\nvalue %s", n, d, at)
			}
			if f := same("mutated", "changing a copy", o); f != nil {
				return f
			}
		}
	}
	set := 0
	for _, e := range v {
		if e != nil {
			set++
		}
	}
	res.NonTrivial = res.NonTrivial || set >= 3
	res.Evals++
	if len(text) > len(res.Sample) {
		res.Sample = x.Decl.Name + " " + text
	}
	return nil
}

// judgeEmpty: decoding nothing gives the type's defaults.
func (u *dartUnit) judgeEmpty(x schema.Ref) *core.Result {
	p := u.P
	o := u.In.Call(u.In.Static(u.need(x, ""), "fromMap"), []dartx.Value{&dartx.Map{}}, nil)
	got := canon(p, x, u.fields(x, o))
	if b := badPart("", got); b != "" {
		return core.Failf("default", "an empty %s: %s", x.Decl.Name, b)
	}
	want := canon(p, x, toAny(defaults(p, x, 0)))
	if d := diffNil("", want, got); d != "" {
		return core.Failf("default", "an empty %s: %s", x.Decl.Name, d)
	}
	return nil
}

// defaults is the value of a type when nothing is known about it.
func defaults(p *schema.Program, x schema.Ref, depth int) map[string]any {
	o := map[string]any{}
	for _, f := range p.AllFields(x) {
		t := f.Field.Type
		y := p.Visible(f.File, t.Name)
		switch {
		case t.Nullable() && (t.Shape == "" || t.ONull):
			o[f.Field.Name] = nil
		case t.Shape != "":
			o[f.Field.Name] = []any{}
		case y != nil && y.Decl.Kind == schema.Data && depth < 20:
			o[f.Field.Name] = defaults(p, *y, depth+1)
		case t.Name == "bool":
			o[f.Field.Name] = false
		case t.Name == "string":
			o[f.Field.Name] = ""
		default:
			o[f.Field.Name] = "0"
		}
	}
	return o
}

// enum looks an enumeration up, answering like the drivers of the other targets.
func (u *dartUnit) enum(x schema.Ref, o *gop) *grep {
	in := u.In
	r := &grep{M: map[string]any{}}
	c := u.class(x, "")
	if c == nil {
		r.Panic = "there is no class"
		return r
	}
	show := func(v dartx.Value) []any {
		if k := dartx.Kind(v); k != c.Name {
			return []any{"a " + k, ""}
		}
		return []any{in.Get(v, "name"), fmt.Sprint(in.Get(v, "value"))}
	}
	err := dartx.Guard(func() {
		vals := in.Static(c, "values").(*dartx.List)
		list := []any{}
		for _, v := range vals.V {
			list = append(list, show(v))
		}
		r.M["values"] = list
		items := map[string]any{}
		for _, f := range c.Fields {
			if v := dartx.Value(nil); f.Static && f.Name != "values" {
				if v = in.Static(c, f.Name); dartx.Kind(v) != c.Name {
					continue
				}
				at := -1
				for i, e := range vals.V {
					if e == v {
						at = i
					}
				}
				items[f.Name] = append(show(v), at)
			}
		}
		r.M["items"] = items
		look := func(m string, k dartx.Value) (o any) {
			var v dartx.Value
			if err := dartx.Guard(func() { v = in.Call(in.Static(c, m), []dartx.Value{k}, nil) }); err != nil {
				return nil
			}
			if v == nil {
				return nil
			}
			e := show(v)
			ok := false
			for _, w := range vals.V {
				ok = ok || w == v
			}
			if !ok {
				return []any{"not among the values", ""}
			}
			return e
		}
		byNum, byName := map[string]any{}, map[string]any{}
		for _, n := range o.Nums {
			byNum[strconv.FormatInt(n, 10)] = look("valueOf", n)
		}
		for _, n := range o.Names {
			byName["="+n] = look("nameOf", n)
		}
		r.M["byNum"], r.M["byName"] = byNum, byName
	})
	if err != nil {
		r.Panic = err.Error()
	}
	return r
}

// judgeServer: calls of the client reach the transport with the method's path and the request's wire form and give the
// answer back; the router has every method once, hands the decoded request to the server and encodes its answer.
func (u *dartUnit) judgeServer(s schema.Ref, pool map[string]map[string]any, res *core.Result) *core.Result {
	p, in := u.P, u.In
	value := func(f *schema.File, n string) (schema.Ref, map[string]any) {
		x := p.Visible(f, n)
		v := pool[x.Decl.Name]
		if v == nil {
			v = p.Fit(*x, nil)
		}
		return *x, v
	}
	ms := p.AllMethods(s)
	c := u.need(s, "")
	impl := map[string]bool{}
	for _, t := range c.Impl {
		impl[t.String()] = true
	}
	for _, q := range s.Decl.Parents {
		if y := p.Visible(s.File, q.Name); y != nil && !impl[schema.Hump(y.Decl.Name)] {
			return core.Failf("server", "class %s does not implement %s", c.Name, schema.Hump(y.Decl.Name))
		}
	}
	own := map[string]bool{}
	for _, f := range c.Funcs {
		own[f.Name] = true
	}
	for _, m := range s.Decl.Methods {
		if !own[schema.LowerHump(m.Name)] {
			return core.Failf("server", "class %s lacks the method %s", c.Name, m.Name)
		}
	}
	client := in.New(u.need(s, "Client"), []dartx.Value{&dartx.Ext{Name: "Client", P: map[string]dartx.Value{}}}, nil)
	name := schema.Snake(s.Decl.Name)
	if got := in.Get(client, "name"); got != name {
		return core.Failf("server", "the client of %s is named %v", s.Decl.Name, got)
	}
	var gotReq dartx.Value
	var answer dartx.Value
	hit := ""
	stub := map[string]func(a []dartx.Value) dartx.Value{}
	for _, m := range ms {
		n := schema.LowerHump(m.Method.Name)
		stub[n] = func(a []dartx.Value) dartx.Value {
			hit += n + " "
			gotReq = a[0]
			return answer
		}
	}
	router := in.New(u.need(s, "Router"), []dartx.Value{in.Stub(c, stub)}, nil)
	if got := in.Get(router, "name"); got != name {
		return core.Failf("server", "the router of %s is named %v", s.Decl.Name, got)
	}
	table, ok := in.Get(router, "invokeNames").(*dartx.Map)
	if !ok || len(table.K) != len(ms) {
		return core.Failf("server", "the router of %s has not its %d methods: %s", s.Decl.Name, len(ms), in.Text(in.Get(router, "invokeNames")))
	}
	entries := map[string]dartx.Value{}
	for i, k := range table.K {
		entries[fmt.Sprint(k)] = table.V[i]
	}
	for _, m := range ms {
		at := s.Decl.Name + "." + m.Method.Name
		path := name + "/" + schema.Snake(m.Method.Name)
		px, pv := value(m.File, m.Method.Param)
		void := m.Method.Result == "void"
		var rx schema.Ref
		var rv map[string]any
		answerText := "{}"
		answer = nil
		if !void {
			rx, rv = value(m.File, m.Method.Result)
			answer = u.obj(rx, rv)
			answerText, _ = in.JSON(u.call(answer, "toMap"))
		}
		calls := 0
		var bad *core.Result
		in.Invoke = func(got string, id int64, req string) (string, error) {
			calls++
			if got != path {
				bad = core.Failf("path", "%s is called by the path %q instead of %q", at, got, path)
			}
			if want, _ := strconv.ParseInt(m.Method.ID, 0, 64); id != want {
				bad = core.Failf("path", "%s is called by the number %d instead of %d", at, id, want)
			}
			tree, err := numTree(req)
			if err != nil {
				bad = core.Failf("client", "%s: no JSON: %q", at, req)
			} else if d := (schema.Wire{P: p}).Data("request", px, pv, tree); d != "" {
				bad = core.Failf("client", "%s: %s", at, d)
			}
			return answerText, nil
		}
		got := in.Call(in.Get(client, schema.LowerHump(m.Method.Name)), []dartx.Value{u.obj(px, pv)}, nil)
		if bad != nil {
			return bad
		}
		if calls != 1 {
			return core.Failf("client", "%s reaches the transport %d times", at, calls)
		}
		if !void {
			if d := diffNil("", canon(p, rx, toAny(rv)), canon(p, rx, u.fields(rx, got))); d != "" {
				return core.Failf("client", "%s: the answer changed %s", at, d)
			}
		}
		e := entries[path]
		if e == nil {
			return core.Failf("router", "the router of %s has no %q: %s", s.Decl.Name, path, show(entries))
		}
		reqText, err := in.JSON(u.call(u.obj(px, pv), "toMap"))
		if err != nil {
			return core.Failf("json", "%s: %v", at, err)
		}
		bytes := &dartx.List{}
		for _, b := range []byte(reqText) {
			bytes.V = append(bytes.V, int64(b))
		}
		hit, gotReq = "", nil
		data := u.call(e, "toData", bytes)
		back := u.call(e, "invoke", &dartx.Ext{Name: "Context", P: map[string]dartx.Value{}}, data)
		if hit != schema.LowerHump(m.Method.Name)+" " {
			return core.Failf("router", "%q reaches %q", path, hit)
		}
		if d := diffNil("", canon(p, px, toAny(pv)), canon(p, px, u.fields(px, gotReq))); d != "" {
			return core.Failf("router", "%s: the request changed %s", at, d)
		}
		out, ok := u.call(e, "formData", back).(*dartx.List)
		if !ok {
			return core.Failf("router", "%s: the answer is not encoded", at)
		}
		var raw []byte
		for _, b := range out.V {
			raw = append(raw, byte(b.(int64)))
		}
		tree, err := numTree(string(raw))
		if err != nil {
			return core.Failf("router", "%s: the answer %q is no JSON", at, raw)
		}
		if !void {
			if d := (schema.Wire{P: p}).Data("answer", rx, rv, tree); d != "" {
				return core.Failf("router", "%s: %s", at, d)
			}
		}
		res.Evals++
	}
	res.NonTrivial = res.NonTrivial || len(ms) > 1
	return nil
}
