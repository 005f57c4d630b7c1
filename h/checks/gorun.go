package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"hv/schema"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// goUnit is one case inside a compiled program.
type goUnit struct {
	N    int
	Case *core.Case
	Prog *schema.Program
	bad  *core.Result // why it is not part of the program
	ask  func(ops []*gop) ([]*grep, error)
}

type gop struct {
	Op    string   `json:"op"`
	Type  string   `json:"type,omitempty"`
	Name  string   `json:"name,omitempty"`
	Value any      `json:"value,omitempty"`
	Text  string   `json:"text,omitempty"`
	Names []string `json:"names,omitempty"`
	Nums  []int64  `json:"nums,omitempty"`
	J     any      `json:"j,omitempty"`
}

type grep struct {
	Err   string         `json:"err,omitempty"`
	Panic string         `json:"panic,omitempty"`
	Text  string         `json:"text,omitempty"`
	Value any            `json:"value"`
	M     map[string]any `json:"m,omitempty"`
}

// goBatch compiles the generated Go code of all cases into one program and evaluates each with it.
func goBatch(cs []*core.Case, valid func(c *core.Case) bool, reg regOpt, eval func(u *goUnit) *core.Result) []*core.Result {
	out := make([]*core.Result, len(cs))
	dir := scratch()
	defer os.RemoveAll(dir)
	b := gox.NewBuild(filepath.Join(dir))
	var units []*goUnit
	var mains []string
	for i, c := range cs {
		if !valid(c) {
			out[i] = &core.Result{Labels: []string{"outside the domain"}}
			continue
		}
		u := &goUnit{N: i, Case: c, Prog: c.Prog}
		units = append(units, u)
		name := fmt.Sprintf("u%d", i)
		src, gen := filepath.Join(dir, "src", name), filepath.Join(dir, "gen", name)
		writeSources(src, c.Prog)
		for _, f := range c.Prog.Files {
			if err, _ := buildQuiet(gen, filepath.Join(src, f.Path), "go", "gen/"+name+"/"); err != nil {
				u.bad = core.Failf("build", "a valid schema is rejected: %v", err)
				break
			}
		}
		if u.bad != nil {
			continue
		}
		_, pkgs, err := gox.Load(gen, "gen/"+name)
		if err != nil {
			u.bad = core.Failf("compile", "%v", err)
			continue
		}
		text := regFile(c.Prog, i, "gen/"+name, reg)
		rd := filepath.Join(dir, "reg", name)
		writeFile(filepath.Join(rd, "reg.go"), text)
		rp := &gox.Pkg{Path: "gen/" + name + "/reg", Dir: rd, Files: []string{filepath.Join(rd, "reg.go")}}
		for _, k := range pkgs {
			rp.Imports = append(rp.Imports, k.Path)
		}
		for _, k := range append(pkgs, rp) {
			msg, err := b.Compile(k)
			if err != nil {
				u.bad = &core.Result{Infra: err.Error()}
				break
			}
			if msg != "" {
				msg = strings.ReplaceAll(msg, gen+"/", "")
				if k == rp {
					msg = "the generated API lacks what the schema promises:\n" + strings.ReplaceAll(msg, rd, "") + "\n" + numbered(text)
				}
				u.bad = core.Failf("compile", "%s", msg)
				break
			}
		}
		if u.bad == nil {
			mains = append(mains, rp.Path)
		}
	}
	infra := func(err error) []*core.Result {
		for _, u := range units {
			if out[u.N] = u.bad; u.bad == nil {
				out[u.N] = &core.Result{Infra: err.Error()}
			}
		}
		return out
	}
	var p *gox.Prog
	bin := filepath.Join(dir, "prog")
	if len(mains) > 0 {
		md := filepath.Join(dir, "main")
		t := "package main\n\nimport (\n\t\"github.com/wskfjtheqian/hbuf_golang/drv\"\n"
		k := &gox.Pkg{Path: "gen/main", Dir: md, Files: []string{filepath.Join(md, "main.go")}, Imports: mains}
		for _, m := range mains {
			t += fmt.Sprintf("\t_ %q\n", m)
		}
		writeFile(k.Files[0], t+")\n\nfunc main() { drv.Main() }\n")
		msg, err := b.Compile(k)
		if err == nil && msg != "" {
			err = fmt.Errorf("main: %s", msg)
		}
		if err == nil {
			err = b.Link("gen/main", bin)
		}
		if err != nil {
			return infra(err)
		}
		if p, err = gox.Start(bin); err != nil {
			return infra(err)
		}
		defer func() { p.Close() }()
	}
	for _, u := range units {
		if u.bad != nil {
			out[u.N] = u.bad
			continue
		}
		core.Progress(u.N)
		n := u.N
		u.ask = func(ops []*gop) ([]*grep, error) {
			var reps []*grep
			err := p.Ask(map[string]any{"unit": n, "ops": ops}, &reps, 20*time.Second)
			if err != nil {
				err = fmt.Errorf("%v\n%s", err, core.Head(p.Stderr(), 1500))
				p.Close()
				q, e := gox.Start(bin)
				if e != nil {
					panic("gorun: " + e.Error())
				}
				p = q
			}
			return reps, err
		}
		out[u.N] = eval(u)
	}
	return out
}

// died is the verdict on a program that stopped answering.
func died(err error) *core.Result { return core.Failf("crash", "the generated program died: %v", err) }

func numbered(t string) string {
	ls := strings.Split(t, "\n")
	for i := range ls {
		ls[i] = fmt.Sprintf("%3d %s", i+1, ls[i])
	}
	return strings.Join(ls, "\n")
}

type regOpt struct{ Enums, Servers bool }

// goName qualifies a declaration for the registration file.
func goPkgPath(prefix string, f *schema.File) string {
	return prefix + "/" + strings.ReplaceAll(f.Pkg("go"), ".", "/")
}

// regFile registers constructors of everything the schema declares, by the names the schema promises.
func regFile(p *schema.Program, n int, prefix string, opt regOpt) string {
	alias := map[string]string{}
	var order []string
	q := func(f *schema.File) string {
		path := goPkgPath(prefix, f)
		if alias[path] == "" {
			alias[path] = fmt.Sprintf("q%d", len(alias))
			order = append(order, path)
		}
		return alias[path] + "."
	}
	var b, impls strings.Builder
	fmt.Fprintf(&b, "func init() {\n\tdrv.Reg(%d, &drv.Unit{\n\t\tDatas: map[string]func() any{\n", n)
	for _, x := range p.Decls(schema.Data) {
		fmt.Fprintf(&b, "\t\t\t%q: func() any { return &%s%s{} },\n", x.Decl.Name, q(x.File), schema.Hump(x.Decl.Name))
	}
	b.WriteString("\t\t},\n")
	useRPC := false
	if opt.Enums {
		b.WriteString("\t\tEnums: map[string]drv.Enum{\n")
		for _, x := range p.Decls(schema.Enum) {
			t := q(x.File) + schema.Hump(x.Decl.Name)
			fmt.Fprintf(&b, "\t\t\t%q: {Items: map[string]int64{\n", x.Decl.Name)
			for _, i := range x.Decl.Items {
				fmt.Fprintf(&b, "\t\t\t\t%q: int64(%s%s),\n", i.Name, t, schema.Hump(i.Name))
			}
			fmt.Fprintf(&b, "\t\t\t}, ToName: func(n int64) string { return %s(n).ToName() },\n", t)
			fmt.Fprintf(&b, "\t\t\tValues: func() map[string]int64 {\n\t\t\t\to := map[string]int64{}\n\t\t\t\tfor k, v := range %sValues() {\n\t\t\t\t\to[k] = int64(v)\n\t\t\t\t}\n\t\t\t\treturn o\n\t\t\t},\n", t)
			fmt.Fprintf(&b, "\t\t\tPtr: func(n int64) int64 { return int64(*%s(n).Pointer()) }},\n", t)
		}
		b.WriteString("\t\t},\n")
	}
	if opt.Servers {
		b.WriteString("\t\tServers: map[string]drv.Server{\n")
		for si, x := range p.Decls(schema.Server) {
			useRPC = true
			h := schema.Hump(x.Decl.Name)
			pk := q(x.File)
			fmt.Fprintf(&b, "\t\t\t%q: {Impl: func(h *drv.Handler) any { return &impl%d{h} },\n", x.Decl.Name, si)
			fmt.Fprintf(&b, "\t\t\t\tRouter: func(i any) rpc.ServerRouter { return %sNew%sRouter(i.(%s%s)) },\n", pk, h, pk, h)
			fmt.Fprintf(&b, "\t\t\t\tClient: func(c rpc.Client) any { var s %s%s = %sNew%sClient(c); return s },\n", pk, h, pk, h)
			fmt.Fprintf(&b, "\t\t\t\tDefault: func() any { var s %s%s = &%sDefault%s{}; return s },\n", pk, h, pk, h)
			fmt.Fprintf(&b, "\t\t\t\tItf: func() reflect.Type { return reflect.TypeOf((*%s%s)(nil)).Elem() },\n", pk, h)
			fmt.Fprintf(&b, "\t\t\t\tGet: func(ctx context.Context) any { return %sGet%s(ctx) }},\n", pk, h)
			fmt.Fprintf(&impls, "\ntype impl%d struct{ h *drv.Handler }\n\nfunc (s *impl%d) Init(ctx context.Context) {}\n", si, si)
			for _, m := range p.AllMethods(x) {
				pr := p.Visible(m.File, m.Method.Param)
				param := q(pr.File) + schema.Hump(pr.Decl.Name)
				hm := schema.Hump(m.Method.Name)
				if m.Method.Result == "void" {
					fmt.Fprintf(&impls, "\nfunc (s *impl%d) %s(ctx context.Context, req *%s) error {\n\t_, err := s.h.Call(ctx, %q, %q, req, nil)\n\treturn err\n}\n", si, hm, param, x.Decl.Name, m.Method.Name)
					continue
				}
				rr := p.Visible(m.File, m.Method.Result)
				res := q(rr.File) + schema.Hump(rr.Decl.Name)
				fmt.Fprintf(&impls, "\nfunc (s *impl%d) %s(ctx context.Context, req *%s) (*%s, error) {\n\tr, err := s.h.Call(ctx, %q, %q, req, func() any { return &%s{} })\n\tif r == nil {\n\t\treturn nil, err\n\t}\n\treturn r.(*%s), err\n}\n", si, hm, param, res, x.Decl.Name, m.Method.Name, res, res)
			}
		}
		b.WriteString("\t\t},\n")
	}
	b.WriteString("\t})\n}\n")
	var t strings.Builder
	t.WriteString("package reg\n\nimport (\n\t\"github.com/wskfjtheqian/hbuf_golang/drv\"\n")
	if useRPC {
		t.WriteString("\t\"context\"\n\t\"reflect\"\n\t\"github.com/wskfjtheqian/hbuf_golang/pkg/rpc\"\n")
	}
	for _, path := range order {
		fmt.Fprintf(&t, "\t%s %q\n", alias[path], path)
	}
	t.WriteString(")\n\n" + b.String() + impls.String())
	return t.String()
}

// ---- comparing neutral values

func toAny(v any) any {
	b, _ := json.Marshal(v)
	var o any
	json.Unmarshal(b, &o)
	return o
}

func show(v any) string { b, _ := json.Marshal(v); return core.Head(string(b), 1500) }

// diff describes the first difference of two neutral values; nil and empty lists are equal, maps are unordered.
func diff(at string, a, b any) string {
	al, aok := a.([]any)
	bl, bok := b.([]any)
	if (aok || a == nil) && (bok || b == nil) && (aok || bok) {
		if len(al) != len(bl) {
			return fmt.Sprintf("%s: %s became %s", at, show(a), show(b))
		}
		if isPairs(al) && isPairs(bl) && len(al) > 0 {
			al, bl = sortPairs(al), sortPairs(bl)
		}
		for i := range al {
			if d := diff(fmt.Sprintf("%s[%d]", at, i), al[i], bl[i]); d != "" {
				return d
			}
		}
		return ""
	}
	am, aok := a.(map[string]any)
	bm, bok := b.(map[string]any)
	if aok && bok {
		keys := map[string]bool{}
		for k := range am {
			keys[k] = true
		}
		for k := range bm {
			keys[k] = true
		}
		var ks []string
		for k := range keys {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			x, ok1 := am[k]
			y, ok2 := bm[k]
			if ok1 != ok2 {
				return fmt.Sprintf("%s.%s: present %v, then %v", at, k, ok1, ok2)
			}
			if d := diff(at+"."+k, x, y); d != "" {
				return d
			}
		}
		return ""
	}
	if aok != bok || fmt.Sprintf("%T%v", a, a) != fmt.Sprintf("%T%v", b, b) {
		return fmt.Sprintf("%s: %s became %s", at, show(a), show(b))
	}
	return ""
}

func isPairs(l []any) bool {
	for _, x := range l {
		if p, ok := x.([]any); !ok || len(p) != 2 {
			return false
		}
	}
	return true
}

func sortPairs(l []any) []any {
	o := append([]any(nil), l...)
	sort.SliceStable(o, func(i, j int) bool { return fmt.Sprint(o[i].([]any)[0]) < fmt.Sprint(o[j].([]any)[0]) })
	return o
}
