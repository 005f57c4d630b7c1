package checks

import (
	"hv/core"
	"hv/gox"
	"hv/schema"
	"os"
	"path/filepath"
)

// C09: generated Go code always compiles.
func init() {
	core.Register(&core.Check{
		ID:    "C09",
		Rule:  "the program has at least two declarations of different kinds or files and every generated package was type-checked; distinct programs",
		Quick: 4000, Thorough: 400000, Batch: 10,
		Setup: gox.Setup,
		Gen:   genC09,
		Eval1: evalC09,
		Assumptions: []string{
			"the runtime library is the stand-in with the API of hbuf_golang v1.0.12 plus db.Database.Table and variadic rpc.SetTag, which the generator uses",
		},
	})
}

// goCfg: valid programs whose Go code is compiled.
var goCfg = schema.Cfg{MinFiles: 1, MaxFiles: 4, MaxEnums: 3, MinEnums: 0, MaxDatas: 6, MinDatas: 1, MaxServers: 5, MaxFields: 7, MaxItems: 5, MaxMethods: 4, ParentPct: 45, MaxParents: 3,
	MapKeys: []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "string", "bool", "float", "double"}, EnumKeys: true, Shapes: true, DataRefs: true, EnumRefs: true, DocPct: 15, MultiDoc: true, GoPkgs: "one", HexPct: 15, RPCTags: true, BigIDs: true, Void: true, Dirs: true, Diamonds: true, Override: true}

func genC09(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.GoPkgs = schema.Pick(r, []string{"one", "one", "each"})
	p := schema.Generate(r, cfg)
	p.Layout = r.U64()
	if r.P(25) { // packages in nested directories, same last name allowed
		pre := map[string]string{}
		for _, f := range p.Files {
			v := f.Pkgs[0].Value
			if _, ok := pre[v]; !ok {
				pre[v] = schema.Pick(r, []string{"", "com.", "a.b.", "a."})
			}
			f.Pkgs[0].Value = pre[v] + v
		}
	}
	if r.P(50) {
		schema.DecorateVerify(r, p, 60)
	}
	if r.P(50) {
		schema.DecorateBind(r, p, 60)
	}
	if r.P(60) {
		schema.DecorateDB(r, p, 40)
	}
	p.Pattern = "*"
	return &core.Case{Prog: p}
}

func evalC09(c *core.Case) *core.Result {
	if !validGo(c.Prog) {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	writeSources(src, c.Prog)
	out := filepath.Join(dir, "out")
	for _, f := range c.Prog.Files {
		if err, _ := buildQuiet(out, filepath.Join(src, f.Path), "go", "gen/c/"); err != nil {
			return core.Failf("build", "a valid schema is rejected: %v", err)
		}
	}
	fset, pkgs, err := gox.Load(out, "gen/c")
	if err != nil {
		return core.Failf("compile", "%v", err)
	}
	if e := gox.TypeCheck(fset, pkgs, out); e != "" {
		return core.Failf("compile", "%s", e)
	}
	res := &core.Result{NonTrivial: len(pkgs) > 0 && len(c.Prog.Decls("")) > 1, Sample: c.Prog.Text()}
	return res
}

// validGo tells whether the program is a valid schema with a Go package in every file (shrinking may lose that).
func validGo(p *schema.Program) bool {
	all := map[int]bool{}
	for i, f := range p.Files {
		all[i] = true
		if f.Pkg("go") == "" {
			return false
		}
	}
	return len(p.Validate(all)) == 0 && p.ValidVerify() && p.ValidBind() && p.ValidDB()
}
