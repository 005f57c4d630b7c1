package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// C02: generating any schema for any target ends without crash or hang.
func init() {
	core.Register(&core.Check{
		ID:    "C02",
		Rule:  "the schema parses and at least one target is generated, or a build is rejected with a located error; distinct programs",
		Quick: 30000, Thorough: 900000, Batch: 20, Timeout: 60 * time.Second,
		Gen:         genC02,
		Eval1:       evalC02,
		Assumptions: []string{"the isolated worker gives one build of up to 4 small files at least 20 s and 3 GB; the usual time is below 5 ms"},
	})
}

// ladder is a program of many levels, where every level has several ways to the one below.
func ladder(r *schema.R) *schema.Program {
	p := &schema.Program{Pattern: "*"}
	depth, wide := r.Range(24, 60), r.Range(2, 3)
	perFile := schema.Pick(r, []int{1000, 1000, 5, 2})
	var f *schema.File
	kinds := schema.Pick(r, [][]string{{schema.Data}, {schema.Server}, {schema.Data, schema.Server}})
	for i := 0; i < depth; i++ {
		if i%perFile == 0 {
			f = &schema.File{Path: fmt.Sprintf("f%d.hbuf", len(p.Files)), Pkgs: []schema.Pkg{{Lang: "go", Value: "a"}, {Lang: "java", Value: "a"}}}
			for k := len(p.Files) - 1; k >= 0 && (i == 0 || perFile < 1000); k-- { // only what is imported directly is visible
				f.Imports = append(f.Imports, p.Files[k].Path)
				if k < len(p.Files)-3 && k > 0 {
					k = 1
				}
			}
			p.Files = append(p.Files, f)
		}
		for w := 0; w < wide; w++ {
			for _, k := range kinds {
				d := &schema.Decl{Kind: k, Name: fmt.Sprintf("%s_l%d_%d", k[:1], i, w)}
				for q := 0; i > 0 && q < wide; q++ {
					if q < 2 || r.P(60) {
						d.Parents = append(d.Parents, schema.Parent{Name: fmt.Sprintf("%s_l%d_%d", k[:1], i-1, q), ID: fmt.Sprint(q + 1)})
					}
				}
				if k == schema.Data && (i == 0 || r.P(50)) {
					d.Fields = append(d.Fields, &schema.Field{Name: fmt.Sprintf("x%d_%d", i, w), ID: "1", Type: schema.Type{Name: "int32"}})
				}
				if k == schema.Server && (i == 0 || r.P(50)) {
					d.Methods = append(d.Methods, &schema.Method{Name: fmt.Sprintf("m%d_%d", i, w), ID: "1", Param: "req", Result: "req", ParamName: "q"})
				}
				f.Decls = append(f.Decls, d)
			}
		}
	}
	p.Files[0].Decls = append(p.Files[0].Decls, &schema.Decl{Kind: schema.Data, Name: "req"})
	return p
}

func genC02(r *schema.R, idx int) *core.Case {
	if idx%100 == 7 {
		return &core.Case{Prog: ladder(r), Args: map[string]string{"pack": "m/"}}
	}
	cfg := semCfg
	cfg.MaxFiles = 3
	p := schema.Generate(r, cfg)
	if r.P(10) {
		schema.Inject(r, p, schema.Pick(r, schema.FaultKinds))
	}
	if r.P(80) {
		schema.Wild(r, p, schema.Pick(r, []int{15, 40, 70}))
	}
	if r.P(35) {
		schema.OddNames(r, p, 1+r.Geo(4))
	}
	if r.P(25) {
		for n := 1 + r.Geo(2); n > 0; n-- {
			schema.Break(r, p)
		}
	}
	for _, f := range p.Files { // the java and go outputs depend on a package
		for i := range f.Pkgs {
			if r.P(10) {
				f.Pkgs[i].Value = schema.Pick(r, []string{"a.b.c", "A", "x_y", "", "class", "a.", ".a"})
			}
		}
	}
	return &core.Case{Prog: p, Args: map[string]string{"pack": schema.Pick(r, []string{"m/", "m", "", "example.com/x/y/", "/"})}}
}

func evalC02(c *core.Case) *core.Result {
	res := &core.Result{}
	p := c.Prog
	dir := scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "a", "b", "src")
	writeSources(src, p)
	ok := 0
	for _, typ := range targets {
		out := filepath.Join(dir, "a", "b", "out", typ)
		err, _ := buildQuiet(out, filepath.Join(src, pattern(p)), typ, c.Args["pack"])
		if err != nil {
			if strings.TrimSpace(err.Error()) == "" {
				return core.Failf("silent", "%s: the build fails without a message", typ)
			}
			res.Labels = append(res.Labels, typ+"-rejected")
			if os.Getenv("HV_WHY") != "" {
				f, _ := os.OpenFile(os.Getenv("HV_WHY"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
				fmt.Fprintln(f, typ, strings.ReplaceAll(err.Error(), dir, ""))
				f.Close()
			}
			res.NonTrivial = true
			continue
		}
		ok++
		odd := false
		for _, f := range p.Files {
			if g := f.Pkg("go"); strings.ContainsAny(g, "./") || g == "" {
				odd = true
			}
		}
		must, _ := expectedOutputs(p, p.ReadFiles(matcher(pattern(p))), typ)
		if !odd || typ != "go" {
			for k := range must {
				if _, e := os.Stat(filepath.Join(out, filepath.FromSlash(k))); e != nil {
					return core.Failf("missing", "%s: the build reports success without writing %s", typ, k)
				}
			}
		}
		res.NonTrivial = true
	}
	res.Labels = append(res.Labels, fmt.Sprintf("targets-ok-%d", ok))
	if res.NonTrivial {
		t := p.Text()
		res.Sample = t[:min(600, len(t))]
	}
	return res
}
