package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

// C08: imports resolve exactly; each schema file yields exactly its outputs.
func init() {
	core.Register(&core.Check{
		ID:    "C08",
		Rule:  "at least two files, or an input path that is not absolute, and a build that is accepted or rejected as the validity rules say; distinct programs",
		Quick: 9000, Thorough: 250000, Batch: 30,
		Gen:   genC08,
		Eval1: evalC08,
		Assumptions: []string{"two schema files of the same name in different directories are left out (see known findings)",
			"which declaration a name means when two imported files declare it is not specified and not judged"},
	})
}

func genC08(r *schema.R, idx int) *core.Case {
	cfg := semCfg
	cfg.MaxFiles = 7
	cfg.MaxFields, cfg.MaxMethods, cfg.MaxItems = 3, 2, 2
	cfg.MaxDatas = 7
	cfg.GoPkgs = schema.Pick(r, []string{"one", "each", "one", ""})
	if r.P(30) {
		cfg.Pkgs = nil
	}
	p := schema.Generate(r, cfg)
	c := &core.Case{Prog: p, Seed: r.U64(), Args: map[string]string{}}
	for _, f := range p.Files { // a file may lack a package
		if r.P(15) {
			f.Pkgs = nil
		}
		for i := range f.Pkgs {
			if f.Pkgs[i].Lang == "go" && r.P(15) {
				f.Pkgs[i].Value = "outer." + f.Pkgs[i].Value
			}
		}
	}
	for n := r.Geo(8); n > 0; n-- { // any import graph
		p.AddImport(schema.Pick(r, p.Files), schema.Pick(r, p.Files))
	}
	if r.P(20) {
		schema.Inject(r, p, schema.Pick(r, []string{"two-hops", "two-hops", "two-hops-parent", "missing-import", "dup-decl-import"}))
	}
	// file names
	for _, f := range p.Files {
		if !r.P(20) {
			continue
		}
		b := f.Base()
		nb := schema.Pick(r, []string{b + ".v2", b + "-x", b + "_", strings.ToUpper(b)})
		old, q := f.Path, path.Join(path.Dir(f.Path), nb+".hbuf")
		clash := false
		for _, g := range p.Files {
			if schema.Norm(g.Base()) == schema.Norm(nb) && g != f {
				clash = true
			}
		}
		if clash {
			continue
		}
		for _, g := range p.Files {
			for i, im := range g.Imports {
				if path.Join(path.Dir(g.Path), im) == path.Clean(old) {
					g.Imports[i] = path.Join(path.Dir(im), nb+".hbuf")
				}
			}
		}
		f.Path = q
	}
	// spellings of imports
	for i, f := range p.Files {
		for k, im := range f.Imports {
			t := p.ImportTarget(i, k)
			if t < 0 || !r.P(35) {
				continue
			}
			switch r.Int(4) {
			case 0:
				im = "./" + im
			case 1:
				im = "zz/../" + im
			case 2:
				im = strings.Replace(im, "/", "//", 1)
			case 3:
				im = schema.Root + p.Files[t].Path
			}
			f.Imports[k] = im
		}
		if r.P(15) && len(f.Imports) > 0 { // the same file twice
			f.Imports = append(f.Imports, schema.Pick(r, f.Imports))
		}
	}
	switch f := schema.Pick(r, p.Files); r.Int(6) {
	case 0, 1:
		p.Pattern = path.Base(f.Path)
	case 2:
		b := path.Base(f.Path)
		p.Pattern = b[:1+r.Int(3)] + "*.hbuf"
	case 3:
		b := f.Base()
		p.Pattern = "*" + b[len(b)-1-r.Int(2):] + ".hbuf"
	case 4:
		b := f.Base()
		p.Pattern = b[:1] + "*" + b[len(b)-1:] + ".h*f"
	}
	c.Args["in"] = schema.Pick(r, []string{"abs", "abs", "rel", "dot", "parent", "messy", "messyabs"})
	c.Args["cwd"] = schema.Pick(r, []string{"src", "top", "sub", "else"})
	c.Args["out"] = schema.Pick(r, []string{"abs", "rel", "new", "slash", "insrc"})
	c.Args["typ"] = schema.Pick(r, targets)
	if r.P(50) { // things that must not be read
		c.Args["junk"] = "1"
	}
	return c
}

func evalC08(c *core.Case) *core.Result {
	p := c.Prog
	res := &core.Result{}
	if p.Ambiguous() {
		return res
	}
	seen := map[string]bool{}
	for _, f := range p.Files {
		k := schema.Hump(f.Base()) // Java files are named so
		if seen[k] {
			if c.Args["collide"] == "" {
				return res
			}
		}
		seen[k] = true
	}
	pat := pattern(p)
	match := matcher(pat)
	read := p.ReadFiles(match)
	faults := p.Validate(read)

	dir := scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	os.MkdirAll(filepath.Join(src, "sub"), 0o755)
	os.MkdirAll(filepath.Join(dir, "else"), 0o755)
	writeSources(src, p)
	if c.Args["junk"] != "" {
		stem := strings.TrimSuffix(strings.ReplaceAll(pat, "*", "q"), ".hbuf")
		for _, n := range []string{stem + ".hbuf.bak", stem + "xhbuf", stem + ".hbu", "n.txt", ".hidden"} {
			if !match(n) {
				writeFile(filepath.Join(src, n), "not a schema {")
			}
		}
		if x := "x" + pat; !strings.Contains(pat, "*") && !match(x) {
			writeFile(filepath.Join(src, "sub", x), "not a schema {")
		}
		os.MkdirAll(filepath.Join(src, "dir"+strings.ReplaceAll(pat, "*", "q")), 0o755)
		if strings.Contains(pat, "*") {
			os.MkdirAll(filepath.Join(src, strings.ReplaceAll(pat, "*", "qd")), 0o755)
		}
	}
	cwd := map[string]string{"src": src, "top": dir, "sub": filepath.Join(src, "sub"), "else": filepath.Join(dir, "else")}[c.Args["cwd"]]
	rel, _ := filepath.Rel(cwd, src)
	in := filepath.Join(src, pat)
	switch c.Args["in"] {
	case "rel":
		in = filepath.Join(rel, pat)
	case "dot":
		in = "." + string(filepath.Separator) + filepath.Join(rel, pat)
	case "parent":
		in = filepath.Join(rel, pat)
		in = "../" + filepath.Base(cwd) + "/" + in
	case "messy":
		in = rel + "//./" + pat
	case "messyabs":
		in = dir + "/else/..//src/./" + pat
	}
	out := filepath.Join(dir, "out")
	outArg := out
	switch c.Args["out"] {
	case "rel":
		outArg, _ = filepath.Rel(cwd, out)
	case "new":
		out = filepath.Join(dir, "out", "a", "b")
		outArg = out
	case "slash":
		outArg = out + "/"
	case "insrc":
		out = filepath.Join(src, "generated")
		outArg = out
	}
	before := tree(dir)
	back, err := os.Getwd()
	if err != nil {
		back = "/"
	}
	if err := os.Chdir(cwd); err != nil {
		return &core.Result{Infra: err.Error()}
	}
	typ := c.Args["typ"]
	w := watch(src)
	berr, _ := buildQuiet(outArg, in, typ, "m/")
	var counts map[string]int
	if w != nil {
		counts = w.counts()
		res.Labels = append(res.Labels, "watched")
	}
	os.Chdir(back)
	after := tree(dir)
	if len(p.ReadFiles(matcher(pat))) == 0 { // C26 judges an input that matches nothing; here it only must not write
		if d := treeDiff(before, after, true); d != "" {
			return core.Failf("written", "%s: no file matches, but %s", typ, d)
		}
		res.Labels = append(res.Labels, "no match")
		return res
	}
	if (berr != nil) != (len(faults) > 0) {
		return core.Failf("verdict", "%s: error %v, faults %v; in=%s cwd=%s", typ, berr, faults, strings.ReplaceAll(in, dir, ""), c.Args["cwd"])
	}
	relOut, _ := filepath.Rel(dir, out)
	relOut = filepath.ToSlash(relOut)
	for k, s := range before {
		if a, ok := after[k]; !ok || a != s {
			return core.Failf("foreign", "%s: the build changed %s", typ, k)
		}
	}
	got := map[string]bool{}
	for k, s := range after {
		if _, ok := before[k]; ok {
			continue
		}
		switch {
		case strings.HasPrefix(k, relOut+"/"):
			if !s.dir {
				got[strings.TrimPrefix(k, relOut+"/")] = true
			}
		case k == relOut || s.dir && strings.HasPrefix(relOut, k+"/"):
		default:
			return core.Failf("foreign", "%s: the build wrote %s outside the output directory %s", typ, k, relOut)
		}
	}
	if len(faults) > 0 {
		if len(got) > 0 {
			return core.Failf("written", "%s: a rejected build wrote %v", typ, got)
		}
		res.Labels = append(res.Labels, "rejected")
	} else {
		must, may := expectedOutputs(p, read, typ)
		for _, k := range sorted(must) {
			if !got[k] {
				return core.Failf("missing", "%s: %s is not written; written: %v; pattern %s", typ, k, sorted(got), pat)
			}
		}
		for i, f := range p.Files {
			if !read[i] {
				continue
			}
			one := &schema.Program{Files: []*schema.File{f}}
			m, _ := expectedOutputs(one, map[int]bool{0: true}, typ)
			for k := range m {
				b, _ := os.ReadFile(filepath.Join(out, filepath.FromSlash(k)))
				text := schema.Norm(string(b))
				for _, d := range f.Decls {
					if strings.Contains(strings.ToLower(path.Base(k)), d.Kind+".") && !strings.Contains(text, schema.Norm(d.Name)) {
						return core.Failf("content", "%s: %s does not contain %s %s of %s", typ, k, d.Kind, d.Name, f.Path)
					}
				}
			}
		}
		for _, k := range sorted(got) {
			if !must[k] && !may[k] {
				return core.Failf("extra", "%s: %s is written but no schema file read by %s yields it; expected %v", typ, k, pat, sorted(must))
			}
		}
		if counts != nil {
			for i, f := range p.Files {
				n := counts[filepath.Join(src, filepath.FromSlash(f.Path))]
				if read[i] && n != 1 || !read[i] && n != 0 {
					return core.Failf("reads", "%s: %s is read %d times (matched or imported: %v); pattern %s", typ, f.Path, n, read[i], pat)
				}
			}
		}
		if len(got) > 0 {
			res.Labels = append(res.Labels, "accepted")
		} else {
			res.Labels = append(res.Labels, "nothing-to-write")
		}
	}
	res.Labels = append(res.Labels, "files-"+fmt.Sprint(len(p.Files)), typ)
	if len(p.Files) > 1 || !filepath.IsAbs(in) {
		res.NonTrivial = true
		res.Sample = fmt.Sprintf("%s in=%s cwd=%s -> %v\n%s", typ, strings.ReplaceAll(in, dir, ""), c.Args["cwd"], sorted(got), p.Text()[:min(500, len(p.Text()))])
	}
	return res
}

func sorted(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// expectedOutputs lists the files a build must and may write. The program carries no ui, lang, db or verify annotations.
func expectedOutputs(p *schema.Program, read map[int]bool, typ string) (must, may map[string]bool) {
	must, may = map[string]bool{}, map[string]bool{}
	for i, f := range p.Files {
		if !read[i] {
			continue
		}
		has := map[string]bool{}
		for _, d := range f.Decls {
			has[d.Kind] = true
		}
		base := strings.TrimSuffix(path.Base(f.Path), ".hbuf")
		for _, k := range []string{schema.Data, schema.Enum, schema.Server} {
			switch typ {
			case "go":
				pk := f.Pkg("go")
				if pk != "" && has[k] {
					must[path.Join(strings.ReplaceAll(pk, ".", "/"), base+"."+k+".go")] = true
				}
			case "ts", "dart":
				if has[k] {
					must[base+"."+k+"."+typ] = true
				}
			case "java":
				if f.Pkg("java") != "" {
					n := schema.Hump(base) + strings.ToUpper(k[:1]) + k[1:] + ".java"
					may[n] = true
					if has[k] {
						must[n] = true
					}
				}
			}
		}
	}
	return
}
