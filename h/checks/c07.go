package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"os"
	"os/exec"
	"path/filepath"
)

// C07: output is a function of the schema: deterministic and idempotent.
func init() {
	core.Register(&core.Check{
		ID:    "C07",
		Rule:  "at least one output file is written for every target and the program has several declarations; distinct programs",
		Quick: 8000, Thorough: 200000, Batch: 10,
		Gen:         genC07,
		Eval1:       evalC07,
		Assumptions: []string{"a fresh build and the rebuild of the edited sources are compared when both succeed"},
	})
	core.Commands["build4"] = func(args []string) int { // a build in a process of its own
		for _, typ := range targets {
			if err, _ := buildQuiet(filepath.Join(args[0], typ), args[1], typ, args[2]); err != nil {
				os.WriteFile(filepath.Join(args[0], typ+".err"), []byte("x"), 0o644)
			}
		}
		return 0
	}
}

func genC07(r *schema.R, idx int) *core.Case {
	cfg := semCfg
	cfg.GoPkgs = schema.Pick(r, []string{"one", "each"})
	p := schema.Generate(r, cfg)
	p.Layout = r.U64()
	if r.P(85) {
		schema.Wild(r, p, schema.Pick(r, []int{10, 30, 60}))
	}
	return &core.Case{Prog: p, Seed: r.U64(), Args: map[string]string{"pack": "m/"}}
}

func evalC07(c *core.Case) *core.Result {
	res := &core.Result{}
	p := c.Prog
	dir := scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	writeSources(src, p)
	in := filepath.Join(src, pattern(p))
	pack := c.Args["pack"]
	ok := map[string]bool{}
	first := map[string]map[string]stamp{}
	for _, typ := range targets {
		err, _ := buildQuiet(filepath.Join(dir, "a", typ), in, typ, pack)
		ok[typ] = err == nil
		first[typ] = tree(filepath.Join(dir, "a", typ))
	}
	same := func(what, sub string, typ string, want map[string]stamp) *core.Result {
		if d := treeDiff(want, tree(filepath.Join(dir, sub, typ)), false); d != "" {
			return core.Failf("differs", "%s: %s gives a different output: %s", typ, what, d)
		}
		return nil
	}
	if err := os.Mkdir(filepath.Join(dir, "p"), 0o755); err != nil {
		return &core.Result{Infra: err.Error()}
	}
	if b, err := exec.Command("/proc/self/exe", "build4", filepath.Join(dir, "p"), in, pack).CombinedOutput(); err != nil {
		return &core.Result{Infra: err.Error() + string(b)}
	}
	for n := 0; n < 2; n++ {
		for _, typ := range targets {
			if !ok[typ] {
				continue
			}
			b := fmt.Sprintf("b%d", n)
			err, _ := buildQuiet(filepath.Join(dir, b, typ), in, typ, pack)
			if err != nil {
				return core.Failf("verdict", "%s: the second build fails: %v", typ, err)
			}
			if r := same("the same build in another directory", b, typ, first[typ]); r != nil {
				return r
			}
		}
	}
	// in a new process
	for _, typ := range targets {
		if !ok[typ] {
			continue
		}
		if r := same("a build in a new process", "p", typ, first[typ]); r != nil {
			return r
		}
	}
	// over the earlier output
	for _, typ := range targets {
		if !ok[typ] {
			continue
		}
		if err, _ := buildQuiet(filepath.Join(dir, "a", typ), in, typ, pack); err != nil {
			return core.Failf("verdict", "%s: the build over an earlier output fails: %v", typ, err)
		}
		if r := same("a build over the earlier output", "a", typ, first[typ]); r != nil {
			return r
		}
	}
	// edits
	r := schema.NewR(c.Seed, "edit", 0)
	q := p.Clone()
	for step := 0; step < 2; step++ {
		for n := 1 + r.Geo(3); n > 0; n-- {
			res.Labels = append(res.Labels, "edit-"+schema.Edit(r, q))
		}
		writeSources(src, q)
		for _, typ := range targets {
			if !ok[typ] {
				continue
			}
			fresh := filepath.Join(dir, "f", fmt.Sprint(step), typ)
			e1, _ := buildQuiet(fresh, in, typ, pack)
			e2, _ := buildQuiet(filepath.Join(dir, "a", typ), in, typ, pack)
			if (e1 == nil) != (e2 == nil) {
				return core.Failf("verdict", "%s: after an edit a fresh build gives %v, a rebuild %v", typ, e1, e2)
			}
			if e1 != nil {
				res.Labels = append(res.Labels, "edit-rejected")
				continue
			}
			f, a := tree(fresh), tree(filepath.Join(dir, "a", typ))
			for k := range a {
				if _, ok := f[k]; !ok {
					delete(a, k)
				}
			}
			if d := treeDiff(f, a, false); d != "" {
				return core.Failf("stale", "%s: after an edit the rebuilt output differs from a fresh build: %s\nedited sources:\n%s", typ, d, q.Text())
			}
		}
	}
	n, files := 0, 0
	for _, typ := range targets {
		if ok[typ] {
			n++
			files += len(filesOf(first[typ]))
		}
	}
	res.Labels = append(res.Labels, fmt.Sprintf("targets-%d", n))
	if n == len(targets) && files > 0 && len(p.Decls("")) > 1 {
		res.NonTrivial = true
		t := p.Text()
		res.Sample = fmt.Sprintf("%d output files\n%s", files, t[:min(500, len(t))])
	}
	return res
}
