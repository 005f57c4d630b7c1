package checks

import (
	"fmt"
	"hv/core"
	"hv/schema"
	"os"
	"path/filepath"
	"strings"
)

// C06: invalid schemas are rejected before anything is written; valid ones pass.
func init() {
	core.Register(&core.Check{
		ID:    "C06",
		Rule:  "an invalid program by the independent validity rules (build must fail and leave the output directory untouched), or a valid one with at least 3 declarations (build must succeed); each is built for all four targets",
		Quick: 25000, Thorough: 800000, Batch: 20,
		Gen: func(r *schema.R, idx int) *core.Case {
			c := &core.Case{Prog: genSem(r), Seed: r.U64(), Args: map[string]string{}}
			if r.P(25) {
				c.Kind = "valid"
			} else {
				for i := 0; i < 5; i++ {
					k := schema.Pick(r, schema.FaultKinds)
					if schema.Inject(r, c.Prog, k) {
						c.Kind = k
						break
					}
				}
			}
			if r.Bool() {
				c.Args["seeded"] = "1"
			}
			return c
		},
		Eval1: evalC06,
	})
}

func evalC06(c *core.Case) *core.Result {
	p := c.Prog
	res := &core.Result{}
	faults := p.Validate(p.ReadFiles(matcher(pattern(p))))
	if len(faults) == 0 && p.Ambiguous() {
		return res
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	writeSources(filepath.Join(dir, "src"), p)
	before := tree(filepath.Join(dir, "src"))
	nd := 0
	for _, f := range p.Files {
		nd += len(f.Decls)
	}
	for _, typ := range targets {
		out := filepath.Join(dir, "out-"+typ)
		os.MkdirAll(out, 0o755)
		if c.Args["seeded"] != "" { // something is already there
			for _, f := range p.Files {
				for _, s := range []string{".data.go", ".enum.go", ".data.ts", ".enum.ts", ".server.ts", ".data.dart", ".enum.dart"} {
					writeFile(filepath.Join(out, f.Base()+s), "old\n")
				}
				writeFile(filepath.Join(out, strings.ReplaceAll(f.Pkg("go"), ".", "/"), f.Base()+".data.go"), "old\n")
				writeFile(filepath.Join(out, "com", "gen", schema.Hump(f.Base())+"Data.java"), "old\n")
			}
			writeFile(filepath.Join(out, "README"), "mine\n")
		}
		old := tree(out)
		err, _ := buildQuiet(out, filepath.Join(dir, "src", pattern(p)), typ, "m/")
		if len(faults) == 0 {
			if err != nil {
				return core.Failf("rejected", "%s: a valid program is rejected: %v", typ, err)
			}
		} else {
			if err == nil {
				return core.Failf("accepted", "%s: a program with faults is accepted: %v", typ, faults)
			}
			if d := treeDiff(old, tree(out), true); d != "" {
				return core.Failf("written", "%s: the build fails (%v) but changes the output directory: %s", typ, err, d)
			}
		}
		if d := treeDiff(before, tree(filepath.Join(dir, "src")), true); d != "" {
			return core.Failf("sources", "%s: the build changes its sources: %s", typ, d)
		}
		res.Evals++
	}
	kinds := map[string]bool{}
	for _, f := range faults {
		kinds[strings.SplitN(f.Kind, ":", 2)[0]] = true
	}
	for k := range kinds {
		res.Labels = append(res.Labels, k)
	}
	if len(faults) == 0 {
		res.Labels = append(res.Labels, "valid")
	}
	if len(faults) > 0 || nd >= 3 {
		res.NonTrivial = true
		res.Sample = fmt.Sprintf("%v %s", faults, p.Text()[:min(700, len(p.Text()))])
	}
	return res
}
