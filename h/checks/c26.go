package checks

import (
	"bytes"
	"context"
	"fmt"
	"hv/core"
	"hv/schema"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// C26: the command line reports failure and success faithfully.
func init() {
	core.Register(&core.Check{
		ID:    "C26",
		Rule:  "the command was run with arguments that select a build (its output and status compared with the library's) or with a fault in options, paths or schemas (message and nonzero status); distinct programs and argument lists",
		Quick: 3000, Thorough: 150000, Batch: 20,
		Setup: setupCLI,
		Gen:   genC26,
		Eval1: evalC26,
		Assumptions: []string{
			"the help options (-h, -help) and -v are not judged beyond writing nothing",
			"files that cannot be read are modelled by missing files and directories and links that lead nowhere, because the check may run as a user who can read everything; files that cannot be written by a device that is full",
			"where a schema has several faults the command and the library may report different ones of them",
		},
	})
}

func cliPath() string { return filepath.Join(os.Getenv("HV_TMP"), "hbuf-cli") }

// setupCLI builds the command from the tree under test.
func setupCLI() error {
	cmd := exec.Command("go", "build", "-o", cliPath(), "hbuf/cmd")
	cmd.Dir = filepath.Join(os.Getenv("HV_TMP"), "src")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("go build hbuf/cmd: %v\n%s", err, b)
	}
	return nil
}

// Arguments are operations {flag, val, form}; in values T is the case's directory. Forms: "-", "--", "=", "--=" and "pos"
// for a bare word.
func genC26(r *schema.R, idx int) *core.Case {
	p := genSem(r)
	c := &core.Case{Prog: p, Args: map[string]string{}}
	if r.P(25) {
		schema.Inject(r, p, schema.Pick(r, schema.FaultKinds))
	}
	typ := schema.Pick(r, targets)
	in := "T/src/" + pattern(p)
	out := "T/out"
	pack := schema.Pick(r, []string{"m/", "gen/x/", "", "a b/"})
	rel := func(s string) string {
		if r.P(30) {
			return strings.Replace(s, "T/", schema.Pick(r, []string{"", "./", "src/../"}), 1)
		}
		return s
	}
	fault := ""
	if r.P(40) {
		fault = schema.Pick(r, []string{"no-o", "no-i", "no-t", "empty-o", "empty-i", "empty-t", "type", "type", "flag", "flag", "missing", "missing", "nodir", "nomatch", "blocked", "blocked", "blockfile", "blockfile", "full", "full", "unreadable", "unreadable", "positional", "novalue", "version", "help", "dup"})
	}
	switch fault {
	case "empty-o":
		out = ""
	case "empty-i":
		in = ""
	case "empty-t":
		typ = ""
	case "type":
		typ = schema.Pick(r, []string{"golang", "GO", "Go", "typescript", "js", "javascript", " go", "go ", "c", "all", "*", "ts,go", "Java"})
	case "missing":
		in = "T/src/missing.hbuf"
	case "nodir":
		in = "T/nodir/*.hbuf"
	case "nomatch":
		in = "T/src/*.hbuff"
	case "blocked":
		out = schema.Pick(r, []string{"T/my-file", "T/my-file/sub"})
	case "blockfile":
		c.Args["blockfile"] = fmt.Sprint(r.Int(20))
	}
	if fault == "full" || fault == "unreadable" {
		c.Args[fault] = fmt.Sprint(r.Int(20))
	}
	if fault == "" && r.P(30) {
		out = "T/new/deep/out"
	}
	type arg struct{ flag, val string }
	var as []arg
	if fault != "no-o" {
		as = append(as, arg{"o", rel(out)})
	}
	if fault != "no-i" {
		as = append(as, arg{"i", rel(in)})
	}
	if fault != "no-t" {
		as = append(as, arg{"t", typ})
	}
	if pack != "" || r.Bool() {
		as = append(as, arg{"p", pack})
	}
	if fault == "dup" {
		as = append(as, schema.Pick(r, []arg{{"t", schema.Pick(r, targets)}, {"o", "T/out2"}, {"p", "q/"}}))
	}
	for _, i := range r.Perm(len(as)) {
		f := schema.Pick(r, []string{"-", "-", "-", "--", "=", "--="})
		c.Ops = append(c.Ops, core.Op{Op: "arg", Args: map[string]string{"flag": as[i].flag, "val": as[i].val, "form": f}})
	}
	at := func(o core.Op) {
		n := r.Int(len(c.Ops) + 1)
		c.Ops = append(c.Ops[:n:n], append([]core.Op{o}, c.Ops[n:]...)...)
	}
	switch fault {
	case "flag":
		at(core.Op{Op: "arg", Args: map[string]string{"flag": schema.Pick(r, []string{"x", "out", "type", "O", "input", "-o"}), "val": "v", "form": schema.Pick(r, []string{"-", "--", "=", "flag"})}})
	case "positional":
		at(core.Op{Op: "arg", Args: map[string]string{"val": schema.Pick(r, []string{"extra", "--", "-", "go"}), "form": "pos"}})
	case "novalue":
		c.Ops = append(c.Ops, core.Op{Op: "arg", Args: map[string]string{"flag": schema.Pick(r, []string{"o", "t", "i", "p"}), "form": "flag"}})
	case "version":
		at(core.Op{Op: "arg", Args: map[string]string{"flag": "v", "form": "flag"}})
	case "help":
		at(core.Op{Op: "arg", Args: map[string]string{"flag": schema.Pick(r, []string{"h", "help"}), "form": "flag"}})
	}
	if r.P(3) {
		c.Ops = nil
	}
	return c
}

func argv(ops []core.Op) (o []string) {
	for _, x := range ops {
		f, v := x.Args["flag"], x.Args["val"]
		switch x.Args["form"] {
		case "-", "--":
			o = append(o, x.Args["form"]+f, v)
		case "=":
			o = append(o, "-"+f+"="+v)
		case "--=":
			o = append(o, "--"+f+"="+v)
		case "flag":
			o = append(o, "-"+f)
		case "pos":
			o = append(o, v)
		}
	}
	return
}

// parseArgs is what an argument list means: the options, or that it is faulty, or that it asks for something else.
func parseArgs(as []string) (opt map[string]string, bad string, other bool) {
	opt = map[string]string{}
	for len(as) > 0 {
		a := as[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		as = as[1:]
		n := a[1:]
		if n[0] == '-' {
			n = n[1:]
			if n == "" {
				break
			}
		}
		if n == "" || n[0] == '-' || n[0] == '=' {
			return nil, "bad option " + a, false
		}
		v, hasV := "", false
		if i := strings.IndexByte(n, '='); i > 0 {
			n, v, hasV = n[:i], n[i+1:], true
		}
		switch n {
		case "h", "help":
			return nil, "", true
		case "v":
			if hasV {
				return nil, "", true
			}
			opt["v"] = "true"
			continue
		case "o", "i", "t", "p":
		default:
			return nil, "unknown option " + a, false
		}
		if !hasV {
			if len(as) == 0 {
				return nil, "no value of " + a, false
			}
			v, as = as[0], as[1:]
		}
		opt[n] = v
	}
	if opt["v"] != "" {
		return nil, "", true
	}
	for _, k := range []string{"o", "i", "t"} {
		if opt[k] == "" {
			return nil, "option -" + k + " is missing", false
		}
	}
	if !has(targets, opt["t"]) {
		return nil, "unknown type " + opt["t"], false
	}
	return opt, "", false
}

func evalC26(c *core.Case) *core.Result {
	p := c.Prog
	res := &core.Result{NonTrivial: true}
	matched := func(pat string) bool { // a file whose name the pattern selects
		m := matcher(pat)
		for _, f := range p.Files {
			if m(filepath.Base(f.Path)) {
				return true
			}
		}
		return false
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	in := func(root, s string) string { return strings.ReplaceAll(s, "T/", root+"/") }
	abs := func(root, s string) string {
		s = in(root, s)
		if !filepath.IsAbs(s) {
			s = filepath.Join(root, s)
		}
		return s
	}
	roots := []string{filepath.Join(dir, "cli"), filepath.Join(dir, "lib"), filepath.Join(dir, "ref")}
	as := argv(c.Ops)
	opt, bad, other := parseArgs(as)
	for _, k := range []string{"o", "i"} {
		if strings.Index(opt[k], "T/") > 0 {
			return &core.Result{Labels: []string{"outside the domain"}}
		}
	}
	for _, root := range roots {
		writeSources(filepath.Join(root, "src"), p)
		writeFile(filepath.Join(root, "my-file"), "mine\n")
	}
	var faults []schema.Fault
	blocked, full := "", false
	if opt != nil {
		if !matched(filepath.Base(opt["i"])) || !strings.Contains(opt["i"], "src/") || strings.Contains(opt["i"], "nodir") {
			bad = "no input file"
		}
	}
	if n := c.Args["unreadable"]; n != "" && opt != nil && bad == "" {
		var k int
		fmt.Sscan(n, &k)
		var names []string
		for i := range p.ReadFiles(matcher(filepath.Base(opt["i"]))) {
			names = append(names, p.Files[i].Path)
		}
		sort.Strings(names)
		name := names[k%len(names)]
		for _, root := range roots[:2] { // a link that leads nowhere, or to itself
			at := filepath.Join(root, "src", name)
			os.Remove(at)
			if err := os.Symlink([]string{"nowhere", filepath.Base(name)}[k%2], at); err != nil {
				return &core.Result{Infra: err.Error()}
			}
		}
		bad = "unreadable file " + name
	}
	if opt != nil && bad == "" {
		faults = p.Validate(p.ReadFiles(matcher(filepath.Base(opt["i"]))))
		if len(faults) == 0 && p.Ambiguous() {
			return &core.Result{Labels: []string{"outside the domain"}}
		}
		if len(faults) > 0 {
			bad = fmt.Sprint("invalid schema ", faults)
		} else {
			// what a build into a fresh directory writes
			free := filepath.Join(roots[2], "fresh")
			if err, _ := buildQuiet(free, abs(roots[2], opt["i"]), opt["t"], opt["p"]); err != nil {
				return core.Failf("library", "a valid program is rejected: %v", err)
			}
			fs := filesOf(tree(free))
			o := abs(roots[0], opt["o"])
			if rel, _ := filepath.Rel(roots[0], o); rel == "my-file" || strings.HasPrefix(rel, "my-file/") {
				if len(fs) == 0 { // whether the directory is needed then is open
					return &core.Result{Labels: []string{"outside the domain"}}
				}
				bad = "the output directory is a file"
			}
			if n := c.Args["blockfile"]; n != "" && len(fs) > 0 && bad == "" {
				var k int
				fmt.Sscan(n, &k)
				blocked = fs[k%len(fs)]
				for _, root := range roots[:2] {
					if err := os.MkdirAll(filepath.Join(abs(root, opt["o"]), blocked, "x"), 0o755); err != nil {
						return &core.Result{Infra: err.Error()}
					}
				}
				bad = "a directory lies where " + blocked + " goes"
			}
			if n := c.Args["full"]; n != "" && len(fs) > 0 && bad == "" {
				var k int
				fmt.Sscan(n, &k)
				blocked = fs[k%len(fs)]
				full = true
				bad = "no space is left for " + blocked
			}
		}
	}
	var args []string
	for _, a := range as {
		args = append(args, in(roots[0], a))
	}
	before := tree(roots[0])
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	if full { // every write to this file fails
		link := filepath.Join(abs(roots[0], opt["o"]), blocked)
		defer os.Remove(link)
		if err := os.MkdirAll(filepath.Dir(link), 0o755); err != nil {
			return &core.Result{Infra: err.Error()}
		}
		if err := os.Symlink("/dev/full", link); err != nil {
			return &core.Result{Infra: err.Error()}
		}
	}
	cmd := exec.CommandContext(ctx, cliPath(), args...)
	cmd.Dir = roots[0]
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	if ctx.Err() != nil {
		return core.Failf("hang", "hbuf %q does not end", as)
	}
	code := cmd.ProcessState.ExitCode()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		return &core.Result{Infra: err.Error()}
	}
	if full {
		os.Remove(filepath.Join(abs(roots[0], opt["o"]), blocked))
	}
	after := tree(roots[0])
	said := strings.TrimSpace(so.String() + se.String())
	at := fmt.Sprintf("hbuf %q: status %d, printed %q", as, code, core.Head(said, 300))
	if code < 0 || strings.Contains(said, "goroutine ") {
		return core.Failf("crash", "%s", at)
	}
	res.Sample = at
	if other {
		res.Labels = append(res.Labels, "help or version")
		if d := treeDiff(before, after, true); d != "" {
			return core.Failf("writes", "%s; nothing is to be built, but %s", at, d)
		}
		return res
	}
	if opt == nil || bad != "" {
		res.Labels = append(res.Labels, strings.SplitN(bad, " ", 3)[0]+" "+strings.SplitN(bad+" ", " ", 3)[1])
		if code == 0 {
			return core.Failf("status", "%s, though %s", at, bad)
		}
		if said == "" {
			return core.Failf("silent", "%s, though %s", at, bad)
		}
		if d := treeDiff(before, after, true); d != "" && blocked == "" {
			return core.Failf("writes", "%s, though %s: %s", at, bad, d)
		}
		if opt != nil && blocked == "" { // the library's own message
			lerr, _ := buildQuiet(abs(roots[1], opt["o"]), abs(roots[1], opt["i"]), opt["t"], opt["p"])
			if lerr == nil {
				return core.Failf("library", "the library builds it, though %s", bad)
			}
			if len(faults) > 0 && !strings.Contains(said, ".hbuf:") {
				return core.Failf("message", "%s; the library says %q", at, lerr)
			}
		}
		return res
	}
	res.Labels = append(res.Labels, "built "+opt["t"])
	lout := abs(roots[1], opt["o"])
	lerr, _ := buildQuiet(lout, abs(roots[1], opt["i"]), opt["t"], opt["p"])
	if lerr != nil {
		return core.Failf("library", "a valid program is rejected: %v", lerr)
	}
	if code != 0 {
		return core.Failf("status", "%s, though the library builds it", at)
	}
	if d := treeDiff(tree(roots[1]), after, false); d != "" {
		return core.Failf("output", "%s; compared with the library's output: %s", at, d)
	}
	return res
}
