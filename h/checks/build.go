package checks

import (
	"fmt"
	"hbuf/pkg/build"
	"hbuf/pkg/dart"
	"hbuf/pkg/golang"
	"hbuf/pkg/java"
	ts "hbuf/pkg/typescript"
	"hv/schema"
	"io/fs"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

var targets = []string{"go", "ts", "dart", "java"}

func init() {
	build.AddBuildType("dart", dart.Build)
	build.AddBuildType("go", golang.Build)
	build.AddBuildType("java", java.Build)
	build.AddBuildType("ts", ts.Build)
}

// scratch makes a directory below the run's temporary directory.
func scratch() string {
	d, err := os.MkdirTemp("", "case")
	if err != nil {
		panic("scratch: " + err.Error())
	}
	d, err = filepath.EvalSymlinks(d)
	if err != nil {
		panic("scratch: " + err.Error())
	}
	return d
}

// writeSources writes the program's files below dir; the marks of each file are returned.
func writeSources(dir string, p *schema.Program) []map[string][2]int {
	var marks []map[string][2]int
	for i, f := range p.Files {
		t, m := f.Render(p.FileSeed(i))
		t = strings.ReplaceAll(t, schema.Root, filepath.ToSlash(dir)+"/")
		writeFile(filepath.Join(dir, filepath.FromSlash(f.Path)), t)
		marks = append(marks, m)
	}
	return marks
}

func writeFile(path, text string) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		panic("scratch: " + err.Error())
	}
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic("scratch: " + err.Error())
	}
}

func pattern(p *schema.Program) string {
	if p.Pattern == "" {
		return "*.hbuf"
	}
	return p.Pattern
}

// matcher says which base names the pattern's last component selects: * is any text, everything else is literal.
func matcher(pat string) func(string) bool {
	parts := strings.Split(filepath.Base(pat), "*")
	for i := range parts {
		parts[i] = regexp.QuoteMeta(parts[i])
	}
	re := regexp.MustCompile("(?s)^" + strings.Join(parts, ".*") + "$")
	return re.MatchString
}

func buildQuiet(out, in, typ, pack string) (err error, printed string) {
	printed = captureStdout(func() { err = build.Build(out, in, typ, pack) })
	return
}

type stamp struct {
	text string
	mod  int64
	dir  bool
}

// tree reads all files and directories below dir.
func tree(dir string) map[string]stamp {
	out := map[string]stamp{}
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		st := stamp{dir: d.IsDir()}
		if i, err := d.Info(); err == nil && !d.IsDir() {
			st.mod = i.ModTime().UnixNano()
			b, _ := os.ReadFile(p)
			st.text = string(b)
		}
		out[filepath.ToSlash(rel)] = st
		return nil
	})
	return out
}

func filesOf(t map[string]stamp) []string {
	var out []string
	for k, s := range t {
		if !s.dir {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// treeDiff describes the first difference of two trees ("" if none).
func treeDiff(a, b map[string]stamp, mod bool) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		x, ok1 := a[k]
		y, ok2 := b[k]
		switch {
		case !ok1:
			return "new " + k
		case !ok2:
			return "missing " + k
		case x.text != y.text:
			return fmt.Sprintf("%s differs: %s", k, firstDiff(x.text, y.text))
		case mod && x.mod != y.mod:
			return k + " was written again"
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d: %q / %q", i+1, x, y)
		}
	}
	return "same lines"
}

// semCfg: programs that pass the checks, with every front-end feature (the generated code need not be compiled).
var semCfg = schema.Cfg{MinFiles: 1, MaxFiles: 4, MaxEnums: 3, MinEnums: 0, MaxDatas: 5, MinDatas: 1, MaxServers: 3, MaxFields: 5, MaxItems: 4, MaxMethods: 4, ParentPct: 45, MaxParents: 3,
	MapKeys: schema.AllKeys, EnumKeys: true, Shapes: true, DataRefs: true, EnumRefs: true, DocPct: 15, MultiDoc: true, GoPkgs: "one", Pkgs: []string{"java"}, HexPct: 15, RPCTags: true, BigIDs: true, Void: true, Diamonds: true, Override: true, Dirs: true}

func genSem(r *schema.R) *schema.Program {
	p := schema.Generate(r, semCfg)
	p.Layout = r.U64()
	if r.P(20) {
		p.Layout = 0
	}
	if r.P(50) {
		schema.DecorateRefs(r, p, 30)
	}
	// imports in either direction and of the file itself
	for n := r.Geo(3); n > 0; n-- {
		a, b := schema.Pick(r, p.Files), schema.Pick(r, p.Files)
		p.AddImport(a, b)
	}
	// some files are left out of what is read
	if r.P(25) && len(p.Files) > 1 {
		f := schema.Pick(r, p.Files)
		p.Pattern = filepath.Base(f.Path)
		if r.P(40) {
			p.Pattern = p.Pattern[:2] + "*.hbuf"
		}
	}
	return p
}
