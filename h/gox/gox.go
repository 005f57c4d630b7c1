// Package gox type-checks, compiles, links and runs generated Go code against the stand-in runtime library, with the
// installed compiler and no build cache of its own.
package gox

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Setup lists the export data of the standard packages and the runtime library once per run (in the runner process).
func Setup() error {
	tmp := os.Getenv("HV_TMP")
	cfg := filepath.Join(tmp, "importcfg")
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}",
		"./pkg/...", "./drv", "encoding/json", "context", "regexp", "unicode/utf8", "math/rand", "time", "database/sql", "runtime", "errors", "github.com/shopspring/decimal")
	cmd.Dir = filepath.Join(tmp, "src", "rt")
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v\n%s", err, eb.String())
	}
	if err := os.WriteFile(cfg, out, 0o644); err != nil {
		return err
	}
	b, err := exec.Command("go", "env", "GOTOOLDIR").Output()
	if err != nil {
		return err
	}
	os.Setenv("HV_IMPORTCFG", cfg)
	os.Setenv("HV_TOOLDIR", strings.TrimSpace(string(b)))
	return nil
}

var (
	once   sync.Once
	base   string            // text of importcfg
	export map[string]string // import path -> export file
)

func load() {
	once.Do(func() {
		export = map[string]string{}
		b, err := os.ReadFile(os.Getenv("HV_IMPORTCFG"))
		if err != nil {
			panic("gox: " + err.Error())
		}
		base = string(b)
		for _, l := range strings.Split(base, "\n") {
			l = strings.TrimPrefix(l, "packagefile ")
			if i := strings.IndexByte(l, '='); i > 0 {
				export[l[:i]] = l[i+1:]
			}
		}
	})
}

// Pkg is one directory of generated Go files.
type Pkg struct {
	Path    string // import path
	Dir     string
	Files   []string
	Imports []string
	asts    []*ast.File
}

// Load finds the packages below root; the import path of root is prefix.
func Load(root, prefix string) (fset *token.FileSet, pkgs []*Pkg, err error) {
	fset = token.NewFileSet()
	by := map[string]*Pkg{}
	if _, e := os.Stat(root); os.IsNotExist(e) {
		return
	}
	err = filepath.WalkDir(root, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		dir := filepath.Dir(p)
		k := by[dir]
		if k == nil {
			rel, _ := filepath.Rel(root, dir)
			path := prefix
			if rel != "." {
				path = prefix + "/" + filepath.ToSlash(rel)
			}
			k = &Pkg{Path: path, Dir: dir}
			by[dir] = k
			pkgs = append(pkgs, k)
		}
		k.Files = append(k.Files, p)
		return nil
	})
	if err != nil {
		return
	}
	for _, k := range pkgs {
		sort.Strings(k.Files)
		seen := map[string]bool{}
		for _, f := range k.Files {
			a, e := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution|parser.ParseComments)
			if e != nil {
				return fset, pkgs, fmt.Errorf("syntax: %v", strings.ReplaceAll(e.Error(), root+"/", ""))
			}
			k.asts = append(k.asts, a)
			for _, im := range a.Imports {
				s, _ := strconv.Unquote(im.Path.Value)
				if !seen[s] {
					seen[s] = true
					k.Imports = append(k.Imports, s)
				}
			}
		}
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].Path < pkgs[j].Path })
	// dependency order
	paths := map[string]*Pkg{}
	for _, k := range pkgs {
		paths[k.Path] = k
	}
	var out []*Pkg
	state := map[*Pkg]int{}
	var visit func(k *Pkg) error
	visit = func(k *Pkg) error {
		switch state[k] {
		case 1:
			return fmt.Errorf("import cycle through %s", k.Path)
		case 2:
			return nil
		}
		state[k] = 1
		for _, im := range k.Imports {
			if q := paths[im]; q != nil {
				if e := visit(q); e != nil {
					return e
				}
			}
		}
		state[k] = 2
		out = append(out, k)
		return nil
	}
	for _, k := range pkgs {
		if e := visit(k); e != nil {
			return fset, pkgs, e
		}
	}
	return fset, out, nil
}

// Asts are the parsed files of the package.
func (k *Pkg) Asts() []*ast.File { return k.asts }

type imp struct {
	local map[string]*types.Package
	gc    types.Importer
}

func (i *imp) Import(path string) (*types.Package, error) {
	if p := i.local[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if _, ok := export[path]; !ok {
		return nil, fmt.Errorf("package %s is not part of the runtime library", path)
	}
	return i.gc.Import(path)
}

var (
	gcOnce sync.Once
	gcImp  types.Importer
	gcMu   sync.Mutex
)

// TypeCheck checks all packages; "" when they compile. The import of every package is checked to be used.
func TypeCheck(fset *token.FileSet, pkgs []*Pkg, root string) string {
	load()
	gcMu.Lock()
	defer gcMu.Unlock()
	gcOnce.Do(func() {
		gcImp = importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
			f, ok := export[path]
			if !ok {
				return nil, fmt.Errorf("no export data of %s", path)
			}
			return os.Open(f)
		})
	})
	im := &imp{local: map[string]*types.Package{}, gc: gcImp}
	for _, k := range pkgs {
		var errs []string
		name := ""
		for i, a := range k.asts {
			if name == "" {
				name = a.Name.Name
			} else if a.Name.Name != name {
				errs = append(errs, fmt.Sprintf("%s: package %s in the directory of package %s", filepath.Base(k.Files[i]), a.Name.Name, name))
			}
		}
		conf := types.Config{Importer: im, GoVersion: "go1.21", Error: func(err error) {
			if len(errs) < 4 {
				errs = append(errs, strings.ReplaceAll(err.Error(), root+"/", ""))
			}
		}}
		p, _ := conf.Check(k.Path, fset, k.asts, nil)
		if len(errs) > 0 {
			return strings.Join(errs, "\n")
		}
		im.local[k.Path] = p
	}
	return ""
}

// Build collects compiled packages of several cases and links one program.
type Build struct {
	Dir   string
	mu    sync.Mutex
	cfg   strings.Builder
	files map[string]string
	n     int
}

func NewBuild(dir string) *Build {
	load()
	return &Build{Dir: dir, files: map[string]string{}}
}

// Compile compiles the package; its imports must have been compiled before. The compiler's complaint is returned.
func (b *Build) Compile(k *Pkg) (string, error) {
	b.mu.Lock()
	b.n++
	obj := filepath.Join(b.Dir, fmt.Sprintf("p%d.a", b.n))
	cfg := filepath.Join(b.Dir, fmt.Sprintf("p%d.cfg", b.n))
	var sb strings.Builder
	sb.WriteString(base)
	for _, im := range k.Imports {
		if f, ok := b.files[im]; ok {
			fmt.Fprintf(&sb, "packagefile %s=%s\n", im, f)
		}
	}
	b.mu.Unlock()
	if err := os.WriteFile(cfg, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	args := []string{"-p", k.Path, "-importcfg", cfg, "-o", obj, "-pack", "-complete", "-lang=go1.21", "-dwarf=false", "-c=2", "-N", "-l"}
	if strings.HasSuffix(k.Path, "/main") {
		args[1] = "main"
	}
	cmd := exec.Command(filepath.Join(os.Getenv("HV_TOOLDIR"), "compile"), append(args, k.Files...)...)
	cmd.Env = append(os.Environ(), "GOGC=200")
	out, err := cmd.CombinedOutput()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			return "", err
		}
		return string(out), nil
	}
	b.mu.Lock()
	b.files[k.Path] = obj
	b.mu.Unlock()
	return "", nil
}

func (b *Build) Link(main, out string) error {
	cfg := filepath.Join(b.Dir, "link.cfg")
	var sb strings.Builder
	sb.WriteString(base)
	for p, f := range b.files {
		if p != main {
			fmt.Fprintf(&sb, "packagefile %s=%s\n", p, f)
		}
	}
	if err := os.WriteFile(cfg, []byte(sb.String()), 0o644); err != nil {
		return err
	}
	cmd := exec.Command(filepath.Join(os.Getenv("HV_TOOLDIR"), "link"), "-importcfg", cfg, "-o", out, "-s", "-w", b.files[main])
	if o, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("link: %v\n%s", err, o)
	}
	return nil
}

// Prog is a running driver program: one JSON line in, one JSON line out.
type Prog struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *bytes.Buffer
}

func Start(name string, args ...string) (*Prog, error) {
	cmd := exec.Command(name, args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	p := &Prog{cmd: cmd, err: &bytes.Buffer{}}
	var err error
	if p.in, err = cmd.StdinPipe(); err != nil {
		return nil, err
	}
	so, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	cmd.Stderr = p.err
	p.out = bufio.NewReaderSize(so, 1<<20)
	return p, cmd.Start()
}

func (p *Prog) Close() {
	p.in.Close()
	_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	_ = p.cmd.Wait()
}

func (p *Prog) Stderr() string { return p.err.String() }

// Ask sends a request and decodes the answer.
func (p *Prog) Ask(q, a any, to time.Duration) error {
	b, err := json.Marshal(q)
	if err != nil {
		return err
	}
	ch := make(chan error, 1)
	go func() {
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			ch <- err
			return
		}
		line, err := p.out.ReadBytes('\n')
		if err == nil {
			err = json.Unmarshal(line, a)
		}
		ch <- err
	}()
	select {
	case err := <-ch:
		return err
	case <-time.After(to):
		return fmt.Errorf("timeout")
	}
}
