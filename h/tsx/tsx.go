// Package tsx type-checks, compiles and runs generated TypeScript with the installed compiler and stand-ins for the
// libraries the generated code imports.
package tsx

import (
	"embed"
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"io/fs"
	"os"
	"path/filepath"
	"time"
)

//go:embed server.js lib
var files embed.FS

// Setup writes the server and the stand-in libraries once per run.
func Setup() error {
	dir := filepath.Join(os.Getenv("HV_TMP"), "tsx")
	return fs.WalkDir(files, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := files.ReadFile(p)
		if err != nil {
			return err
		}
		q := filepath.Join(dir, p)
		if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
			return err
		}
		return os.WriteFile(q, b, 0o644)
	})
}

// Unit is the generated code of one program.
type Unit struct {
	N     int               `json:"n"`
	Files map[string]string `json:"files"`
}

// Node is a running compiler process.
type Node struct {
	p    *gox.Prog
	uses int
	last []*Unit
}

func (n *Node) start() error {
	if n.p != nil && n.uses < 60 {
		n.uses++
		return nil
	}
	n.Stop()
	p, err := gox.Start("node", "--max-old-space-size=3000", "--stack-size=900", filepath.Join(os.Getenv("HV_TMP"), "tsx", "server.js"))
	if err != nil {
		return err
	}
	n.p, n.uses = p, 0
	return nil
}

func (n *Node) Stop() {
	if n.p != nil {
		n.p.Close()
		n.p = nil
	}
}

// Compile type-checks the units together and returns the diagnostics of each.
func (n *Node) Compile(us []*Unit) (map[int][]string, error) {
	if err := n.start(); err != nil {
		return nil, err
	}
	n.last = us
	var a struct {
		Diags map[int][]string `json:"diags"`
		Fatal string           `json:"fatal"`
	}
	if err := n.p.Ask(map[string]any{"cmd": "compile", "units": us}, &a, 120*time.Second); err != nil {
		err = fmt.Errorf("%v\n%s", err, core.Head(n.p.Stderr(), 2000))
		n.Stop()
		return nil, err
	}
	if a.Fatal != "" {
		return nil, fmt.Errorf("%s", a.Fatal)
	}
	return a.Diags, nil
}

// Ask runs operations on a unit; after a failure the compiler is started again with the same units.
func (n *Node) Ask(unit int, desc any, ops any, reps any) error {
	var raw json.RawMessage
	err := n.p.Ask(map[string]any{"cmd": "ops", "unit": unit, "desc": desc, "ops": ops}, &raw, 30*time.Second)
	if err != nil {
		err = fmt.Errorf("%v\n%s", err, core.Head(n.p.Stderr(), 2000))
		n.Stop()
		if _, e := n.Compile(n.last); e != nil {
			panic("tsx: " + e.Error())
		}
		return err
	}
	var f struct {
		Fatal string `json:"fatal"`
	}
	if json.Unmarshal(raw, &f) == nil && f.Fatal != "" {
		return fmt.Errorf("%s", f.Fatal)
	}
	return json.Unmarshal(raw, reps)
}
