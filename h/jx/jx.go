// Package jx compiles and runs generated Java with the installed compiler and stand-ins for the runtime library.
package jx

import (
	"embed"
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/gox"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

//go:embed Driver.java lib
var files embed.FS

func dir() string { return filepath.Join(os.Getenv("HV_TMP"), "jx") }

// Setup compiles the driver and the stand-in libraries once per run.
func Setup() error {
	var srcs []string
	err := fs.WalkDir(files, ".", func(p string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		b, err := files.ReadFile(p)
		if err != nil {
			return err
		}
		q := filepath.Join(dir(), "src", p)
		if err := os.MkdirAll(filepath.Dir(q), 0o755); err != nil {
			return err
		}
		srcs = append(srcs, q)
		return os.WriteFile(q, b, 0o644)
	})
	if err != nil {
		return err
	}
	out, err := exec.Command("javac", append([]string{"-nowarn", "-encoding", "UTF-8", "-d", filepath.Join(dir(), "cls")}, srcs...)...).CombinedOutput()
	if err != nil {
		return fmt.Errorf("javac: %v\n%s", err, out)
	}
	return nil
}

// Unit is the generated code of one program.
type Unit struct {
	N     int               `json:"n"`
	Files map[string]string `json:"files"`
}

// Java is a running compiler process.
type Java struct {
	p    *gox.Prog
	uses int
	last []*Unit
}

func (n *Java) start() error {
	if n.p != nil && n.uses < 200 {
		n.uses++
		return nil
	}
	n.Stop()
	p, err := gox.Start("java", "-Xmx1500m", "-Xss4m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xshare:auto", "-cp", filepath.Join(dir(), "cls"), "Driver", filepath.Join(dir(), "cls"))
	if err != nil {
		return err
	}
	n.p, n.uses = p, 0
	return nil
}

func (n *Java) Stop() {
	if n.p != nil {
		n.p.Close()
		n.p = nil
	}
}

// Compile compiles each unit and returns its errors.
func (n *Java) Compile(us []*Unit) (map[int][]string, error) {
	if err := n.start(); err != nil {
		return nil, err
	}
	n.last = us
	var a struct {
		Diags map[int][]string `json:"diags"`
		Fatal string           `json:"fatal"`
	}
	if err := n.p.Ask(map[string]any{"cmd": "compile", "units": us}, &a, 120*time.Second); err != nil {
		err = fmt.Errorf("%v\n%s", err, core.Head(n.p.Stderr(), 2000))
		n.Stop()
		return nil, err
	}
	if a.Fatal != "" {
		return nil, fmt.Errorf("%s", a.Fatal)
	}
	return a.Diags, nil
}

// Ask runs operations on a unit; after a failure the compiler is started again with the same units.
func (n *Java) Ask(unit int, ops any, reps any) error {
	var raw json.RawMessage
	err := n.p.Ask(map[string]any{"cmd": "ops", "unit": unit, "ops": ops}, &raw, 30*time.Second)
	if err != nil {
		err = fmt.Errorf("%v\n%s", err, core.Head(n.p.Stderr(), 2000))
		n.Stop()
		if _, e := n.Compile(n.last); e != nil {
			panic("jx: " + e.Error())
		}
		return err
	}
	var f struct {
		Fatal string `json:"fatal"`
	}
	if json.Unmarshal(raw, &f) == nil && f.Fatal != "" {
		return fmt.Errorf("%s", f.Fatal)
	}
	return json.Unmarshal(raw, reps)
}
