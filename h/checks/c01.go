package checks

import (
	"bytes"
	"fmt"
	"hbuf/pkg/parser"
	"hv/core"
	"hv/lexref"
	"hv/schema"
	"strings"
	"time"
)

func init() {
	core.Register(&core.Check{
		ID: "C01", Quick: 150000, Thorough: 20000000, Batch: 200, Timeout: 40 * time.Second,
		Rule: "a text of at least 8 bytes that is not a plain valid program: it reached the recogniser verdict yes or no (unknown verdicts only count for crash freedom and located errors)",
		Gen:  genC01, Eval1: evalC01, Shrinks: core.GenericShrinks,
		Probes: func() []*core.Case {
			var out []*core.Case
			for _, s := range []string{"", "#", ".5", "data A { int32 a = .5 }", "server S { A[] b(C c) = 0\n}", "server S { A b(C<D> c) = 0\n}", "enum E { A : 0 }", "package = \"x\"\n", "[", "[a:", "import", "data A : B, {", "data A{int32 a=0}", "[a:b=\"c\"]", "\"", "/*", "server S { A b(C c) = 0 . }", "server S {A b(C c)=0 ) X y(Z z)=1\n}",
				"data A {\n = 1\n}", "\xef\xbb\xbfdata A{}"} {
				out = append(out, &core.Case{Kind: "fixed", Text: []byte(s)})
			}
			return out
		},
		Assumptions: []string{"grammar corners that the documentation leaves open (text after a declaration's closing brace and '=', two annotation keys without separator, an annotation without keys, structured map keys) get no verdict"},
	})
}

func genC01(r *schema.R, idx int) *core.Case {
	c := &core.Case{}
	modes := []string{"", "", "", "", "nocomments", "few", "imports", "package", "decl"}
	c.Args = map[string]string{"mode": schema.Pick(r, modes)}
	base := func() string {
		s, _ := func() (string, error) {
			p := genSyntax(r, true)
			t, _ := p.Files[0].Render(p.FileSeed(0))
			return t, nil
		}()
		return s
	}
	switch k := r.Int(100); {
	case k < 12:
		c.Kind = "soup"
		var b strings.Builder
		for n := r.Int(60); n > 0; n-- {
			b.WriteString(schema.Pick(r, snippets))
			if r.P(30) {
				b.WriteByte(byte(r.Int(256)))
			}
		}
		c.Text = []byte(b.String())
	case k < 45:
		c.Kind = "bytes"
		c.Text = mutateBytes(r, []byte(base()))
	case k < 85:
		c.Kind = "tokens"
		c.Text = []byte(mutateTokens(r, base()))
	case k < 94:
		c.Kind = "valid"
		c.Text = []byte(base())
	case k < 96:
		c.Kind = "long"
		u := schema.Pick(r, snippets) + schema.Pick(r, snippets) + schema.Pick(r, []string{"", "a", " ", "\n"})
		n := 2000 + r.Int(20000)
		c.Text = bytes.Repeat([]byte(u), n/len(u)+1)
		if r.Bool() {
			c.Text = append([]byte(schema.Pick(r, []string{"data A {", "[a:b=", "enum E {", "server S {", "data A :", "a", "/*"})), c.Text...)
		}
	default:
		c.Kind = "joined"
		a, b := []byte(base()), []byte(base())
		c.Text = append(append([]byte{}, a[:r.Int(len(a)+1)]...), b[r.Int(len(b)+1):]...)
	}
	return c
}

func modeOf(s string) parser.Mode {
	switch s {
	case "nocomments":
		return parser.AllErrors
	case "few":
		return parser.ParseComments
	case "imports":
		return parser.AllErrors | parser.ParseComments | parser.ImportsOnly
	case "package":
		return parser.AllErrors | parser.PackageClauseOnly
	case "decl":
		return parser.AllErrors | parser.ParseComments | parser.DeclarationErrors
	}
	return parser.AllErrors | parser.ParseComments
}

func evalC01(c *core.Case) *core.Result {
	text := string(c.Text)
	res := &core.Result{Labels: []string{c.Kind}}
	const name = "dir/in.hbuf"
	var fail *core.Result
	var err error
	out := captureStdout(func() {
		fail = core.Guard("panic", func() *core.Result {
			f, fs, e := parseText(name, text, modeOf(c.Args["mode"]))
			err = e
			if e == nil {
				if why := incomplete(f); why != "" {
					return core.Failf("incomplete", "no error, but %s", why)
				}
				return nil
			}
			_ = fs
			es := errList(e)
			if len(es) == 0 {
				return core.Failf("unlocated", "error without a position: %T %v", e, e)
			}
			lines := strings.Count(text, "\n") + 1
			for _, x := range es {
				if x.Pos.Filename != name || x.Pos.Line < 1 || x.Pos.Line > lines || x.Msg == "" {
					return core.Failf("unlocated", "error at %+v of %d lines: %q", x.Pos, lines, x.Msg)
				}
				if x.Pos.Column < 1 || x.Pos.Offset < 0 || x.Pos.Offset > len(text) {
					return core.Failf("unlocated", "error at column %d, offset %d: %q", x.Pos.Column, x.Pos.Offset, x.Msg)
				}
			}
			return nil
		})
	})
	if fail != nil {
		return fail
	}
	if out != "" {
		return core.Failf("prints", "parsing printed %q", out)
	}
	m := c.Args["mode"]
	if m == "imports" || m == "package" || m == "decl" {
		res.Labels = append(res.Labels, "partial")
		return res
	}
	v := lexref.Recognise(text)
	res.Labels = append(res.Labels, v.String())
	if v == lexref.No && err == nil {
		return core.Failf("accepted", "a text outside the grammar was accepted without an error")
	}
	if v == lexref.Yes && err != nil {
		return core.Failf("rejected", "a text of the grammar was rejected: %s", firstErr(err))
	}
	if v != lexref.Unknown && len(text) >= 8 && c.Kind != "valid" {
		res.NonTrivial = true
		res.Sample = fmt.Sprintf("%s verdict=%s %q", c.Kind, v, text[:min(len(text), 400)])
	}
	return res
}

func firstErr(err error) string {
	if es := errList(err); len(es) > 0 {
		return es[0].Error()
	}
	return err.Error()
}
