package checks

import (
	"fmt"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hv/core"
	"hv/lexref"
	"hv/schema"
	"strings"
	"time"
)

func init() {
	core.Register(&core.Check{
		ID: "C04", Quick: 150000, Thorough: 20000000, Batch: 200, Timeout: 40 * time.Second,
		Rule: "the text yields at least 6 tokens of at least 4 different kinds, or contains an invalid lexeme",
		Gen:  genC04, Eval1: evalC04,
		Probes: func() []*core.Case {
			var out []*core.Case
			for _, s := range []string{"", "a", "a\n", "a\r\nb", "/", "a /", "//line x:3\na", "/*line 7:2*/ a b", "a /* b */ /* c\n */ d", "a /**/ /**/ b", "a /* x */", "a // x", "\"\\q\"", "\"\\u12g\"", "0x", "0x_1", "1__2", "08", "0b12", "`a\r\n`", "`", "\"a\nb", "\xef\xbb\xbfa", "a\xef\xbb\xbf", "a\x00b", "1_", "0_7", "0O17", "é名_1٣", "/*/", "a>b\n", "a?\nb", "/* a *\r/ */", "//x\r\ny", "/*", "a/*", "\"\\400\"", "\"\\777\"", "\"\\ud800\"", "\"\\U00110000\"", "\"\\", "data datas"} {
				out = append(out, &core.Case{Kind: "fixed", Text: []byte(s)})
			}
			return out
		},
	})
}

var lexBits = []string{"a", "Bc", "x_1", "_", "é", "名字", "data", "server", "enum", "import", "package", "datas", "0", "7", "42", "0x1F", "0X0", "0b101", "0o17", "017", "1_000", "08", "0x", "1__2", "5_", "0b2", "\"s\"", "\"\"", "\"a\\n\\\"b\"", "\"\\u00e9\\x41\\101\"", "\"\\q\"", "\"open", "`raw`", "`r\n\r\nw`", "`open", ",", ":", ";", "(", ")", "[", "]", "{", "}", "<", ">", "=", "?", "/", "'", "#", "!", "%", "&", "*", "+", "-", ".", ".5", "@", "\\", "^", "|", "~", "$", "\x00", "\xff", "\xe5\x90", "\xef\xbb\xbf", "// c", "// c\r", "//", "/* c */", "/* a\nb */", "/* a\r\nb */", "/**/", "/* open", "//line a.hbuf:7", "/*line x:3:4*/", "//line b:c", "٣", "²", "\u00a0", "\u2028", "\f", "\v"}

func genC04(r *schema.R, idx int) *core.Case {
	c := &core.Case{Args: map[string]string{"mode": "comments", "before": "", "after": ""}}
	if r.P(30) {
		c.Args["mode"] = "plain"
	}
	if r.P(40) { // the file is not the first of its set
		c.Args["before"] = schema.Pick(r, []string{"x\n", "a\nb\nc", "// q\n\n"})
	}
	switch k := r.Int(100); {
	case k < 55:
		c.Kind = "lexemes"
		var b strings.Builder
		for n := 1 + r.Int(25); n > 0; n-- {
			b.WriteString(schema.Pick(r, lexBits))
			b.WriteString(schema.Pick(r, []string{"", " ", "\n", "\r\n", "\t", "  ", "\n\n", " "}))
		}
		c.Text = []byte(b.String())
	case k < 75:
		c.Kind = "program"
		p := genSyntax(r, true)
		t, _ := p.Files[0].Render(p.FileSeed(0))
		c.Text = []byte(t)
	default:
		c.Kind = "mutated"
		p := genSyntax(r, true)
		t, _ := p.Files[0].Render(p.FileSeed(0))
		c.Text = mutateBytes(r, []byte(t))
	}
	return c
}

func kindOf(t token.Token) lexref.Kind {
	switch t {
	case token.IDENT, token.INT, token.STRING, token.COMMENT, token.EOF, token.ILLEGAL:
		return lexref.Kind(t.String())
	}
	return lexref.Kind(t.String())
}

func noCR(s string) string { return strings.ReplaceAll(s, "\r", "") }

func evalC04(c *core.Case) *core.Result {
	text := string(c.Text)
	res := &core.Result{Labels: []string{c.Kind, c.Args["mode"]}}
	fs := token.NewFileSet()
	if b := c.Args["before"]; b != "" {
		f := fs.AddFile("before.hbuf", -1, len(b))
		var s scanner.Scanner
		s.Init(f, []byte(b), nil, 0)
		for {
			if _, t, _ := s.Scan(); t == token.EOF {
				break
			}
		}
	}
	file := fs.AddFile("d/x.hbuf", -1, len(text))
	if g := fs.AddFile("after.hbuf", -1, 10); g == nil {
		return core.Failf("fileset", "no file")
	}
	type serr struct {
		p token.Position
		m string
	}
	var errs []serr
	var s scanner.Scanner
	mode := scanner.ScanComments
	if c.Args["mode"] == "plain" {
		mode = 0
	}
	s.Init(file, []byte(text), func(p token.Position, m string) { errs = append(errs, serr{p, m}) }, mode)
	type tok struct {
		k    lexref.Kind
		lit  string
		off  int
		pos  token.Pos
		posn token.Position // as known when the token was scanned
	}
	var got []tok
	for n := 0; ; n++ {
		p, t, l := s.Scan()
		off := file.Offset(p)
		got = append(got, tok{kindOf(t), l, off, p, fs.Position(p)})
		if t == token.EOF {
			break
		}
		if n > 4*len(text)+10 {
			return core.Failf("endless", "%d tokens from %d bytes", n, len(text))
		}
	}
	want, bad := lexref.Lex(text)
	var exp []lexref.Tok
	for _, t := range want {
		if t.Kind == lexref.Comment && mode == 0 {
			continue
		}
		exp = append(exp, t)
	}
	lineCol := func(off int) (int, int) {
		nl := strings.LastIndexByte(text[:off], '\n')
		return 1 + strings.Count(text[:off], "\n"), off - nl
	}
	at := func(i int) string {
		lo, hi := max(0, i-2), min(len(got), i+3)
		o := ""
		for _, t := range got[lo:hi] {
			o += fmt.Sprintf(" %s%q@%d", t.k, t.lit, t.off)
		}
		o += " / expected:"
		lo, hi = max(0, i-2), min(len(exp), i+3)
		for k := lo; k < hi; k++ {
			o += fmt.Sprintf(" %s%q@%d", exp[k].Kind, exp[k].Text, exp[k].Start)
		}
		return o
	}
	kinds := map[lexref.Kind]bool{}
	for i, g := range got {
		if i >= len(exp) {
			return core.Failf("tokens", "more tokens than the text holds:%s", at(i))
		}
		e := exp[i]
		kinds[g.k] = true
		if g.k != e.Kind {
			return core.Failf("kind", "token %d:%s", i, at(i))
		}
		if g.off != e.Start {
			return core.Failf("offset", "token %d:%s", i, at(i))
		}
		switch g.k {
		case lexref.Comment:
			if g.lit != noCR(e.Text) && g.lit != e.Text && noCR(g.lit) != noCR(e.Text) {
				return core.Failf("text", "comment %q, source %q", g.lit, e.Text)
			}
			if n := strings.Index(g.lit[2:], "*/"); g.lit[1] == '*' && n >= 0 && n != len(g.lit)-4 {
				return core.Failf("text", "comment %q ends early, source %q", g.lit, e.Text)
			}
			if strings.Contains(g.lit, "\r") && !strings.Contains(g.lit, "*\r") {
				return core.Failf("text", "comment keeps carriage returns: %q", g.lit)
			}
		case lexref.Str:
			if e.Text[0] == '`' && noCR(g.lit) != noCR(e.Text) || e.Text[0] == '"' && g.lit != e.Text {
				return core.Failf("text", "string %q, source %q", g.lit, e.Text)
			}
		case lexref.Ident, lexref.Int, "data", "server", "enum", "import", "package":
			if g.lit != e.Text {
				return core.Failf("text", "%s %q, source %q", g.k, g.lit, e.Text)
			}
		case lexref.Semi:
			if (g.lit == "\n") != e.Auto {
				return core.Failf("text", "semicolon %q:%s", g.lit, at(i))
			}
		}
		if g.off == len(text) {
			continue // no byte there: the end of the text counts as part of its last line
		}
		l, col := lineCol(g.off)
		for _, q := range []token.Position{g.posn, fs.Position(g.pos)} {
			if q.Filename != "d/x.hbuf" || q.Line != l || q.Column != col || q.Offset != g.off {
				return core.Failf("position", "token %d %s%q at offset %d (line %d column %d) has position %+v", i, g.k, g.lit, g.off, l, col, q)
			}
		}
		if file.Line(g.pos) != l {
			return core.Failf("position", "token %d on line %d: File.Line says %d", i, l, file.Line(g.pos))
		}
	}
	if len(got) < len(exp) {
		return core.Failf("tokens", "fewer tokens than the text holds:%s", at(len(got)))
	}
	if n := strings.Count(strings.TrimSuffix(text, "\n"), "\n"); file.LineCount() != 1+n && !(n+1 == strings.Count(text, "\n") && file.LineCount() == 2+n) {
		return core.Failf("lines", "%d lines counted, %d in the text", file.LineCount(), 1+strings.Count(text, "\n"))
	}
	for _, b := range bad {
		ok := false
		for _, e := range errs {
			if e.p.Offset >= b.At && e.p.Offset <= b.End {
				ok = true
			}
		}
		if !ok {
			return core.Failf("unreported", "no error for %q at offset %d; errors: %v", text[b.At:b.End], b.At, errs)
		}
	}
	for _, e := range errs {
		ok := false
		for _, b := range bad {
			if e.p.Offset >= b.At && e.p.Offset <= b.End {
				ok = true
			}
		}
		if !ok {
			return core.Failf("misreported", "error %q at offset %d where the text is valid; bad parts: %v", e.m, e.p.Offset, bad)
		}
		if e.p.Offset >= len(text) {
			continue
		}
		l, col := lineCol(e.p.Offset)
		if e.p.Filename != "d/x.hbuf" || e.p.Line != l || e.p.Column != col {
			return core.Failf("position", "error %q at offset %d (line %d column %d) has position %+v", e.m, e.p.Offset, l, col, e.p)
		}
	}
	if s.ErrorCount != len(errs) {
		return core.Failf("count", "ErrorCount %d, %d reported", s.ErrorCount, len(errs))
	}
	res.Evals = len(got)
	if len(bad) > 0 {
		res.Labels = append(res.Labels, "invalid")
	}
	if len(got) >= 6 && len(kinds) >= 4 || len(bad) > 0 {
		res.NonTrivial = true
		res.Sample = fmt.Sprintf("%d tokens, %d bad lexemes: %q", len(got), len(bad), text[:min(300, len(text))])
	}
	return res
}
