package checks

import (
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"
)

// C25: comments never change the generated program, and documentation stays with what it documents.
func init() {
	core.Register(&core.Check{
		ID:    "C25",
		Rule:  "the program has at least three documented constructs and was generated with and without comments for every target; distinct programs and comments",
		Quick: 6000, Thorough: 150000, Timeout: 60e9,
		Gen:     genC25,
		Shrinks: valueShrinks,
		Eval1:   evalC25,
		Assumptions: []string{
			"programs are compared as their texts without comments and with runs of white space taken as one",
			"comments that start with a directive of the TypeScript compiler (@ts-ignore and the like) are not generated",
		},
	})
}

var nasty = []string{"*/", "/*", "/**", "*/ x /*", "\\u000a int x;", "\\\\u000a }", "\\u002a\\u002f", "*/\u2028x", "a\u2029}", "a\u0085b", "a\tb", "a\vb\fc", "\"", "'", "`", "\"\"\"", "'''", "${x", "$x", "}", "{", "//", "///", "import \"x\"", "package x", "@override", "@deprecated", "+build linux", "go:build linux", "go:generate rm", "line 1", "export x.go:10", "<reference path=\"x\"/>", "<!-- -->", "#!x", "\\", "x \\", "\u200b", "😀", "\u202e", "%s %d", "%", "ignore: x", "@param x", "]", "[x]", ";", "/", "*", "-", "__proto__", "eslint-disable", "region x", "--", "=begin"}

func genC25(r *schema.R, idx int) *core.Case {
	cfg := goCfg
	cfg.MapKeys = jsonGoKeys
	cfg.MaxDatas, cfg.MaxServers = 4, 2
	cfg.DocPct = 0
	cfg.Pkgs = []string{"java"}
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	if r.P(30) {
		schema.DecorateUI(r, p, 60)
	}
	if r.P(30) {
		schema.DecorateVerify(r, p, 40)
	}
	if r.P(30) {
		schema.DecorateDB(r, p, 40)
	}
	n := 0
	doc := func() []string {
		if r.P(25) {
			return nil
		}
		n++
		mark := fmt.Sprintf("dq%dz", n)
		k := 1
		if r.P(50) {
			k = r.Range(2, 4)
		}
		at := r.Int(k)
		var o []string
		for i := 0; i < k; i++ {
			s := ""
			for j := r.Range(0, 2); j > 0; j-- {
				s += schema.Pick(r, nasty) + schema.Pick(r, []string{"", " ", " x "})
			}
			if i == at {
				s = schema.Pick(r, []string{"", s}) + mark + schema.Pick(r, []string{"", " ", " " + schema.Pick(r, nasty), schema.Pick(r, nasty)})
			}
			o = append(o, s)
		}
		if r.P(20) { // one comment of several lines
			s := strings.ReplaceAll(strings.Join(o, "\n"), "*/", "+/")
			return []string{"/* " + strings.TrimSuffix(s, "*") + " */"}
		}
		for i := range o {
			switch {
			case r.P(15): // no space after the mark
				o[i] = "\x00//" + schema.Pick(r, []string{"", "note:", "see:a", "/", "!"}) + o[i]
			case r.P(8): // a comment of its own among the lines
				o[i] = "\x00/*" + strings.TrimSuffix(strings.ReplaceAll(schema.Pick(r, []string{"", "*", " ", "note:"})+o[i], "*/", "+/"), "*") + schema.Pick(r, []string{"", " ", "\n * "}) + "*/"
			case strings.HasPrefix(o[i], "/*"):
				o[i] = "-" + o[i]
			}
		}
		return o
	}
	for _, f := range p.Files {
		for _, d := range f.Decls {
			d.Doc = doc()
			for _, x := range d.Items {
				x.Doc = doc()
			}
			for _, x := range d.Fields {
				x.Doc = doc()
			}
			for _, x := range d.Methods {
				x.Doc = doc()
			}
		}
	}
	c := &core.Case{Prog: p, Args: map[string]string{}}
	if r.P(50) {
		c.Args["layout"] = strconv.FormatUint(r.U64(), 10)
	}
	return c
}

// comment is one of a source text, with the line where it starts and ends.
type comment struct {
	text       string
	start, end int
	code       bool // there is code before it on its line
}

var javaEscape = regexp.MustCompile(`(\\*)\\u+([0-9a-fA-F]{4})`)

// strip separates a source text of a target into code and comments.
func strip(lang, src string) (code string, cs []comment, err string) {
	if lang == "java" { // escapes are replaced before anything else
		src = javaEscape.ReplaceAllStringFunc(src, func(s string) string {
			m := javaEscape.FindStringSubmatch(s)
			if len(m[1])%2 == 1 {
				return s
			}
			n, _ := strconv.ParseUint(m[2], 16, 32)
			return m[1] + string(utf16.Decode([]uint16{uint16(n)}))
		})
	}
	r := []rune(src)
	var b strings.Builder
	line := 1
	i := 0
	peek := func(s string) bool {
		q := []rune(s)
		if i+len(q) > len(r) {
			return false
		}
		for k := range q {
			if r[i+k] != q[k] {
				return false
			}
		}
		return true
	}
	coded := 0 // the last line that has code
	put := func(n int) {
		for ; n > 0 && i < len(r); n-- {
			if r[i] > ' ' {
				coded = line
			}
			if r[i] == '\n' {
				line++
			}
			b.WriteRune(r[i])
			i++
		}
	}
	eol := func(c rune) bool {
		return c == '\n' || c == '\r' && lang != "go" || (c == '\u2028' || c == '\u2029') && lang == "ts"
	}
	var codeUntil func(end string)
	str := func(q string, raw, interp bool) {
		start := line
		put(len([]rune(q)))
		for {
			switch {
			case i >= len(r):
				err = fmt.Sprintf("line %d: text without end", start)
				return
			case !raw && r[i] == '\\':
				put(2)
			case interp && peek("${"):
				put(2)
				codeUntil("}")
				put(1)
			case peek(q):
				put(len([]rune(q)))
				return
			case len(q) == 1 && q != "`" && eol(r[i]):
				err = fmt.Sprintf("line %d: text without end", start)
				return
			default:
				put(1)
			}
			if err != "" {
				return
			}
		}
	}
	codeUntil = func(end string) {
		depth := 0
		for i < len(r) && err == "" {
			switch {
			case end != "" && depth == 0 && peek(end):
				return
			case peek("//"):
				s, l := i, line
				for i < len(r) && !eol(r[i]) {
					i++
				}
				cs = append(cs, comment{string(r[s:i]), l, line, coded == l})
			case peek("/*"):
				s, l, n := i, line, 0
				for {
					if i >= len(r) {
						err = fmt.Sprintf("line %d: comment without end", l)
						return
					}
					if peek("/*") && (n == 0 || lang == "dart") {
						n++
						i += 2
					} else if peek("*/") {
						i += 2
						if n--; n == 0 {
							break
						}
					} else {
						if r[i] == '\n' {
							line++
						}
						i++
					}
				}
				cs = append(cs, comment{string(r[s:i]), l, line, coded == l})
				b.WriteByte(' ')
			case lang == "dart" && (peek("r'") || peek("r\"")) && (i == 0 || !isWord(r[i-1])):
				put(1)
				str(string(r[i]), true, false)
			case lang == "dart" && (peek("'''") || peek("\"\"\"")):
				str(string(r[i:i+3]), false, true)
			case r[i] == '"':
				str("\"", false, lang == "dart")
			case r[i] == '\'':
				str("'", false, lang == "dart")
			case r[i] == '`' && (lang == "go" || lang == "ts"):
				str("`", lang == "go", lang == "ts")
			default:
				if r[i] == '{' {
					depth++
				} else if r[i] == '}' {
					depth--
				}
				put(1)
			}
		}
	}
	codeUntil("")
	return b.String(), cs, err
}

func isWord(c rune) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var (
	blanks = regexp.MustCompile(`[ \t\r\f\v]+`)
	breaks = regexp.MustCompile(` ?\n[ \n]*`)
)

// squeeze takes runs of white space as one.
func squeeze(s string) string {
	return strings.TrimSpace(breaks.ReplaceAllString(blanks.ReplaceAllString(s, " "), "\n"))
}

var docMark = regexp.MustCompile(`dq(\d+)z`)

// documented is a construct with documentation.
type documented struct {
	name, what, kind string
	doc              []string
	file             *schema.File
	decl             *schema.Decl
}

func evalC25(c *core.Case) *core.Result {
	p := c.Prog
	if !validGo(p) || !validJava(p) || len(p.Validate(allFiles(p))) > 0 {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	res := &core.Result{}
	marks := map[string]documented{}
	add := func(doc []string, name, what, kind string, f *schema.File, d *schema.Decl) {
		if m := docMark.FindString(strings.Join(doc, "\n")); m != "" {
			marks[m] = documented{name, what, kind, doc, f, d}
		}
	}
	bare := p.Clone()
	bare.Layout = 0
	for i, f := range p.Files {
		for j, d := range f.Decls {
			e := bare.Files[i].Decls[j]
			e.Doc = nil
			add(d.Doc, d.Name, d.Kind+" "+d.Name, d.Kind, f, d)
			for k, x := range d.Items {
				e.Items[k].Doc = nil
				add(x.Doc, x.Name, d.Name+"."+x.Name, "item", f, d)
			}
			for k, x := range d.Fields {
				e.Fields[k].Doc = nil
				add(x.Doc, x.Name, d.Name+"."+x.Name, "field", f, d)
			}
			for k, x := range d.Methods {
				e.Methods[k].Doc = nil
				add(x.Doc, x.Name, d.Name+"."+x.Name, "method", f, d)
			}
		}
	}
	full := p.Clone()
	full.Layout, _ = strconv.ParseUint(c.Args["layout"], 10, 64)
	dir := scratch()
	defer os.RemoveAll(dir)
	for _, lang := range targets {
		a, bad := generate(bare, filepath.Join(dir, "sa"), filepath.Join(dir, "a", lang), lang)
		if bad != nil {
			return bad
		}
		b, bad := generate(full, filepath.Join(dir, "sb"), filepath.Join(dir, "b", lang), lang)
		if bad != nil {
			return bad
		}
		var names []string
		for n := range a {
			names = append(names, n)
		}
		sort.Strings(names)
		for n := range b {
			if _, ok := a[n]; !ok {
				return core.Failf("files", "%s: with comments there is a further file %s", lang, n)
			}
		}
		seen := map[string]bool{} // marks in the generated comments
		for _, n := range names {
			y, ok := b[n]
			if !ok {
				return core.Failf("files", "%s: with comments there is no file %s", lang, n)
			}
			ca, _, e := strip(lang, a[n])
			if e != "" {
				return core.Failf("lex", "%s without comments: %s", n, e)
			}
			cb, coms, e := strip(lang, y)
			if e != "" {
				return core.Failf("lex", "%s with comments: %s", n, e)
			}
			if x, y := squeeze(ca), squeeze(cb); x != y {
				return core.Failf("changed", "%s: comments change the program:\nwithout: %s\nwith:    %s", n, nearby(x, y), nearby(y, x))
			}
			if lang == "dart" {
				ta, ea := dartx.Code(a[n])
				tb, eb := dartx.Code(y)
				if fmt.Sprint(ea, ta) != fmt.Sprint(eb, tb) {
					return core.Failf("changed", "%s: comments change the program (%v %v)", n, ea, eb)
				}
			}
			if f := attached(lang, n, y, coms, marks, seen); f != nil {
				return f
			}
			res.Evals++
		}
		var ms []string
		for m := range marks {
			ms = append(ms, m)
		}
		sort.Strings(ms)
		for _, m := range ms {
			d := marks[m]
			if lang == "go" && d.file.Pkg("go") == "" || lang == "java" && d.file.Pkg("java") == "" {
				continue
			}
			if d.kind == "field" && multiField(p, schema.Ref{File: d.file, Decl: d.decl}, d.name) {
				continue // which of its definitions it takes is not judged
			}
			if !seen[m] {
				return core.Failf("lost", "%s: the documentation of %s is nowhere: %q", lang, d.what, d.doc)
			}
			res.Evals++
		}
	}
	res.NonTrivial = len(marks) >= 3
	for _, d := range marks {
		if len(res.Sample) < 300 {
			res.Sample += fmt.Sprintf("%s: %q; ", d.what, d.doc)
		}
	}
	return res
}

// bareDoc is a documentation entry without comment marks.
func bareDoc(l string) string {
	l = strings.TrimPrefix(l, "\x00")
	if strings.HasPrefix(l, "//") {
		return l[2:]
	}
	if strings.HasPrefix(l, "/*") {
		return l[2 : len(l)-2]
	}
	return l
}

func allFiles(p *schema.Program) map[int]bool {
	all := map[int]bool{}
	for i := range p.Files {
		all[i] = true
	}
	return all
}

// nearby shows where a text starts to differ from another.
func nearby(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	s := i - 40
	if s < 0 {
		s = 0
	}
	e := i + 60
	if e > len(a) {
		e = len(a)
	}
	return fmt.Sprintf("%q", a[s:e])
}

// attached: the comments that hold the documentation of a construct hold all of it and none of another's, and the code
// that follows names the construct.
func attached(lang, n, src string, cs []comment, marks map[string]documented, seen map[string]bool) *core.Result {
	lines := strings.Split(src, "\n")
	isCom := map[int]bool{}
	for _, c := range cs {
		for l := c.start; l <= c.end && !c.code; l++ {
			isCom[l] = true
		}
	}
	for i := 0; i < len(cs); {
		j := i + 1
		text := cs[i].text
		for j < len(cs) && !cs[i].code && !cs[j].code && cs[j].start == cs[j-1].end+1 { // the comments of consecutive lines
			text += "\n" + cs[j].text
			j++
		}
		last, own := cs[j-1].end, cs[i].code
		i = j
		if strings.Contains(text, "detached") || strings.Contains(text, "trailing") {
			return core.Failf("stray", "%s: a comment that documents nothing is documentation:\n%s", n, text)
		}
		found := map[string]bool{}
		for _, m := range docMark.FindAllString(text, -1) {
			found[m] = true
		}
		if len(found) == 0 {
			continue
		}
		if len(found) > 1 {
			return core.Failf("mixed", "%s: a comment documents several constructs:\n%s", n, text)
		}
		var d documented
		for m := range found {
			d = marks[m]
			seen[m] = true
		}
		for _, l := range d.doc {
			for _, q := range regexp.MustCompile("[\n\r\u2028\u2029]").Split(bareDoc(l), -1) {
				if q = strings.TrimSpace(q); !strings.Contains(q, "\\u") && !strings.Contains(text, q) {
					return core.Failf("partial", "%s: the documentation of %s lacks %q:\n%s", n, d.what, q, text)
				}
			}
		}
		next := ""
		for l := last + 1; l <= len(lines); l++ {
			s := strings.TrimSpace(lines[l-1])
			if s == "" || isCom[l] || strings.EqualFold(s, "@override") {
				continue
			}
			next = s
			break
		}
		if own {
			next = strings.SplitN(lines[last-1], "//", 2)[0]
		}
		if !strings.Contains(schema.Norm(next), schema.Norm(d.name)) {
			return core.Failf("misplaced", "%s: the documentation of %s stands before %q", n, d.what, next)
		}
	}
	return nil
}
