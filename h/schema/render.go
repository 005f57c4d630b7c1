package schema

import (
	"fmt"
	"strconv"
	"strings"
)

// Layout renders tokens with insignificant noise. The zero value is canonical.
type Layout struct {
	r        *R
	Comments bool // ordinary comments where they cannot become documentation
	CRLF     bool
	BOM      bool
	NoFinal  bool // no newline at end of file
	Breaks   bool // lines may end within constructs
}

func NewLayout(seed uint64) *Layout {
	if seed == 0 {
		return &Layout{}
	}
	r := NewR(seed, "layout", 0)
	return &Layout{r: r, Comments: r.P(60), CRLF: r.P(30), BOM: r.P(10), NoFinal: r.P(20), Breaks: r.P(35)}
}

type printer struct {
	b    strings.Builder
	l    *Layout
	line int
	// Marks records the 1-based first and last line of constructs: import#i, d<decl>, d<decl>.p<parent>, d<decl>.m<member>,
	// for annotations <construct>.t<tag>, <construct>.t<tag>.k<key> and <construct>.t<tag>.k<key>.v<value>, and for the parts of
	// a member .type, .key, .name, .param, .pname and .id.
	Marks    map[string][2]int
	depth    int
	afterDoc bool // no comment may come between a doc and its construct
	oneLine  bool
	di       int
}

func (p *printer) w(s string) {
	p.b.WriteString(s)
	p.line += strings.Count(s, "\n")
}
func (p *printer) mark(k string)    { p.Marks[k] = [2]int{p.line, p.line} }
func (p *printer) markEnd(k string) { p.Marks[k] = [2]int{p.Marks[k][0], p.line} }

// sp is optional or required horizontal space between tokens on one line.
func (p *printer) sp(required bool) {
	if p.l.r == nil {
		if required {
			p.w(" ")
		}
		return
	}
	s := ""
	n := p.l.r.Int(3)
	for i := 0; i < n; i++ {
		s += Pick(p.l.r, []string{" ", "  ", "\t"})
	}
	if p.l.Comments && p.l.r.P(4) {
		s += "/* c */"
	}
	if required && s == "" {
		s = " "
	}
	p.w(s)
}

// brk is a place where the line may end within a construct.
func (p *printer) brk() {
	if p.l.r != nil && p.l.Breaks && p.l.r.P(25) {
		p.sp(false)
		if p.l.Comments && p.l.r.P(10) {
			p.w("// broken line }")
		}
		p.w("\n")
		p.sp(false)
		return
	}
	p.csp()
}

// brk0 is brk where the canonical form has no space.
func (p *printer) brk0() {
	if p.l.r != nil {
		p.brk()
	}
}

// csp is canonical " " but freely variable.
func (p *printer) csp() {
	if p.l.r == nil {
		p.w(" ")
		return
	}
	p.sp(false)
}

// nl ends a statement. The statement terminator may be an explicit semicolon.
func (p *printer) nl(semi bool) {
	if p.l.r == nil {
		p.w("\n")
		return
	}
	if semi && p.l.r.P(15) {
		p.sp(false)
		p.w(";")
	}
	p.sp(false)
	if p.l.Comments && p.l.r.P(8) {
		p.w(" // trailing " + Pick(p.l.r, []string{"x", "data q {", "\"", "[", "}"}))
	}
	p.w("\n")
	p.blank()
}

// blank emits blank lines and detached comments (always followed by a blank line so they never document anything).
func (p *printer) blank() {
	if p.l.r == nil {
		return
	}
	if p.l.r.P(15) {
		p.w("\n")
	}
	if p.l.Comments && p.l.r.P(7) {
		p.w("// detached comment\n\n")
	}
	if p.l.Comments && p.l.r.P(5) {
		p.w("/* multi\n line = \"detached\" {\n*/\n\n")
	}
}
func (p *printer) indent() {
	if p.l.r == nil {
		p.w(strings.Repeat("    ", p.depth))
		return
	}
	if p.afterDoc {
		p.w(Pick(p.l.r, []string{"", "  ", "\t"}))
		p.afterDoc = false
		return
	}
	p.sp(false)
}

// mind indents a member.
func (p *printer) mind() {
	if !p.oneLine {
		p.indent()
	}
}

func (p *printer) doc(d []string) {
	if len(d) == 0 {
		return
	}
	p.afterDoc = true
	for _, l := range d {
		if !strings.HasPrefix(l, "/*") {
			p.w(strings.Repeat("    ", p.depth))
		}
		p.w(DocSource(l) + "\n")
	}
}

// DocSource is a documentation entry as it is written: the text of a line comment, or a comment as it stands when it
// starts with a NUL or a comment mark.
func DocSource(l string) string {
	switch {
	case l == "":
		return "//"
	case l[0] == 0:
		return l[1:]
	case strings.HasPrefix(l, "/*"):
		return l
	}
	return "// " + l
}

// Literal is an annotation value as it is written: in quotes, or in back quotes when it starts with a NUL.
func Literal(v string) string {
	if v != "" && v[0] == 0 {
		return "`" + v[1:] + "`"
	}
	return `"` + v + `"`
}

// Meaning is the text an annotation value stands for.
func Meaning(v string) string {
	s, err := strconv.Unquote(Literal(v))
	if err != nil {
		return v
	}
	return s
}

func (p *printer) tags(ts []Tag, key string) {
	for ti, t := range ts {
		tk := fmt.Sprintf("%s.t%d", key, ti)
		p.mark(tk)
		p.indent()
		p.w("[")
		p.brk0()
		p.w(t.Name)
		p.sp(false)
		p.w(":")
		for i, kv := range t.KV {
			if i > 0 {
				if p.l.r != nil && p.l.r.P(20) {
					p.w("\n")
				} else {
					p.sp(false)
					p.w(";")
				}
				p.brk()
			} else {
				p.brk0()
			}
			p.mark(fmt.Sprintf("%s.k%d", tk, i))
			p.w(kv.K)
			p.sp(false)
			p.w("=")
			p.brk0()
			for j, v := range kv.V {
				if j > 0 {
					p.sp(false)
					p.w(",")
					p.brk()
				}
				p.mark(fmt.Sprintf("%s.k%d.v%d", tk, i, j))
				p.w(Literal(v))
				p.markEnd(fmt.Sprintf("%s.k%d.v%d", tk, i, j))
			}
			p.markEnd(fmt.Sprintf("%s.k%d", tk, i))
		}
		p.sp(false)
		p.w("]")
		p.markEnd(tk)
		p.nl(true)
	}
}

func (p *printer) typ(t Type, mk string) {
	p.mark(mk + ".type")
	p.w(t.Name)
	if t.Null {
		p.sp(false)
		p.w("?")
	}
	switch t.Shape {
	case "array":
		p.sp(false)
		p.w("[")
		p.brk0()
		p.w("]")
	case "map":
		p.sp(false)
		p.w("<")
		p.brk0()
		p.mark(mk + ".key")
		if t.KeyRaw != "" {
			p.w(t.KeyRaw)
		} else {
			p.w(t.Key)
		}
		p.sp(false)
		p.w(">")
	default:
		return
	}
	if t.ONull {
		p.sp(false)
		p.w("?")
	}
}

func (p *printer) id(s string, mk string) {
	p.csp()
	p.w("=")
	p.brk()
	p.mark(mk + ".id")
	p.w(s)
}

func (p *printer) parents(d *Decl) {
	for i, q := range d.Parents {
		if i == 0 {
			p.csp()
			p.w(":")
		} else {
			p.sp(false)
			p.w(",")
		}
		p.brk()
		p.mark(fmt.Sprintf("d%d.p%d", p.di, i))
		p.w(q.Name)
		p.id(q.ID, fmt.Sprintf("d%d.p%d", p.di, i))
	}
}

// after separates a type from the name that follows.
func (p *printer) after(t Type) {
	if t.ONull || t.Shape == "" && t.Null { // ends with a question mark, after which the line may end
		if p.l.r != nil && p.l.Breaks && p.l.r.P(15) {
			p.w("\n")
			return
		}
	}
	p.sp(true)
}

// oneLiner tells whether the whole declaration body may be put on one line.
func (d *Decl) oneLiner() bool {
	for _, x := range d.Items {
		if len(x.Doc)+len(x.Tags) > 0 {
			return false
		}
	}
	for _, x := range d.Fields {
		if len(x.Doc)+len(x.Tags) > 0 {
			return false
		}
	}
	for _, x := range d.Methods {
		if len(x.Doc)+len(x.Tags) > 0 {
			return false
		}
	}
	return true
}

func (p *printer) end(last bool) {
	if !p.oneLine {
		p.nl(true)
		return
	}
	if !last || p.l.r.Bool() {
		p.w(";")
	}
	p.sp(false)
}

func (p *printer) decl(d *Decl) {
	dk := fmt.Sprintf("d%d", p.di)
	p.doc(d.Doc)
	p.tags(d.Tags, dk)
	p.mark(dk)
	if len(d.Tags) == 0 && len(d.Doc) > 0 {
		p.afterDoc = false
	}
	p.oneLine = p.l.r != nil && d.oneLiner() && p.l.r.P(20)
	p.w(d.Kind)
	if p.l.r != nil && p.l.Breaks && p.l.r.P(15) {
		p.w("\n")
	} else {
		p.sp(true)
	}
	p.mark(dk)
	p.w(d.Name)
	if d.Kind != Enum {
		p.parents(d)
	}
	p.csp()
	p.w("{")
	if p.oneLine {
		p.sp(false)
	} else {
		p.nl(false)
	}
	p.depth++
	switch d.Kind {
	case Enum:
		for i, it := range d.Items {
			p.doc(it.Doc)
			mk := fmt.Sprintf("%s.m%d", dk, i)
			p.tags(it.Tags, mk)
			p.mark(mk)
			p.mind()
			p.mark(mk + ".name")
			p.w(it.Name)
			p.id(it.ID, mk)
			p.end(i == len(d.Items)-1)
		}
	case Data:
		for i, f := range d.Fields {
			p.doc(f.Doc)
			mk := fmt.Sprintf("%s.m%d", dk, i)
			p.tags(f.Tags, mk)
			p.mark(mk)
			p.mind()
			p.typ(f.Type, mk)
			p.after(f.Type)
			p.mark(mk + ".name")
			p.w(f.Name)
			p.id(f.ID, mk)
			p.end(i == len(d.Fields)-1)
		}
	case Server:
		for i, m := range d.Methods {
			p.doc(m.Doc)
			mk := fmt.Sprintf("%s.m%d", dk, i)
			p.tags(m.Tags, mk)
			p.mark(mk)
			p.mind()
			p.mark(mk + ".type")
			p.w(m.Result)
			p.sp(true)
			p.mark(mk + ".name")
			p.w(m.Name)
			p.sp(false)
			p.w("(")
			p.brk0()
			p.mark(mk + ".param")
			p.w(m.Param)
			p.sp(true)
			p.mark(mk + ".pname")
			p.w(m.ParamName)
			p.sp(false)
			p.w(")")
			p.id(m.ID, mk)
			p.end(i == len(d.Methods)-1)
		}
	}
	p.depth--
	p.w("}")
	p.nl(true)
	if p.l.r == nil {
		p.w("\n")
	}
}

// Render gives the file's text and the lines of each marked construct.
func (f *File) Render(seed uint64) (string, map[string][2]int) {
	l := NewLayout(seed)
	p := &printer{l: l, line: 1, Marks: map[string][2]int{}}
	p.blank()
	for _, k := range f.Pkgs {
		p.w("package")
		p.sp(true)
		p.w(k.Lang)
		p.csp()
		p.w("=")
		p.brk()
		p.w(`"` + k.Value + `"`)
		p.nl(true)
	}
	for i, im := range f.Imports {
		p.mark(fmt.Sprintf("import#%d", i))
		p.w("import")
		p.sp(true)
		p.w(`"` + im + `"`)
		p.nl(true)
	}
	if l.r == nil {
		p.w("\n")
	}
	for i, d := range f.Decls {
		p.di = i
		p.decl(d)
	}
	s := p.b.String()
	if l.NoFinal {
		s = strings.TrimRight(s, "\n")
	}
	if l.CRLF {
		s = strings.ReplaceAll(s, "\n", "\r\n")
	}
	if l.BOM {
		s = "\xef\xbb\xbf" + s
	}
	return s, p.Marks
}

// FileSeed varies the layout per file.
func (p *Program) FileSeed(i int) uint64 {
	if p.Layout == 0 {
		return 0
	}
	return p.Layout*1000003 + uint64(i) + 1
}

func (p *Program) Text() string {
	s := ""
	for i, f := range p.Files {
		t, _ := f.Render(p.FileSeed(i))
		s += "=== " + f.Path + "\n" + t
	}
	return s
}
