package dartx

import (
	"strings"
)

// Type is a written type.
type Type struct {
	Name string // "" for a function type
	Args []*Type
	Null bool
	Fn   []*Param
	Ret  *Type
	Line int
}

func (t *Type) String() string {
	if t == nil {
		return "dynamic"
	}
	s := t.Name
	if t.Name == "" {
		s = t.Ret.String() + " Function"
	}
	if len(t.Args) > 0 {
		var a []string
		for _, x := range t.Args {
			a = append(a, x.String())
		}
		s += "<" + strings.Join(a, ", ") + ">"
	}
	if t.Null {
		s += "?"
	}
	return s
}

// Node is an expression or statement.
type Node struct {
	K    string // kind
	S    string // name, operator
	L    []*Node
	A, B *Node
	C    *Node
	T    *Type
	TA   []*Type
	P    []*Param
	Null bool // null-aware, or "is!"
	Line int
	V    Value
	dbl  bool // a whole number where a double is expected
	Str  []part
	Fn   *Func
	N    []string // names of arguments ("" positional)
}

type Param struct {
	Name     string
	T        *Type
	This     bool
	Named    bool
	Optional bool // in [] or {} and not required
	Required bool
	Def      *Node
}

// Func is a function, method, getter, setter, constructor or closure.
type Func struct {
	Name   string
	Kind   string // "", "get", "set", "ctor", "factory", "operator"
	Static bool
	Ret    *Type
	Params []*Param
	Body   *Node // nil: abstract
	Expr   bool  // body is an expression
	Async  bool
	Super  []*Node // arguments of the super constructor
	Line   int
	Class  *Class
	Docs   []string

	file *File
}

type Field struct {
	Name   string
	T      *Type
	Static bool
	Final  bool
	Const  bool
	Init   *Node
	Line   int
	Class  *Class
	Docs   []string
}

type Class struct {
	Name     string
	Abstract bool
	Extends  *Type
	Impl     []*Type
	Fields   []*Field
	Funcs    []*Func
	File     *File
	Line     int
	Docs     []string

	statics map[string]Value
	busy    map[string]bool
}

type File struct {
	Name    string
	Imports []string
	Classes []*Class
	Funcs   []*Func
	Vars    []*Field
	lib     *Program
}

type parser struct {
	t []token
	i int
}

// Parse reads a file.
func Parse(name, src string) (f *File, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Error)
			if !ok {
				panic(r)
			}
			err = e
		}
	}()
	p := &parser{t: lex(src, 1)}
	f = &File{Name: name}
	for p.isId("import") {
		p.i++
		f.Imports = append(f.Imports, p.plainString())
		p.want(";")
	}
	for p.cur().kind != tEOF {
		p.top(f)
	}
	return f, nil
}

func (p *parser) cur() token { return p.t[p.i] }
func (p *parser) at(k int) token {
	if p.i+k >= len(p.t) {
		return p.t[len(p.t)-1]
	}
	return p.t[p.i+k]
}
func (p *parser) is(op string) bool       { return p.cur().kind == tOp && p.cur().text == op }
func (p *parser) isId(s string) bool      { return p.cur().kind == tIdent && p.cur().text == s }
func (p *parser) fail(f string, a ...any) { fail(p.cur().line, f, a...) }
func (p *parser) what() string {
	switch c := p.cur(); c.kind {
	case tEOF:
		return "the end of the file"
	case tString:
		return "a string"
	default:
		return "'" + c.text + "'"
	}
}
func (p *parser) accept(op string) bool {
	if p.is(op) {
		p.i++
		return true
	}
	return false
}
func (p *parser) want(op string) {
	if !p.accept(op) {
		p.fail("expected '%s' before %s", op, p.what())
	}
}

var reserved = map[string]bool{}

func init() {
	for _, s := range strings.Fields("assert break case catch class const continue default do else enum extends false final finally for if in is new null rethrow return super switch this throw true try var void while with") {
		reserved[s] = true
	}
}

func (p *parser) ident() string {
	c := p.cur()
	if c.kind != tIdent {
		p.fail("expected a name before %s", p.what())
	}
	if reserved[c.text] {
		p.fail("the reserved word %s is used as a name", c.text)
	}
	p.i++
	return c.text
}

func (p *parser) plainString() string {
	c := p.cur()
	if c.kind != tString || len(c.parts) != 1 || c.parts[0].toks != nil {
		p.fail("expected a string before %s", p.what())
	}
	p.i++
	return c.parts[0].text
}

// try runs f and goes back if it fails.
func (p *parser) try(f func() bool) (ok bool) {
	i := p.i
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*Error); !is {
				panic(r)
			}
			ok = false
		}
		if !ok {
			p.i = i
		}
	}()
	return f()
}

func (p *parser) typ() *Type {
	t := &Type{Line: p.cur().line}
	if p.isId("void") {
		p.i++
		t.Name = "void"
	} else if p.isId("Function") && p.at(1).kind == tOp && p.at(1).text == "(" {
		t.Name, t.Ret = "", nil
		p.i++
		t.Fn = p.params()
		if t.Fn == nil {
			t.Fn = []*Param{}
		}
	} else {
		t.Name = p.ident()
		if p.accept(".") {
			t.Name += "." + p.ident()
		}
		if p.is("<") {
			t.Args = p.targs()
		}
	}
	if p.accept("?") {
		t.Null = true
	}
	for p.isId("Function") && p.at(1).kind == tOp && p.at(1).text == "(" {
		p.i++
		r := t
		t = &Type{Ret: r, Line: r.Line, Fn: p.params()}
		if t.Fn == nil {
			t.Fn = []*Param{}
		}
		if p.accept("?") {
			t.Null = true
		}
	}
	return t
}

func (p *parser) targs() []*Type {
	p.want("<")
	var o []*Type
	for {
		o = append(o, p.typ())
		if !p.accept(",") {
			break
		}
	}
	p.want(">")
	return o
}

// params reads a parameter list, with names optional for function types.
func (p *parser) params() []*Param {
	p.want("(")
	var o []*Param
	for !p.is(")") {
		switch {
		case p.accept("{"):
			if p.is("}") {
				p.fail("an empty list of named parameters")
			}
			for !p.is("}") {
				x := &Param{Named: true, Optional: true}
				if p.isId("required") && p.at(1).kind == tIdent {
					p.i++
					x.Required, x.Optional = true, false
				}
				p.param(x)
				o = append(o, x)
				if !p.accept(",") {
					break
				}
			}
			p.want("}")
			p.accept(",")
			if !p.is(")") {
				p.fail("expected ')' before %s", p.what())
			}
			continue
		case p.accept("["):
			if p.is("]") {
				p.fail("an empty list of optional parameters")
			}
			for !p.is("]") {
				x := &Param{Optional: true}
				p.param(x)
				o = append(o, x)
				if !p.accept(",") {
					break
				}
			}
			p.want("]")
			p.accept(",")
			if !p.is(")") {
				p.fail("expected ')' before %s", p.what())
			}
			continue
		}
		x := &Param{}
		p.param(x)
		o = append(o, x)
		if !p.accept(",") {
			break
		}
	}
	p.want(")")
	return o
}

func (p *parser) param(x *Param) {
	p.metas()
	for p.isId("final") || p.isId("var") || p.isId("covariant") {
		p.i++
	}
	if p.isId("this") {
		p.i++
		p.want(".")
		x.This, x.Name = true, p.ident()
	} else {
		if !p.try(func() bool {
			t := p.typ()
			if p.cur().kind != tIdent {
				return false
			}
			x.T = t
			x.Name = p.ident()
			return true
		}) {
			if !p.try(func() bool {
				x.Name = p.ident()
				return p.is(",") || p.is(")") || p.is("}") || p.is("]") || p.is("=") || p.is(":")
			}) {
				x.T, x.Name = p.typ(), ""
			}
		} else if p.is("(") { // function-typed parameter
			ret := x.T
			x.T = &Type{Ret: ret, Fn: p.params(), Line: p.cur().line}
		}
	}
	if p.accept("=") {
		x.Def = p.expr()
	}
}

func (p *parser) metas() (docs []string) {
	docs = p.cur().docs
	for p.is("@") {
		p.i++
		p.ident()
		docs = append(docs[:len(docs):len(docs)], p.cur().docs...)
	}
	return docs
}

func (p *parser) top(f *File) {
	docs := p.metas()
	line := p.cur().line
	abs := false
	if p.isId("abstract") {
		p.i++
		abs = true
	}
	if p.isId("class") {
		p.i++
		c := &Class{Abstract: abs, File: f, Line: line, Docs: docs}
		c.Name = p.ident()
		if p.isId("extends") {
			p.i++
			c.Extends = p.typ()
		}
		if p.isId("implements") {
			p.i++
			for {
				c.Impl = append(c.Impl, p.typ())
				if !p.accept(",") {
					break
				}
			}
		}
		p.want("{")
		for !p.is("}") {
			p.member(c)
		}
		p.want("}")
		f.Classes = append(f.Classes, c)
		return
	}
	if abs {
		p.fail("expected a class before %s", p.what())
	}
	final, cnst := false, false
	for {
		if p.isId("final") || p.isId("var") || p.isId("late") {
			final = true
			p.i++
			continue
		}
		if p.isId("const") {
			final, cnst = true, true
			p.i++
			continue
		}
		break
	}
	var t *Type
	if !(p.cur().kind == tIdent && p.at(1).kind == tOp && (p.at(1).text == "=" || p.at(1).text == "(")) {
		t = p.typ()
	}
	if p.isId("get") {
		p.i++
		fn := &Func{Name: p.ident(), Kind: "get", Ret: t, Line: line, Docs: docs, file: f, Static: true}
		p.body(fn)
		f.Funcs = append(f.Funcs, fn)
		return
	}
	name := p.ident()
	if p.is("(") && !final {
		fn := &Func{Name: name, Ret: t, Line: line, Docs: docs, file: f, Static: true}
		fn.Params = p.params()
		p.body(fn)
		if fn.Body == nil {
			p.fail("the function %s has no body", name)
		}
		f.Funcs = append(f.Funcs, fn)
		return
	}
	if t == nil && !final {
		p.fail("unexpected %s", p.what())
	}
	v := &Field{Name: name, T: t, Static: true, Final: final, Const: cnst, Line: line, Docs: docs}
	if p.accept("=") {
		v.Init = p.expr()
	}
	p.want(";")
	f.Vars = append(f.Vars, v)
}

func (p *parser) body(f *Func) {
	if p.isId("async") {
		p.i++
		f.Async = true
		p.accept("*")
	}
	switch {
	case p.accept("=>"):
		f.Body, f.Expr = p.expr(), true
		p.want(";")
	case p.is("{"):
		f.Body = p.block()
	default:
		p.want(";")
	}
}

func (p *parser) member(c *Class) {
	docs := p.metas()
	line := p.cur().line
	static, final, cnst, factory, late, external := false, false, false, false, false, false
	for p.cur().kind == tIdent {
		n := p.at(1)
		if n.kind == tOp && n.text != "<" && p.cur().text != "final" && p.cur().text != "const" { // a name
			break
		}
		switch p.cur().text {
		case "static":
			static = true
		case "final", "var":
			final = final || p.cur().text == "final"
		case "const":
			cnst = true
		case "late":
			late = true
		case "factory":
			factory = true
		case "external":
			external = true
		default:
			goto done
		}
		p.i++
	}
done:
	_, _ = late, external
	fn := &Func{Class: c, Static: static, Line: line, Docs: docs, file: c.File}
	// constructor
	if p.isId(c.Name) && p.at(1).kind == tOp && (p.at(1).text == "(" || p.at(1).text == "." && p.at(3).kind == tOp && p.at(3).text == "(") {
		p.i++
		fn.Kind = "ctor"
		if factory {
			fn.Kind = "factory"
		}
		if p.accept(".") {
			fn.Name = p.ident()
		}
		fn.Params = p.params()
		if p.accept(":") {
			for {
				if p.isId("super") {
					p.i++
					n := &Node{K: "args", Line: p.cur().line}
					p.args(n)
					fn.Super = n.L
				} else {
					if p.isId("this") {
						p.i++
						p.want(".")
					}
					name := p.ident()
					p.want("=")
					e := p.expr()
					fn.Super = append(fn.Super, &Node{K: "init", S: name, A: e, Line: line})
				}
				if !p.accept(",") {
					break
				}
			}
		}
		p.body(fn)
		if fn.Body == nil && factory {
			p.fail("a factory constructor has no body")
		}
		c.Funcs = append(c.Funcs, fn)
		return
	}
	if factory {
		p.fail("a factory constructor is not named like its class %s", c.Name)
	}
	var t *Type
	next := p.at(1)
	plainName := p.cur().kind == tIdent && next.kind == tOp && (next.text == "=" || next.text == ";" || next.text == "(")
	if p.isId("Function") && next.kind == tOp && next.text == "(" { // a function type, if a name follows
		d, k := 0, p.i+1
		for ; k < len(p.t)-1; k++ {
			if p.t[k].kind == tOp && p.t[k].text == "(" {
				d++
			} else if p.t[k].kind == tOp && p.t[k].text == ")" {
				if d--; d == 0 {
					k++
					break
				}
			}
		}
		plainName = !(p.t[k].kind == tIdent || p.t[k].kind == tOp && p.t[k].text == "?")
	}
	if !plainName && !((p.isId("get") || p.isId("set") || p.isId("operator")) && (next.kind == tIdent || p.isId("operator"))) {
		t = p.typ()
	}
	switch {
	case p.isId("get") && p.at(1).kind == tIdent:
		p.i++
		fn.Kind, fn.Name, fn.Ret = "get", p.ident(), t
		p.body(fn)
		c.Funcs = append(c.Funcs, fn)
		return
	case p.isId("set") && p.at(1).kind == tIdent:
		p.i++
		fn.Kind, fn.Name, fn.Ret = "set", p.ident(), t
		fn.Params = p.params()
		if len(fn.Params) != 1 {
			p.fail("a setter has %d parameters", len(fn.Params))
		}
		p.body(fn)
		c.Funcs = append(c.Funcs, fn)
		return
	case p.isId("operator") && p.at(1).kind == tOp:
		p.i++
		fn.Kind, fn.Ret, fn.Name = "operator", t, p.cur().text
		p.i++
		fn.Params = p.params()
		p.body(fn)
		c.Funcs = append(c.Funcs, fn)
		return
	}
	name := p.ident()
	if p.is("(") {
		fn.Name, fn.Ret = name, t
		fn.Params = p.params()
		p.body(fn)
		c.Funcs = append(c.Funcs, fn)
		return
	}
	if t == nil && !final && !cnst && !static {
		p.fail("unexpected %s", p.what())
	}
	for {
		fd := &Field{Name: name, T: t, Static: static, Final: final || cnst, Const: cnst, Line: line, Class: c, Docs: docs}
		if p.accept("=") {
			fd.Init = p.expr()
		}
		c.Fields = append(c.Fields, fd)
		if !p.accept(",") {
			break
		}
		name = p.ident()
	}
	p.want(";")
}

// ---- statements

func (p *parser) block() *Node {
	n := &Node{K: "block", Line: p.cur().line}
	p.want("{")
	for !p.is("}") {
		if p.cur().kind == tEOF {
			p.fail("expected '}' before %s", p.what())
		}
		n.L = append(n.L, p.stmt())
	}
	p.want("}")
	return n
}

func (p *parser) stmt() *Node {
	line := p.cur().line
	c := p.cur()
	if c.kind == tOp {
		switch c.text {
		case "{":
			return p.block()
		case ";":
			p.i++
			return &Node{K: "empty", Line: line}
		}
	}
	if c.kind == tIdent {
		switch c.text {
		case "return":
			p.i++
			n := &Node{K: "return", Line: line}
			if !p.is(";") {
				n.A = p.expr()
			}
			p.want(";")
			return n
		case "if":
			p.i++
			n := &Node{K: "if", Line: line}
			p.want("(")
			n.A = p.expr()
			p.want(")")
			n.B = p.stmt()
			if p.isId("else") {
				p.i++
				n.C = p.stmt()
			}
			return n
		case "for":
			p.i++
			p.want("(")
			n := &Node{K: "forin", Line: line}
			if p.isId("var") || p.isId("final") {
				p.i++
			} else {
				n.T = p.typ()
			}
			n.S = p.ident()
			if !p.isId("in") {
				p.fail("expected 'in' before %s", p.what())
			}
			p.i++
			n.A = p.expr()
			p.want(")")
			n.B = p.stmt()
			return n
		case "while":
			p.i++
			n := &Node{K: "while", Line: line}
			p.want("(")
			n.A = p.expr()
			p.want(")")
			n.B = p.stmt()
			return n
		case "switch":
			p.i++
			n := &Node{K: "switch", Line: line}
			p.want("(")
			n.A = p.expr()
			p.want(")")
			p.want("{")
			for !p.is("}") {
				k := &Node{K: "case", Line: p.cur().line}
				if p.isId("default") {
					p.i++
				} else if p.isId("case") {
					p.i++
					k.A = p.expr()
				} else {
					p.fail("expected a case before %s", p.what())
				}
				p.want(":")
				for !p.is("}") && !p.isId("case") && !p.isId("default") {
					k.L = append(k.L, p.stmt())
				}
				n.L = append(n.L, k)
			}
			p.want("}")
			return n
		case "throw":
			p.i++
			n := &Node{K: "throw", A: p.expr(), Line: line}
			p.want(";")
			return n
		case "break", "continue":
			p.i++
			p.want(";")
			return &Node{K: c.text, Line: line}
		case "var", "final", "const":
			p.i++
			n := &Node{K: "var", Line: line, Null: c.text != "var"}
			if !(p.cur().kind == tIdent && p.at(1).kind == tOp && (p.at(1).text == "=" || p.at(1).text == ";" || p.at(1).text == ",")) {
				n.T = p.typ()
			}
			p.vars(n)
			return n
		}
		// a typed local variable
		var n *Node
		if p.try(func() bool {
			t := p.typ()
			if p.cur().kind != tIdent || reserved[p.cur().text] {
				return false
			}
			if x := p.at(1); x.kind != tOp || x.text != "=" && x.text != ";" && x.text != "," {
				return false
			}
			n = &Node{K: "var", T: t, Line: line}
			return true
		}) {
			p.vars(n)
			return n
		}
	}
	n := &Node{K: "expr", A: p.expr(), Line: line}
	p.want(";")
	return n
}

func (p *parser) vars(n *Node) {
	for {
		v := &Node{K: "decl", S: p.ident(), T: n.T, Line: p.cur().line}
		if p.accept("=") {
			v.A = p.expr()
		}
		n.L = append(n.L, v)
		if !p.accept(",") {
			break
		}
	}
	p.want(";")
}

// ---- expressions

func (p *parser) expr() *Node {
	if p.isId("throw") {
		l := p.cur().line
		p.i++
		return &Node{K: "throw", A: p.expr(), Line: l}
	}
	e := p.cond()
	for p.is("..") || p.is("?..") {
		p.fail("cascades are not used")
	}
	c := p.cur()
	if c.kind == tOp {
		switch c.text {
		case "=", "??=", "+=", "-=", "*=", "/=", "|=", "&=", "^=":
			switch e.K {
			case "id", "get", "index":
			default:
				p.fail("this expression cannot be assigned to")
			}
			p.i++
			return &Node{K: "assign", S: c.text, A: e, B: p.expr(), Line: c.line}
		}
	}
	return e
}

func (p *parser) cond() *Node {
	e := p.binary(0)
	if p.is("?") {
		n := &Node{K: "cond", A: e, Line: p.cur().line}
		p.i++
		n.B = p.exprNoComma()
		p.want(":")
		n.C = p.exprNoComma()
		return n
	}
	return e
}

func (p *parser) exprNoComma() *Node { return p.expr() }

var levels = [][]string{{"??"}, {"||"}, {"&&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"|"}, {"^"}, {"&"}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%", "~/"}}

func (p *parser) binop(ops []string) string {
	c := p.cur()
	if c.kind != tOp {
		return ""
	}
	s, n := c.text, 1
	if s == ">" && p.at(1).kind == tOp && p.at(1).glue {
		switch p.at(1).text {
		case ">":
			s, n = ">>", 2
		case "=":
			s, n = ">=", 2
		case "==":
			return ""
		}
	}
	for _, o := range ops {
		if o == s {
			p.i += n
			return s
		}
	}
	return ""
}

func (p *parser) binary(lv int) *Node {
	if lv == len(levels) {
		return p.unary()
	}
	e := p.binary(lv + 1)
	if lv == 4 { // relational: type tests, not associative
		if p.isId("is") {
			n := &Node{K: "is", A: e, Line: p.cur().line}
			p.i++
			n.Null = p.accept("!")
			n.T = p.testType()
			return n
		}
		if p.isId("as") {
			n := &Node{K: "as", A: e, Line: p.cur().line}
			p.i++
			n.T = p.testType()
			return n
		}
	}
	seen := false
	for {
		line := p.cur().line
		op := p.binop(levels[lv])
		if op == "" {
			return e
		}
		if seen && (lv == 3 || lv == 4) {
			fail(line, "comparisons cannot be chained")
		}
		seen = true
		e = &Node{K: "bin", S: op, A: e, B: p.binary(lv + 1), Line: line}
	}
}

// testType reads the type after is or as, where a question mark may begin a conditional.
func (p *parser) testType() *Type {
	t := &Type{Line: p.cur().line, Name: p.ident()}
	if p.accept(".") {
		t.Name += "." + p.ident()
	}
	if p.is("<") {
		t.Args = p.targs()
	}
	if p.is("?") {
		n := p.at(1)
		if n.kind == tOp && (n.text == ")" || n.text == "," || n.text == ";" || n.text == "]" || n.text == "}" || n.text == "&&" || n.text == "||") {
			p.i++
			t.Null = true
		}
	}
	return t
}

func (p *parser) unary() *Node {
	c := p.cur()
	if c.kind == tOp {
		switch c.text {
		case "-", "!", "~", "++", "--":
			p.i++
			return &Node{K: "un", S: c.text, A: p.unary(), Line: c.line}
		}
	}
	if p.isId("await") {
		p.i++
		return &Node{K: "await", A: p.unary(), Line: c.line}
	}
	return p.postfix(p.primary())
}

func (p *parser) postfix(e *Node) *Node {
	for {
		c := p.cur()
		if c.kind != tOp {
			return e
		}
		switch c.text {
		case ".", "?.":
			p.i++
			e = &Node{K: "get", A: e, S: p.member1(), Null: c.text == "?.", Line: c.line}
		case "!":
			if n := p.at(1); n.kind == tOp && n.text == "=" && n.glue {
				return e
			}
			p.i++
			e = &Node{K: "bang", A: e, Line: c.line}
		case "[", "?[":
			p.i++
			e = &Node{K: "index", A: e, B: p.expr(), Null: c.text == "?[", Line: c.line}
			p.want("]")
		case "(":
			n := &Node{K: "call", A: e, Line: c.line}
			p.args(n)
			e = n
		case "<":
			// type arguments of a call
			n := &Node{K: "call", A: e, Line: c.line}
			if (e.K == "id" || e.K == "get") && p.try(func() bool {
				n.TA = p.targs()
				return p.is("(")
			}) {
				p.args(n)
				e = n
				continue
			}
			return e
		case "++", "--":
			p.i++
			e = &Node{K: "post", S: c.text, A: e, Line: c.line}
		default:
			return e
		}
	}
}

func (p *parser) member1() string {
	if p.isId("new") {
		p.i++
		return "new"
	}
	return p.ident()
}

func (p *parser) args(n *Node) {
	p.want("(")
	for !p.is(")") {
		name := ""
		if p.cur().kind == tIdent && p.at(1).kind == tOp && p.at(1).text == ":" {
			name = p.ident()
			p.i++
		} else {
			for _, x := range n.N {
				if x != "" {
					p.fail("a positional argument follows named ones")
				}
			}
		}
		n.L = append(n.L, p.expr())
		n.N = append(n.N, name)
		if !p.accept(",") {
			break
		}
	}
	p.want(")")
}

func (p *parser) isLambda() bool {
	d := 0
	for k := p.i; k < len(p.t); k++ {
		t := p.t[k]
		if t.kind == tEOF {
			return false
		}
		if t.kind != tOp {
			continue
		}
		switch t.text {
		case "(", "[", "{", "?[":
			d++
		case ")", "]", "}":
			d--
			if d == 0 {
				n := p.t[k+1]
				return n.kind == tOp && (n.text == "=>" || n.text == "{") || n.kind == tIdent && n.text == "async"
			}
		}
	}
	return false
}

func (p *parser) lambda() *Node {
	f := &Func{Line: p.cur().line, Params: p.params()}
	if p.isId("async") {
		p.i++
		f.Async = true
	}
	if p.accept("=>") {
		f.Body, f.Expr = p.expr(), true
	} else {
		f.Body = p.block()
	}
	return &Node{K: "fn", Fn: f, Line: f.Line}
}

func (p *parser) primary() *Node {
	c := p.cur()
	n := &Node{Line: c.line}
	switch c.kind {
	case tInt, tDouble:
		p.i++
		n.K, n.V = "lit", numLit(c)
		return n
	case tString:
		n.K = "str"
		for p.cur().kind == tString { // adjacent literals
			for _, q := range p.cur().parts {
				if q.toks != nil {
					sub := &parser{t: q.toks}
					q.expr = sub.expr()
					if sub.cur().kind != tEOF {
						sub.fail("unexpected %s in an interpolation", sub.what())
					}
				}
				n.Str = append(n.Str, q)
			}
			p.i++
		}
		return n
	case tOp:
		switch c.text {
		case "(":
			if p.isLambda() {
				return p.lambda()
			}
			p.i++
			n.K, n.A = "paren", p.expr()
			p.want(")")
			return n
		case "[", "{", "<":
			return p.collection()
		}
	case tIdent:
		switch c.text {
		case "true", "false":
			p.i++
			n.K, n.V = "lit", c.text == "true"
			return n
		case "null":
			p.i++
			n.K = "lit"
			return n
		case "this":
			p.i++
			n.K = "this"
			return n
		case "super":
			p.i++
			n.K = "super"
			return n
		case "const", "new":
			p.i++
			if p.is("[") || p.is("{") || p.is("<") {
				e := p.collection()
				e.Null = true
				return e
			}
			e := p.postfix(p.primary())
			if e.K != "call" {
				p.fail("expected a constructor after %s", c.text)
			}
			return e
		}
		n.K, n.S = "id", p.ident()
		return n
	}
	p.fail("expected an expression before %s", p.what())
	return nil
}

func (p *parser) collection() *Node {
	n := &Node{K: "list", Line: p.cur().line}
	if p.is("<") {
		n.TA = p.targs()
	}
	end := "]"
	if p.accept("{") {
		end = "}"
		n.K = "set"
		if len(n.TA) != 1 {
			n.K = "map"
		}
	} else {
		p.want("[")
	}
	for !p.is(end) {
		n.L = append(n.L, p.element(n))
		if !p.accept(",") {
			break
		}
	}
	p.want(end)
	return n
}

func (p *parser) element(n *Node) *Node {
	line := p.cur().line
	switch {
	case p.isId("if"):
		p.i++
		e := &Node{K: "if", Line: line}
		p.want("(")
		e.A = p.expr()
		p.want(")")
		e.B = p.element(n)
		if p.isId("else") {
			p.i++
			e.C = p.element(n)
		}
		return e
	case p.isId("for"):
		p.i++
		e := &Node{K: "forin", Line: line}
		p.want("(")
		if p.isId("var") || p.isId("final") {
			p.i++
		} else {
			e.T = p.typ()
		}
		e.S = p.ident()
		if !p.isId("in") {
			p.fail("expected 'in' before %s", p.what())
		}
		p.i++
		e.A = p.expr()
		p.want(")")
		e.B = p.element(n)
		return e
	case p.is("...") || p.is("...?"):
		e := &Node{K: "spread", Line: line, Null: p.is("...?")}
		p.i++
		e.A = p.expr()
		return e
	}
	e := p.expr()
	if p.accept(":") {
		if n.K == "list" || n.K == "set" && len(n.TA) == 1 {
			p.fail("a list or set has keys")
		}
		return &Node{K: "entry", A: e, B: p.expr(), Line: line}
	}
	if n.K == "map" {
		if len(n.TA) == 2 || len(n.L) > 0 {
			p.fail("expected ':' before %s", p.what())
		}
		n.K = "set"
	}
	return e
}
