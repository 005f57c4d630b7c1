package dartx

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf16"
)

// Value is a value of a running program: nil, bool, int64, float64, string, or one of the types below.
type Value = any

type List struct {
	V     []Value
	Const bool // cannot be changed
	Set   bool
}

// Map keeps the order of its entries.
type Map struct {
	K, V []Value
	idx  map[any]int
}

// Obj is an object of a class of the program.
type Obj struct {
	C *Class
	F map[string]Value
}

// Closure is a function value.
type Closure struct {
	f    *Func
	env  *env
	this *Obj
	cls  *Class
	file *File
}
type Native struct {
	Name string
	F    func(in *Interp, args []Value, named map[string]Value) Value
}
type ClassRef struct{ C *Class }
type ExtRef struct{ Name string }
type Int64 int64
type Decimal struct{ R *big.Rat }
type Date int64 // milliseconds
type Regexp struct{ re *regexp.Regexp }
type Entry struct{ K, V Value }

// Ext is an object of a library: properties that can be read and set.
type Ext struct {
	Name string
	A    []Value
	P    map[string]Value
}

// Thrown is what an uncaught exception of the program looks like from outside.
type Thrown struct{ V Value }

func (t *Thrown) Error() string { return fmt.Sprint(t.V) }

func throw(f string, a ...any) { panic(&Thrown{fmt.Sprintf(f, a...)}) }

type env struct {
	up *env
	n  []string
	v  []Value
	t  []*Type
}

func (e *env) find(n string) (*env, int) {
	for ; e != nil; e = e.up {
		for i := len(e.n) - 1; i >= 0; i-- {
			if e.n[i] == n {
				return e, i
			}
		}
	}
	return nil, 0
}

func (e *env) set(n string, v Value, t *Type) {
	e.n, e.v, e.t = append(e.n, n), append(e.v, v), append(e.t, t)
}

// Interp runs a program.
type Interp struct {
	P      *Program
	Locale string
	// Invoke stands for the transport of a client: it gets the path, the number and the encoded request.
	Invoke func(path string, id int64, req string) (string, error)
	Tests  map[string]bool // named conditions that came out true and false, unused
	steps  int
}

type frame struct {
	in   *Interp
	file *File
	cls  *Class
	this *Obj
	env  *env
	ret  Value
	rt   *Type
}

type ctl int

const (
	cNext ctl = iota
	cReturn
	cBreak
	cContinue
)

func numLit(t token) Value {
	s := t.text
	if t.kind == tInt {
		if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
			n, err := strconv.ParseUint(s[2:], 16, 64)
			if err != nil {
				fail(t.line, "the number %s is too large", s)
			}
			return int64(n)
		}
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			if s == "9223372036854775808" { // only with a minus sign
				return int64(math.MinInt64)
			}
			fail(t.line, "the number %s is too large", s)
		}
		return n
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		fail(t.line, "bad number %s", s)
	}
	return f
}

// ---- maps

func hkey(v Value) any {
	switch x := v.(type) {
	case nil:
		return "null"
	case string:
		return "s" + x
	case float64:
		if x == math.Trunc(x) && math.Abs(x) < 1e15 {
			return int64(x)
		}
		return x
	case int64, bool, Int64, Date:
		return x
	case Decimal:
		return "d" + x.R.RatString()
	case *ClassRef:
		return x.C
	case ExtRef:
		return x
	}
	return nil
}

func (in *Interp) mapGet(m *Map, k Value) (int, bool) {
	if h := hkey(k); h != nil {
		i, ok := m.idx[h]
		return i, ok
	}
	for i, q := range m.K {
		if in.equal(q, k) {
			return i, true
		}
	}
	return 0, false
}

func (in *Interp) MapSet(m *Map, k, v Value) {
	if i, ok := in.mapGet(m, k); ok {
		m.V[i] = v
		return
	}
	if h := hkey(k); h != nil {
		if m.idx == nil {
			m.idx = map[any]int{}
		}
		m.idx[h] = len(m.K)
	}
	m.K, m.V = append(m.K, k), append(m.V, v)
}

// ---- equality and text

func (in *Interp) equal(a, b Value) bool {
	if b == nil { // the operator is not called
		return a == nil
	}
	switch x := a.(type) {
	case nil:
		return b == nil
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case float64:
			return float64(x) == y
		case Int64:
			return false
		}
		return false
	case float64:
		switch y := b.(type) {
		case int64:
			return x == float64(y)
		case float64:
			return x == y
		}
		return false
	case Int64:
		switch y := b.(type) {
		case Int64:
			return x == y
		case int64:
			return int64(x) == y
		}
		return false
	case bool, string, Date:
		return a == b
	case Decimal:
		y, ok := b.(Decimal)
		return ok && x.R.Cmp(y.R) == 0
	case *ClassRef:
		y, ok := b.(*ClassRef)
		return ok && x.C == y.C
	case ExtRef:
		return a == b
	case *Obj:
		if m := in.P.find(x.C, "==", false, false, 0); m != nil && m.fn != nil && m.fn.Body != nil {
			r := in.callFunc(m.fn, x, nil, []Value{b}, nil)
			t, ok := r.(bool)
			return ok && t
		}
		y, ok := b.(*Obj)
		return ok && x == y
	}
	return a == b
}

func same(a, b Value) bool {
	switch x := a.(type) {
	case Decimal:
		y, ok := b.(Decimal)
		return ok && x.R == y.R
	case *ClassRef:
		y, ok := b.(*ClassRef)
		return ok && x.C == y.C
	}
	switch b.(type) {
	case Decimal, *ClassRef:
		return false
	}
	return a == b
}

func doubleText(f float64) string {
	switch {
	case math.IsNaN(f):
		return "NaN"
	case math.IsInf(f, 1):
		return "Infinity"
	case math.IsInf(f, -1):
		return "-Infinity"
	case f == 0:
		if math.Signbit(f) {
			return "-0.0"
		}
		return "0.0"
	}
	a := math.Abs(f)
	if a >= 1e21 || a < 1e-6 {
		s := strconv.FormatFloat(f, 'e', -1, 64)
		// e-07 is written e-7
		i := strings.IndexByte(s, 'e')
		e, _ := strconv.Atoi(s[i+1:])
		if e < 0 {
			return s[:i] + "e" + strconv.Itoa(e)
		}
		return s[:i] + "e+" + strconv.Itoa(e)
	}
	s := strconv.FormatFloat(f, 'f', -1, 64)
	if !strings.Contains(s, ".") {
		s += ".0"
	}
	return s
}

func decText(r *big.Rat) string {
	if r.IsInt() {
		return r.Num().String()
	}
	for n := 1; n < 2000; n++ {
		s := r.FloatString(n)
		if q, _ := new(big.Rat).SetString(s); q.Cmp(r) == 0 {
			return s
		}
	}
	return r.FloatString(2000)
}

// Equal is the operator ==.
func (in *Interp) Equal(a, b Value) bool { return in.equal(a, b) }

func (in *Interp) text(v Value) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return doubleText(x)
	case string:
		return x
	case Int64:
		return strconv.FormatInt(int64(x), 10)
	case Decimal:
		return decText(x.R)
	case Date:
		return time.UnixMilli(int64(x)).UTC().Format("2006-01-02 15:04:05.000")
	case *List:
		var a []string
		for _, e := range x.V {
			a = append(a, in.text(e))
		}
		return "[" + strings.Join(a, ", ") + "]"
	case *Map:
		var a []string
		for i, k := range x.K {
			a = append(a, in.text(k)+": "+in.text(x.V[i]))
		}
		return "{" + strings.Join(a, ", ") + "}"
	case *Obj:
		if m := in.P.find(x.C, "toString", false, false, 0); m != nil && m.fn != nil && m.fn.Body != nil {
			if s, ok := in.callFunc(m.fn, x, nil, nil, nil).(string); ok {
				return s
			}
		}
		return "Instance of '" + x.C.Name + "'"
	case *ClassRef:
		return x.C.Name
	case ExtRef:
		return x.Name
	case *Ext:
		return "Instance of '" + x.Name + "'"
	}
	return fmt.Sprintf("%T", v)
}

// Text is the value of toString().
func (in *Interp) Text(v Value) string { return in.text(v) }

// Kind names the type of a value.
func Kind(v Value) string {
	switch x := v.(type) {
	case nil:
		return "Null"
	case bool:
		return "bool"
	case int64:
		return "int"
	case float64:
		return "double"
	case string:
		return "String"
	case Int64:
		return "Int64"
	case Decimal:
		return "Decimal"
	case Date:
		return "DateTime"
	case *List:
		return "List"
	case *Map:
		return "Map"
	case *Obj:
		return x.C.Name
	case *Ext:
		return x.Name
	case *Closure, *Native:
		return "Function"
	case *ClassRef, ExtRef:
		return "Type"
	case *Entry:
		return "MapEntry"
	case *Regexp:
		return "RegExp"
	}
	return fmt.Sprintf("%T", v)
}

// conforms tells whether a value may be used where a type (written in a file) is expected.
func (in *Interp) conforms(v Value, t *Type, f *File) bool {
	if t == nil || t.Name == "dynamic" || t.Name == "void" {
		return true
	}
	if v == nil {
		return t.Null || t.Name == "Null"
	}
	switch t.Name {
	case "Object":
		return true
	case "Future", "FutureOr", "SynchronousFuture":
		if len(t.Args) == 1 {
			return in.conforms(v, t.Args[0], f)
		}
		return true
	case "", "Function":
		k := Kind(v)
		return k == "Function"
	case "num":
		k := Kind(v)
		return k == "int" || k == "double"
	case "Iterable", "List", "Set":
		l, ok := v.(*List)
		if !ok {
			return false
		}
		if len(t.Args) == 1 {
			for _, e := range l.V {
				if !in.conforms(e, t.Args[0], f) {
					return false
				}
			}
		}
		return true
	case "Map":
		m, ok := v.(*Map)
		if !ok {
			return false
		}
		if len(t.Args) == 2 {
			for i := range m.K {
				if !in.conforms(m.K[i], t.Args[0], f) || !in.conforms(m.V[i], t.Args[1], f) {
					return false
				}
			}
		}
		return true
	}
	if e, _ := f.lookup(t.Name); e != nil && e.cls != nil {
		o, ok := v.(*Obj)
		return ok && in.P.subclass(o.C, e.cls, 0)
	}
	if o, ok := v.(*Obj); ok {
		return in.P.implementsExt(o.C, t.Name, 0)
	}
	if x, ok := v.(*Ext); ok { // library classes: their relations are not known
		_ = x
		return !known[t.Name]
	}
	return Kind(v) == t.Name
}

func (in *Interp) check(v Value, t *Type, f *File, what string) Value {
	if !in.conforms(v, t, f) {
		throw("type error: %s of type %s is not %s (%s)", short(in.safeText(v)), Kind(v), t, what)
	}
	return v
}

func (in *Interp) safeText(v Value) string {
	switch v.(type) {
	case *Obj, *Ext:
		return "an object"
	}
	return in.text(v)
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "..."
	}
	return s
}

// ---- calls

// Call calls a function value.
func (in *Interp) Call(f Value, args []Value, named map[string]Value) Value {
	switch x := f.(type) {
	case *Closure:
		return in.callFunc(x.f, x.this, x.env, args, named, x.cls, x.file)
	case *Native:
		return x.F(in, args, named)
	case *ClassRef:
		return in.construct(x.C, "", args, named)
	case ExtRef:
		return in.extCall(x.Name, nil, args, named)
	case nil:
		throw("null is called")
	}
	throw("a %s is called", Kind(f))
	return nil
}

func (in *Interp) callFunc(f *Func, this *Obj, e *env, args []Value, named map[string]Value, where ...any) Value {
	in.steps++
	if in.steps > 5_000_000 {
		throw("the program does not end")
	}
	fr := &frame{in: in, file: f.file, cls: f.Class, this: this, env: &env{up: e}}
	if len(where) == 2 {
		fr.cls, _ = where[0].(*Class)
		fr.file, _ = where[1].(*File)
	}
	fr.bind(f, args, named)
	return fr.run(f)
}

func (fr *frame) bind(f *Func, args []Value, named map[string]Value) {
	k := 0
	used := 0
	for _, p := range f.Params {
		var v Value
		t := p.T
		if p.This && f.Class != nil {
			for _, fd := range f.Class.Fields {
				if fd.Name == p.Name && !fd.Static {
					t = fd.T
				}
			}
		}
		switch {
		case p.Named:
			x, ok := named[p.Name]
			if ok {
				used++
				v = x
			} else if p.Def != nil {
				v = fr.eval(p.Def)
			} else if p.Required {
				throw("the argument %s is missing", p.Name)
			}
		case k < len(args):
			v = args[k]
			k++
		case !p.Optional:
			throw("%s lacks an argument", what(f))
		case p.Def != nil:
			v = fr.eval(p.Def)
		}
		if m, ok := v.(*Map); ok && t != nil && t.Name == "Set" && len(m.K) == 0 { // {} or const {}
			v = &List{Const: p.Def != nil}
		}
		fr.in.check(v, t, fr.file, "the parameter "+p.Name)
		if p.This {
			fr.this.F[p.Name] = v
		}
		fr.env.set(p.Name, v, t)
	}
	if k < len(args) || used < len(named) {
		throw("%s gets too many arguments", what(f))
	}
}

func (fr *frame) run(f *Func) Value {
	if f.Body == nil {
		throw("%s is abstract", what(f))
	}
	fr.rt = f.Ret
	var v Value
	if f.Expr {
		v = fr.eval(f.Body)
	} else {
		fr.exec(f.Body)
		v = fr.ret
	}
	if f.Kind == "factory" {
		fr.in.check(v, &Type{Name: f.Class.Name}, fr.file, "the result of "+what(f))
	} else if f.Kind != "set" && f.Kind != "ctor" && !(f.Ret != nil && f.Ret.Name == "void") {
		t := f.Ret
		if t != nil && t.Name == "Future" && len(t.Args) == 1 && t.Args[0].Name == "void" {
			return v
		}
		fr.in.check(v, t, fr.file, "the result of "+what(f))
	}
	return v
}

// construct makes an object.
func (in *Interp) construct(c *Class, name string, args []Value, named map[string]Value) Value {
	f := in.P.ctor(c, name)
	if f != nil && f.Kind == "factory" {
		return in.callFunc(f, nil, nil, args, named)
	}
	if c.Abstract {
		throw("the abstract class %s is created", c.Name)
	}
	o := &Obj{C: c, F: map[string]Value{}}
	fr := &frame{in: in, file: c.File, cls: c, env: &env{}}
	for _, fd := range c.Fields {
		if !fd.Static {
			o.F[fd.Name] = nil
			if fd.Init != nil {
				o.F[fd.Name] = fr.eval(fd.Init)
			}
		}
	}
	if f == nil {
		if len(args)+len(named) > 0 {
			throw("%s takes no arguments", c.Name)
		}
		return o
	}
	fr.this = o
	fr.bind(f, args, named)
	for _, e := range f.Super {
		if e.K == "init" {
			o.F[e.S] = fr.eval(e.A)
		} else {
			o.F["#super"] = fr.eval(e)
		}
	}
	if f.Body != nil {
		fr.exec(f.Body)
	}
	return o
}

// ---- statements

func (fr *frame) exec(n *Node) ctl {
	if n == nil {
		return cNext
	}
	switch n.K {
	case "block":
		up := fr.env
		fr.env = &env{up: up}
		defer func() { fr.env = up }()
		for _, s := range n.L {
			if c := fr.exec(s); c != cNext {
				return c
			}
		}
	case "return":
		fr.ret = nil
		if n.A != nil {
			fr.ret = fr.eval(n.A)
		}
		return cReturn
	case "expr":
		fr.eval(n.A)
	case "throw":
		panic(&Thrown{fr.eval(n.A)})
	case "if":
		if fr.cond(n.A) {
			return fr.exec(n.B)
		}
		return fr.exec(n.C)
	case "while":
		for fr.cond(n.A) {
			fr.in.steps++
			if fr.in.steps > 5_000_000 {
				throw("the program does not end")
			}
			switch fr.exec(n.B) {
			case cReturn:
				return cReturn
			case cBreak:
				return cNext
			}
		}
	case "forin":
		for _, v := range fr.iter(fr.eval(n.A)) {
			up := fr.env
			fr.env = &env{up: up}
			fr.in.check(v, n.T, fr.file, "the variable "+n.S)
			fr.env.set(n.S, v, n.T)
			c := fr.exec(n.B)
			fr.env = up
			if c == cReturn {
				return c
			}
			if c == cBreak {
				break
			}
		}
	case "switch":
		v := fr.eval(n.A)
		hit := -1
		for i, k := range n.L {
			if k.A != nil && fr.in.equal(v, fr.eval(k.A)) {
				hit = i
				break
			}
		}
		if hit < 0 {
			for i, k := range n.L {
				if k.A == nil {
					hit = i
				}
			}
		}
		if hit < 0 {
			return cNext
		}
		for ; hit < len(n.L); hit++ {
			if len(n.L[hit].L) == 0 {
				continue
			}
			for _, s := range n.L[hit].L {
				switch fr.exec(s) {
				case cReturn:
					return cReturn
				case cBreak:
					return cNext
				case cContinue:
					return cContinue
				}
			}
			break
		}
	case "var":
		for _, d := range n.L {
			var v Value
			if d.A != nil {
				v = fr.eval(d.A)
				fr.in.check(v, d.T, fr.file, "the variable "+d.S)
			}
			fr.env.set(d.S, v, d.T)
		}
	case "break":
		return cBreak
	case "continue":
		return cContinue
	case "empty":
	default:
		throw("statement %s", n.K)
	}
	return cNext
}

func (fr *frame) iter(v Value) []Value {
	l, ok := v.(*List)
	if !ok {
		throw("iterating over a %s", Kind(v))
	}
	return append([]Value(nil), l.V...)
}

func (fr *frame) cond(n *Node) bool {
	v := fr.eval(n)
	b, ok := v.(bool)
	if !ok {
		throw("a condition is a %s", Kind(v))
	}
	return b
}

// ---- expressions

type skipped struct{} // the rest of a null-aware chain

func (fr *frame) eval(n *Node) Value {
	v := fr.ev(n)
	if _, ok := v.(skipped); ok {
		return nil
	}
	return v
}

func (fr *frame) ev(n *Node) Value {
	switch n.K {
	case "lit":
		if n.dbl {
			if i, ok := n.V.(int64); ok {
				return float64(i)
			}
		}
		return n.V
	case "str":
		var b strings.Builder
		for _, q := range n.Str {
			if q.expr != nil {
				b.WriteString(fr.in.text(fr.eval(q.expr)))
			} else {
				b.WriteString(q.text)
			}
		}
		return b.String()
	case "val":
		return n.V
	case "paren":
		return fr.eval(n.A)
	case "this":
		if fr.this == nil {
			throw("there is no this")
		}
		return fr.this
	case "id":
		return fr.id(n.S)
	case "get":
		if v, ok := fr.static(n); ok {
			return v
		}
		o := fr.ev(n.A)
		if _, ok := o.(skipped); ok {
			return o
		}
		if o == nil && n.Null {
			return skipped{}
		}
		return fr.in.get(o, n.S)
	case "index":
		o := fr.ev(n.A)
		if _, ok := o.(skipped); ok {
			return o
		}
		if o == nil && n.Null {
			return skipped{}
		}
		k := fr.eval(n.B)
		switch x := o.(type) {
		case *Map:
			if i, ok := fr.in.mapGet(x, k); ok {
				return x.V[i]
			}
			return nil
		case *List:
			i, ok := k.(int64)
			if !ok || i < 0 || i >= int64(len(x.V)) {
				throw("range error: %v", k)
			}
			return x.V[i]
		}
		throw("%s has no elements", Kind(o))
	case "call":
		return fr.call(n)
	case "bang":
		v := fr.ev(n.A)
		if v == nil {
			throw("null check operator used on a null value")
		}
		return v
	case "await":
		return fr.eval(n.A)
	case "throw":
		panic(&Thrown{fr.eval(n.A)})
	case "is":
		v := fr.eval(n.A)
		return fr.in.conforms(v, n.T, fr.file) != n.Null
	case "as":
		return fr.in.check(fr.eval(n.A), n.T, fr.file, "a cast")
	case "cond":
		if fr.cond(n.A) {
			return fr.eval(n.B)
		}
		return fr.eval(n.C)
	case "assign":
		return fr.assign(n)
	case "fn":
		return &Closure{f: n.Fn, env: fr.env, this: fr.this, cls: fr.cls, file: fr.file}
	case "list", "set":
		l := &List{Set: n.K == "set"}
		for _, e := range n.L {
			fr.element(e, func(k, v Value) {
				if n.K == "set" {
					for _, q := range l.V {
						if fr.in.equal(q, v) {
							return
						}
					}
				}
				l.V = append(l.V, v)
			})
		}
		if len(n.TA) == 1 {
			fr.in.check(l, &Type{Name: "List", Args: n.TA}, fr.file, "a list")
		}
		return l
	case "map":
		m := &Map{}
		for _, e := range n.L {
			fr.element(e, func(k, v Value) { fr.in.MapSet(m, k, v) })
		}
		if len(n.TA) == 2 {
			fr.in.check(m, &Type{Name: "Map", Args: n.TA}, fr.file, "a map")
		}
		return m
	case "un":
		v := fr.eval(n.A)
		switch n.S {
		case "!":
			b, ok := v.(bool)
			if !ok {
				throw("! of a %s", Kind(v))
			}
			return !b
		case "-":
			switch x := v.(type) {
			case int64:
				return -x
			case float64:
				return -x
			case Int64:
				return -x
			case Decimal:
				return Decimal{new(big.Rat).Neg(x.R)}
			}
		case "~":
			if x, ok := v.(int64); ok {
				return ^x
			}
		}
		throw("%s of a %s", n.S, Kind(v))
	case "bin":
		return fr.binary(n)
	}
	throw("expression %s", n.K)
	return nil
}

func (fr *frame) element(e *Node, put func(k, v Value)) {
	switch e.K {
	case "if":
		if fr.cond(e.A) {
			fr.element(e.B, put)
		} else if e.C != nil {
			fr.element(e.C, put)
		}
	case "forin":
		for _, v := range fr.iter(fr.eval(e.A)) {
			up := fr.env
			fr.env = &env{up: up}
			fr.env.set(e.S, v, e.T)
			fr.element(e.B, put)
			fr.env = up
		}
	case "spread":
		v := fr.eval(e.A)
		if v == nil && e.Null {
			return
		}
		if m, ok := v.(*Map); ok {
			for i := range m.K {
				put(m.K[i], m.V[i])
			}
			return
		}
		for _, x := range fr.iter(v) {
			put(nil, x)
		}
	case "entry":
		put(fr.eval(e.A), fr.eval(e.B))
	default:
		put(nil, fr.eval(e))
	}
}

func (fr *frame) binary(n *Node) Value {
	a := fr.eval(n.A)
	switch n.S {
	case "??":
		if a != nil {
			return a
		}
		return fr.eval(n.B)
	case "&&", "||":
		x, ok := a.(bool)
		if !ok {
			throw("%s of a %s", n.S, Kind(a))
		}
		if x == (n.S == "||") {
			return x
		}
		y, ok := fr.eval(n.B).(bool)
		if !ok {
			throw("%s of a value that is not a bool", n.S)
		}
		return y
	}
	b := fr.eval(n.B)
	switch n.S {
	case "==":
		return fr.in.equal(a, b)
	case "!=":
		return !fr.in.equal(a, b)
	case "<", ">", "<=", ">=":
		c := fr.in.compare(a, b)
		switch n.S {
		case "<":
			return c == -1
		case ">":
			return c == 1
		case "<=":
			return c == -1 || c == 0
		}
		return c == 1 || c == 0
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			if f, is := b.(float64); is {
				return floatOp(n.S, float64(x), f)
			}
			break
		}
		switch n.S {
		case "+":
			return x + y
		case "-":
			return x - y
		case "*":
			return x * y
		case "/":
			return float64(x) / float64(y)
		case "~/":
			if y != 0 {
				return x / y
			}
		case "%":
			if y != 0 {
				return ((x % y) + y) % y
			}
		case "|":
			return x | y
		case "&":
			return x & y
		case "^":
			return x ^ y
		case "<<":
			if y >= 64 {
				return int64(0)
			}
			return x << uint(y)
		case ">>":
			if y >= 64 {
				y = 63
			}
			return x >> uint(y)
		}
	case float64:
		switch y := b.(type) {
		case float64:
			return floatOp(n.S, x, y)
		case int64:
			return floatOp(n.S, x, float64(y))
		}
	case string:
		if y, ok := b.(string); ok && n.S == "+" {
			return x + y
		}
	case bool:
		if y, ok := b.(bool); ok && n.S == "^" {
			return x != y
		}
	}
	throw("%s of a %s and a %s", n.S, Kind(a), Kind(b))
	return nil
}

func floatOp(op string, x, y float64) Value {
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	case "*":
		return x * y
	case "/":
		return x / y
	}
	throw("%s of doubles", op)
	return nil
}

// compare gives -1, 0 or 1, or 2 where nothing is less than the other.
func (in *Interp) compare(a, b Value) int {
	switch x := a.(type) {
	case Decimal:
		if y, ok := b.(Decimal); ok {
			return x.R.Cmp(y.R)
		}
	case Int64:
		var y int64
		switch z := b.(type) {
		case Int64:
			y = int64(z)
		case int64:
			y = z
		default:
			throw("an Int64 is compared with a %s", Kind(b))
		}
		switch {
		case int64(x) < y:
			return -1
		case int64(x) > y:
			return 1
		}
		return 0
	case int64, float64:
		switch b.(type) {
		case int64, float64:
		default:
			throw("a number is compared with a %s", Kind(b))
		}
		if i, ok := a.(int64); ok {
			if j, ok := b.(int64); ok {
				switch {
				case i < j:
					return -1
				case i > j:
					return 1
				}
				return 0
			}
		}
		f, g := toF(a), toF(b)
		switch {
		case f < g:
			return -1
		case f > g:
			return 1
		case f == g:
			return 0
		}
		return 2
	}
	throw("a %s is compared with a %s", Kind(a), Kind(b))
	return 0
}

func toF(v Value) float64 {
	switch x := v.(type) {
	case int64:
		return float64(x)
	case float64:
		return x
	}
	return math.NaN()
}

func (fr *frame) id(n string) Value {
	if e, i := fr.env.find(n); e != nil {
		return e.v[i]
	}
	if fr.cls != nil {
		if m := fr.in.P.find(fr.cls, n, true, false, 0); m != nil {
			return fr.in.staticMember(fr.cls, m)
		}
		if m := fr.in.P.find(fr.cls, n, false, false, 0); m != nil {
			if fr.this == nil {
				throw("the instance member %s is used without an object", n)
			}
			return fr.in.get(fr.this, n)
		}
		if _, ok := objMembers[n]; ok && fr.this != nil {
			return fr.in.get(fr.this, n)
		}
	}
	return fr.top(n)
}

func (fr *frame) top(n string) Value {
	e, _ := fr.file.lookup(n)
	switch {
	case e == nil:
		throw("there is no %s", n)
	case e.cls != nil:
		return &ClassRef{e.cls}
	case e.fn != nil:
		if e.fn.Kind == "get" {
			return fr.in.callFunc(e.fn, nil, nil, nil, nil)
		}
		return &Closure{f: e.fn, file: e.fn.file}
	case e.v != nil:
		return fr.in.lazy("top "+e.v.Name, fr.in.fileOf(e.v), nil, e.v)
	}
	return ExtRef{e.ext}
}

func (in *Interp) fileOf(v *Field) *File {
	for _, f := range in.P.Files {
		for _, x := range f.Vars {
			if x == v {
				return f
			}
		}
	}
	return nil
}

func (in *Interp) lazy(key string, f *File, c *Class, v *Field) Value {
	if in.P.ext == nil {
		in.P.ext = map[string]Value{}
	}
	if c != nil {
		key = f.Name + " " + c.Name + "." + v.Name
	} else {
		key = f.Name + " " + v.Name
	}
	if x, ok := in.P.ext[key]; ok {
		if x == (busy{}) {
			throw("the initialisation of %s needs itself", v.Name)
		}
		return x
	}
	in.P.ext[key] = busy{}
	var x Value
	if v.Init != nil {
		fr := &frame{in: in, file: f, cls: c, env: &env{}}
		x = fr.eval(v.Init)
		in.check(x, v.T, f, "the variable "+v.Name)
	}
	in.P.ext[key] = x
	return x
}

type busy struct{}

func (in *Interp) staticMember(c *Class, m *member) Value {
	switch {
	case m.f != nil:
		return in.lazy("", m.f.Class.File, m.f.Class, m.f)
	case m.fn.Kind == "get":
		return in.callFunc(m.fn, nil, nil, nil, nil)
	}
	return &Closure{f: m.fn, cls: m.fn.Class, file: m.fn.file}
}

// classOf: the class or library name that an expression stands for.
func (fr *frame) ref(n *Node) Value {
	if n.K != "id" {
		return nil
	}
	if e, _ := fr.env.find(n.S); e != nil {
		return nil
	}
	if fr.cls != nil && (fr.in.P.find(fr.cls, n.S, true, false, 0) != nil || fr.in.P.find(fr.cls, n.S, false, false, 0) != nil) {
		return nil
	}
	e, _ := fr.file.lookup(n.S)
	switch {
	case e == nil:
		return nil
	case e.cls != nil:
		return &ClassRef{e.cls}
	case e.ext != "":
		return ExtRef{e.ext}
	}
	return nil
}

// static evaluates Class.member.
func (fr *frame) static(n *Node) (Value, bool) {
	switch x := fr.ref(n.A).(type) {
	case *ClassRef:
		if m := fr.in.P.find(x.C, n.S, true, false, 0); m != nil {
			return fr.in.staticMember(x.C, m), true
		}
		if f := fr.in.P.ctor(x.C, n.S); f != nil {
			c, name := x.C, n.S
			return &Native{name, func(in *Interp, a []Value, nm map[string]Value) Value { return in.construct(c, name, a, nm) }}, true
		}
		throw("%s has no static member %s", x.C.Name, n.S)
	case ExtRef:
		switch x.Name {
		case "json", "utf8":
			return &Native{x.Name + "." + n.S, nil}, true
		}
		switch k := x.Name + "." + n.S; k {
		case "Int64.ZERO":
			return Int64(0), true
		case "Decimal.zero":
			return Decimal{new(big.Rat)}, true
		case "BoxFit.contain", "TextOverflow.ellipsis":
			return &Ext{Name: k}, true
		default:
			return ExtRef{k}, true
		}
	}
	return nil, false
}

// Get reads a member of a value.
func (in *Interp) Get(o Value, n string) Value { return in.get(o, n) }

func nat(name string, f func(in *Interp, a []Value) Value) *Native {
	return &Native{name, func(in *Interp, a []Value, named map[string]Value) Value { return f(in, a) }}
}

func (in *Interp) get(o Value, n string) Value {
	if n == "hashCode" {
		if x, ok := o.(*Obj); ok {
			if m := in.P.find(x.C, n, false, false, 0); m != nil && m.fn != nil && m.fn.Body != nil {
				return in.callFunc(m.fn, x, nil, nil, nil)
			}
			return int64(len(x.F))
		}
		var h int64
		for _, c := range in.safeText(o) {
			h = h*31 + int64(c)
		}
		return h & 0xffffffff
	}
	if n == "runtimeType" {
		if x, ok := o.(*Obj); ok {
			return &ClassRef{x.C}
		}
		return ExtRef{Kind(o)}
	}
	if n == "toString" {
		if x, ok := o.(*Obj); !ok || in.P.find(x.C, n, false, false, 0) == nil {
			return nat(n, func(in *Interp, a []Value) Value { return in.text(o) })
		}
	}
	switch x := o.(type) {
	case nil:
		throw("the member %s of null", n)
	case *Obj:
		if f, ok := x.F["#"+n].(*Native); ok {
			return f
		}
		m := in.P.find(x.C, n, false, false, 0)
		if m == nil {
			throw("%s has no member %s", x.C.Name, n)
		}
		switch {
		case m.f != nil:
			if v, ok := x.F[n]; ok {
				return v
			}
			throw("%s has no field %s", x.C.Name, n)
		case m.isEx:
			if n == "invoke" {
				return &Native{n, nil}
			}
			throw("the member %s of a library class", n)
		case m.fn.Kind == "get":
			if m.fn.Body == nil {
				throw("%s of %s is abstract", n, x.C.Name)
			}
			return in.callFunc(m.fn, x, nil, nil, nil)
		}
		return &Closure{f: m.fn, this: x, cls: m.fn.Class, file: m.fn.file}
	case *Ext:
		if v, ok := x.P[n]; ok {
			return v
		}
		if n == "build" {
			return nat(n, func(in *Interp, a []Value) Value {
				return &Ext{Name: "Widget", P: map[string]Value{"of": x}}
			})
		}
		if x.Name == "TablesBuild" && n == "columns" {
			m := &Map{}
			x.P[n] = m
			return m
		}
		if x.Name == "ByteData" && n == "buffer" {
			return &Ext{Name: "ByteBuffer", P: map[string]Value{}}
		}
		if n == "asUint8List" {
			return nat(n, func(in *Interp, a []Value) Value { return &List{} })
		}
		if n == "buffer" {
			return &Ext{Name: "ByteBuffer", P: map[string]Value{}}
		}
		return nil
	case *List:
		return in.listMember(x, n)
	case *Map:
		return in.mapMember(x, n)
	case string:
		return in.stringMember(x, n)
	case int64, float64:
		switch n {
		case "toInt":
			return nat(n, func(in *Interp, a []Value) Value {
				switch y := o.(type) {
				case float64:
					if math.IsNaN(y) || math.IsInf(y, 0) {
						throw("toInt of %v", y)
					}
					if y >= 9.2233720368547758e18 {
						return int64(math.MaxInt64)
					}
					if y < -9.2233720368547758e18 {
						return int64(math.MinInt64)
					}
					return int64(y)
				}
				return o
			})
		case "toDouble":
			return nat(n, func(in *Interp, a []Value) Value { return toF(o) })
		case "toStringAsFixed":
			return nat(n, func(in *Interp, a []Value) Value { return fixed(ratOf(o), a[0].(int64)) })
		case "isNaN":
			return math.IsNaN(toF(o))
		case "compareTo":
			return nat(n, func(in *Interp, a []Value) Value { return int64(in.compare(o, a[0])) })
		}
	case Int64:
		switch n {
		case "toInt":
			return nat(n, func(in *Interp, a []Value) Value { return int64(x) })
		case "toDouble":
			return nat(n, func(in *Interp, a []Value) Value { return float64(x) })
		case "toStringUnsigned":
			return nat(n, func(in *Interp, a []Value) Value { return strconv.FormatUint(uint64(x), 10) })
		}
	case Decimal:
		switch n {
		case "toJson":
			return nat(n, func(in *Interp, a []Value) Value { return decText(x.R) })
		case "compareTo":
			return nat(n, func(in *Interp, a []Value) Value {
				y, ok := a[0].(Decimal)
				if !ok {
					throw("a Decimal is compared with a %s", Kind(a[0]))
				}
				return int64(x.R.Cmp(y.R))
			})
		case "toStringAsFixed":
			return nat(n, func(in *Interp, a []Value) Value { return fixed(x.R, a[0].(int64)) })
		case "toDouble":
			return nat(n, func(in *Interp, a []Value) Value { f, _ := x.R.Float64(); return f })
		case "isInteger":
			return x.R.IsInt()
		}
	case Date:
		switch n {
		case "millisecondsSinceEpoch":
			return int64(x)
		case "isUtc":
			return true
		case "toUtc":
			return nat(n, func(in *Interp, a []Value) Value { return x })
		case "toIso8601String":
			return nat(n, func(in *Interp, a []Value) Value {
				return time.UnixMilli(int64(x)).UTC().Format("2006-01-02T15:04:05.000Z")
			})
		case "format":
			return nat(n, func(in *Interp, a []Value) Value { return DateText(int64(x), in.text(a[0])) })
		case "isBefore", "isAfter", "compareTo":
			return nat(n, func(in *Interp, a []Value) Value {
				y, _ := a[0].(Date)
				switch n {
				case "isBefore":
					return x < y
				case "isAfter":
					return x > y
				}
				switch {
				case x < y:
					return int64(-1)
				case x > y:
					return int64(1)
				}
				return int64(0)
			})
		}
	case *Regexp:
		switch n {
		case "hasMatch":
			return nat(n, func(in *Interp, a []Value) Value {
				s, ok := a[0].(string)
				if !ok {
					throw("hasMatch of a %s", Kind(a[0]))
				}
				return x.re.MatchString(s)
			})
		}
	case *Closure, *Native:
		if n == "call" {
			return o
		}
	case *Entry:
		switch n {
		case "key":
			return x.K
		case "value":
			return x.V
		}
	}
	throw("%s has no member %s", Kind(o), n)
	return nil
}

func ratOf(v Value) *big.Rat {
	switch x := v.(type) {
	case int64:
		return new(big.Rat).SetInt64(x)
	case float64:
		if r := new(big.Rat).SetFloat64(x); r != nil {
			return r
		}
	}
	throw("no number")
	return nil
}

// fixed rounds halves away from zero.
func fixed(r *big.Rat, n int64) string {
	if n < 0 || n > 20 {
		throw("toStringAsFixed(%d)", n)
	}
	return r.FloatString(int(n))
}

func (in *Interp) listMember(x *List, n string) Value {
	changes := func() {
		if x.Const {
			throw("Unsupported operation: cannot change an unmodifiable collection (%s)", n)
		}
	}
	switch n {
	case "length":
		return int64(len(x.V))
	case "isEmpty":
		return len(x.V) == 0
	case "isNotEmpty":
		return len(x.V) > 0
	case "first":
		if len(x.V) == 0 {
			throw("the first of an empty list")
		}
		return x.V[0]
	case "last":
		if len(x.V) == 0 {
			throw("the last of an empty list")
		}
		return x.V[len(x.V)-1]
	case "toList", "toSet":
		return nat(n, func(in *Interp, a []Value) Value { return &List{V: append([]Value(nil), x.V...)} })
	case "map":
		return nat(n, func(in *Interp, a []Value) Value {
			r := &List{}
			for _, e := range x.V {
				r.V = append(r.V, in.Call(a[0], []Value{e}, nil))
			}
			return r
		})
	case "where":
		return nat(n, func(in *Interp, a []Value) Value {
			r := &List{}
			for _, e := range x.V {
				if b, _ := in.Call(a[0], []Value{e}, nil).(bool); b {
					r.V = append(r.V, e)
				}
			}
			return r
		})
	case "join":
		return nat(n, func(in *Interp, a []Value) Value {
			var s []string
			for _, e := range x.V {
				s = append(s, in.text(e))
			}
			sep := ""
			if len(a) > 0 {
				sep = a[0].(string)
			}
			return strings.Join(s, sep)
		})
	case "contains":
		return nat(n, func(in *Interp, a []Value) Value {
			for _, e := range x.V {
				if in.equal(e, a[0]) {
					return true
				}
			}
			return false
		})
	case "add":
		changes()
		return nat(n, func(in *Interp, a []Value) Value {
			for _, e := range x.V {
				if x.Set && in.equal(e, a[0]) {
					return false
				}
			}
			x.V = append(x.V, a[0])
			return nil
		})
	case "remove":
		changes()
		return nat(n, func(in *Interp, a []Value) Value {
			for i, e := range x.V {
				if in.equal(e, a[0]) {
					x.V = append(x.V[:i:i], x.V[i+1:]...)
					return true
				}
			}
			return false
		})
	case "clear":
		changes()
		return nat(n, func(in *Interp, a []Value) Value { x.V = nil; return nil })
	case "buffer":
		return &Ext{Name: "ByteBuffer", P: map[string]Value{}}
	}
	throw("List has no member %s", n)
	return nil
}

func (in *Interp) mapMember(x *Map, n string) Value {
	switch n {
	case "length":
		return int64(len(x.K))
	case "isEmpty":
		return len(x.K) == 0
	case "isNotEmpty":
		return len(x.K) > 0
	case "keys":
		return &List{V: append([]Value(nil), x.K...)}
	case "values":
		return &List{V: append([]Value(nil), x.V...)}
	case "map":
		return nat(n, func(in *Interp, a []Value) Value {
			r := &Map{}
			for i := range x.K {
				e, ok := in.Call(a[0], []Value{x.K[i], x.V[i]}, nil).(*Entry)
				if !ok {
					throw("the closure of map does not give a MapEntry")
				}
				in.MapSet(r, e.K, e.V)
			}
			return r
		})
	}
	throw("Map has no member %s", n)
	return nil
}

func (in *Interp) stringMember(x string, n string) Value {
	switch n {
	case "length":
		return int64(len(utf16.Encode([]rune(x))))
	case "isEmpty":
		return x == ""
	case "isNotEmpty":
		return x != ""
	case "runes", "characters":
		l := &List{}
		for _, r := range x {
			l.V = append(l.V, int64(r))
		}
		return l
	case "codeUnits":
		l := &List{}
		for _, r := range utf16.Encode([]rune(x)) {
			l.V = append(l.V, int64(r))
		}
		return l
	case "split":
		return nat(n, func(in *Interp, a []Value) Value {
			l := &List{}
			for _, s := range strings.Split(x, a[0].(string)) {
				l.V = append(l.V, s)
			}
			return l
		})
	case "startsWith":
		return nat(n, func(in *Interp, a []Value) Value { return strings.HasPrefix(x, a[0].(string)) })
	case "trim":
		return nat(n, func(in *Interp, a []Value) Value { return strings.TrimSpace(x) })
	}
	throw("String has no member %s", n)
	return nil
}

// Set assigns to a member.
func (in *Interp) Set(o Value, n string, v Value) {
	switch x := o.(type) {
	case *Obj:
		m := in.P.find(x.C, n, false, true, 0)
		if m == nil {
			throw("%s of %s cannot be assigned to", n, x.C.Name)
		}
		if m.f != nil {
			in.check(v, m.f.T, m.f.Class.File, "the field "+n)
			x.F[n] = v
			return
		}
		if m.fn != nil && m.fn.Body != nil {
			in.callFunc(m.fn, x, nil, []Value{v}, nil)
			return
		}
		throw("%s of %s is abstract", n, x.C.Name)
	case *Ext:
		x.P[n] = v
		return
	case nil:
		throw("the member %s of null", n)
	}
	throw("%s of a %s cannot be assigned to", n, Kind(o))
}

func (fr *frame) assign(n *Node) Value {
	get := func() Value { return fr.eval(n.A) }
	var set func(v Value)
	switch n.A.K {
	case "id":
		name := n.A.S
		if e, i := fr.env.find(name); e != nil {
			set = func(v Value) {
				fr.in.check(v, e.t[i], fr.file, "the variable "+name)
				e.v[i] = v
			}
		} else if fr.this != nil {
			set = func(v Value) { fr.in.Set(fr.this, name, v) }
		} else {
			throw("%s cannot be assigned to", name)
		}
	case "get":
		o := fr.eval(n.A.A)
		if o == nil && n.A.Null {
			return nil
		}
		get = func() Value { return fr.in.get(o, n.A.S) }
		set = func(v Value) { fr.in.Set(o, n.A.S, v) }
	case "index":
		o := fr.eval(n.A.A)
		k := fr.eval(n.A.B)
		set = func(v Value) {
			switch x := o.(type) {
			case *Map:
				fr.in.MapSet(x, k, v)
			case *List:
				x.V[k.(int64)] = v
			default:
				throw("an element of a %s", Kind(o))
			}
		}
	default:
		throw("an assignment to %s", n.A.K)
	}
	switch n.S {
	case "=":
		v := fr.eval(n.B)
		set(v)
		return v
	case "??=":
		if v := get(); v != nil {
			return v
		}
		v := fr.eval(n.B)
		set(v)
		return v
	}
	op := strings.TrimSuffix(n.S, "=")
	v := fr.binary(&Node{K: "bin", S: op, A: &Node{K: "val", V: get()}, B: n.B})
	set(v)
	return v
}

func (fr *frame) args(n *Node) (a []Value, named map[string]Value) {
	for i, x := range n.L {
		v := fr.eval(x)
		if n.N[i] != "" {
			if named == nil {
				named = map[string]Value{}
			}
			named[n.N[i]] = v
		} else {
			a = append(a, v)
		}
	}
	return
}

func (fr *frame) call(n *Node) Value {
	var f Value
	switch n.A.K {
	case "get":
		v, ok := fr.static(n.A)
		if ok {
			f = v
			break
		}
		o := fr.ev(n.A.A)
		if _, is := o.(skipped); is {
			return o
		}
		if o == nil && n.A.Null {
			return skipped{}
		}
		f = fr.in.get(o, n.A.S)
	default:
		f = fr.ev(n.A)
		if _, is := f.(skipped); is {
			return f
		}
	}
	a, named := fr.args(n)
	switch x := f.(type) {
	case ExtRef:
		return fr.in.extCall(x.Name, n.TA, a, named)
	case *Native:
		if x.F == nil {
			switch x.Name {
			case "invoke":
				return fr.invoke(n, a)
			case "json.encode":
				s, err := fr.in.JSON(a[0])
				if err != nil {
					throw("json: %v", err)
				}
				return s
			case "json.decode":
				v, err := FromJSON(a[0].(string))
				if err != nil {
					throw("json: %v", err)
				}
				return v
			case "utf8.encode":
				l := &List{}
				for _, c := range []byte(a[0].(string)) {
					l.V = append(l.V, int64(c))
				}
				return l
			case "utf8.decode":
				var b []byte
				for _, c := range a[0].(*List).V {
					b = append(b, byte(c.(int64)))
				}
				return string(b)
			}
			throw("there is no %s", x.Name)
		}
	}
	return fr.in.Call(f, a, named)
}

// invoke stands for the method of the client's superclass.
func (fr *frame) invoke(n *Node, a []Value) Value {
	if len(a) != 5 {
		throw("invoke is called with %d arguments", len(a))
	}
	path, ok := a[0].(string)
	id, ok2 := a[1].(int64)
	if !ok || !ok2 {
		throw("invoke is called with a %s and a %s", Kind(a[0]), Kind(a[1]))
	}
	req, err := fr.in.JSON(fr.in.Call(fr.in.get(a[2], "toMap"), nil, nil))
	if err != nil {
		throw("json: %v", err)
	}
	res, err := fr.in.Invoke(path, id, req)
	if err != nil {
		throw("%v", err)
	}
	v, err := FromJSON(res)
	if err != nil {
		throw("json: %v", err)
	}
	if v == nil {
		v = &Map{}
	}
	return fr.in.Call(a[3], []Value{v}, nil)
}

func str(a []Value, i int) string {
	if i < len(a) {
		if s, ok := a[i].(string); ok {
			return s
		}
		throw("a %s is used as String", Kind(a[i]))
	}
	throw("an argument is missing")
	return ""
}

var decRe = regexp.MustCompile(`^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$`)

func parseDec(s string) (Value, bool) {
	if !decRe.MatchString(s) {
		return nil, false
	}
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return nil, false
	}
	return Decimal{r}, true
}

var intRe = regexp.MustCompile(`^[+-]?\d+$`)
var hexRe = regexp.MustCompile(`^[+-]?0[xX][0-9a-fA-F]+$`)
var dblRe = regexp.MustCompile(`^[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?$`)

func parseNum(s string, kind string) Value {
	s = strings.TrimSpace(s)
	if kind != "double" {
		if intRe.MatchString(s) {
			if n, err := strconv.ParseInt(s, 10, 64); err == nil {
				return n
			}
		}
		if hexRe.MatchString(s) {
			if n, err := strconv.ParseInt(s, 0, 64); err == nil {
				return n
			}
		}
		if kind == "int" {
			return nil
		}
	}
	if dblRe.MatchString(s) {
		f, _ := strconv.ParseFloat(s, 64)
		return f
	}
	switch s {
	case "NaN":
		return math.NaN()
	case "Infinity":
		return math.Inf(1)
	case "-Infinity":
		return math.Inf(-1)
	}
	return nil
}

var dateRe = regexp.MustCompile(`^([+-]?\d{4,6})-?(\d\d)-?(\d\d)(?:[ T](\d\d)(?::?(\d\d)(?::?(\d\d)(?:[.,](\d+))?)?)?( ?[zZ]| ?([-+])(\d\d)(?::?(\d\d))?)?)?$`)

// parseDate reads what DateTime.tryParse accepts; local time is UTC here.
func parseDate(s string) (Value, bool) {
	m := dateRe.FindStringSubmatch(s)
	if m == nil {
		return nil, false
	}
	n := func(i int) int { v, _ := strconv.Atoi(m[i]); return v }
	ms := 0
	if m[7] != "" {
		q := (m[7] + "000")[:3]
		ms, _ = strconv.Atoi(q)
	}
	t := time.Date(n(1), time.Month(n(2)), n(3), n(4), n(5), n(6), ms*1e6, time.UTC)
	if m[9] != "" {
		d := time.Duration(n(10))*time.Hour + time.Duration(n(11))*time.Minute
		if m[9] == "+" {
			t = t.Add(-d)
		} else {
			t = t.Add(d)
		}
	}
	return Date(t.UnixMilli()), true
}

func (in *Interp) extCall(name string, ta []*Type, a []Value, named map[string]Value) Value {
	switch name {
	case "num.tryParse":
		return parseNum(str(a, 0), "num")
	case "int.tryParse":
		return parseNum(str(a, 0), "int")
	case "double.tryParse":
		return parseNum(str(a, 0), "double")
	case "Int64.parseInt":
		s := str(a, 0)
		b, ok := new(big.Int).SetString(s, 10)
		if !ok || strings.HasPrefix(s, "+") {
			throw("FormatException: %s", short(s))
		}
		b.And(b, new(big.Int).SetUint64(math.MaxUint64))
		return Int64(int64(b.Uint64()))
	case "Decimal.tryParse":
		if v, ok := parseDec(str(a, 0)); ok {
			return v
		}
		return nil
	case "Decimal.parse", "Decimal.fromJson":
		v, ok := parseDec(str(a, 0))
		if !ok {
			throw("FormatException: %s is not a Decimal", short(str(a, 0)))
		}
		return v
	case "Decimal.fromInt":
		n, ok := a[0].(int64)
		if !ok {
			throw("Decimal.fromInt of a %s", Kind(a[0]))
		}
		return Decimal{new(big.Rat).SetInt64(n)}
	case "DateTime.tryParse":
		if v, ok := parseDate(str(a, 0)); ok {
			return v
		}
		return nil
	case "DateTime.now":
		return Date(1_700_000_000_000)
	case "DateTime.fromMillisecondsSinceEpoch":
		n, ok := a[0].(int64)
		if !ok {
			throw("a date from a %s", Kind(a[0]))
		}
		if n < -8640000000000000 || n > 8640000000000000 {
			throw("the date %d is out of range", n)
		}
		return Date(n)
	case "RegExp":
		re, err := regexp.Compile(str(a, 0))
		if err != nil {
			throw("FormatException: %v", err)
		}
		return &Regexp{re}
	case "MapEntry":
		return &Entry{a[0], a[1]}
	case "identical":
		return same(a[0], a[1])
	case "SynchronousFuture", "Future.value":
		return a[0]
	case "ByteData.view", "Uint8List", "Uint8List.fromList", "ByteData":
		return &Ext{Name: strings.SplitN(name, ".", 2)[0], P: map[string]Value{}}
	case "Localizations.of":
		c, ok := a[1].(*ClassRef)
		if !ok {
			throw("Localizations.of a %s", Kind(a[1]))
		}
		m := in.P.find(c.C, "delegate", true, false, 0)
		if m == nil {
			throw("%s has no delegate", c.C.Name)
		}
		loc := in.Locale
		if loc == "" {
			return nil
		}
		d := in.staticMember(c.C, m)
		return in.Call(in.get(d, "load"), []Value{&Ext{Name: "Locale", P: map[string]Value{"languageCode": loc}}}, nil)
	case "Exception", "Error":
		return &Ext{Name: name, A: a, P: map[string]Value{}}
	}
	p := map[string]Value{}
	for k, v := range named {
		p[k] = v
	}
	if name != "" && (name[0] >= 'A' && name[0] <= 'Z') {
		if name == "ImageFormImage" && len(a) > 0 {
			p["url"] = a[0]
		}
		return &Ext{Name: name, A: a, P: p}
	}
	throw("the library function %s is not known", name)
	return nil
}

// ---- JSON

// JSON encodes a value as json.encode does.
func (in *Interp) JSON(v Value) (string, error) {
	var b strings.Builder
	var enc func(v Value) error
	enc = func(v Value) error {
		switch x := v.(type) {
		case nil:
			b.WriteString("null")
		case bool, int64:
			b.WriteString(in.text(v))
		case float64:
			if math.IsNaN(x) || math.IsInf(x, 0) {
				return fmt.Errorf("the number %v cannot be encoded", x)
			}
			b.WriteString(doubleText(x))
		case string:
			b.WriteString(quoteJSON(x))
		case *List:
			b.WriteByte('[')
			for i, e := range x.V {
				if i > 0 {
					b.WriteByte(',')
				}
				if err := enc(e); err != nil {
					return err
				}
			}
			b.WriteByte(']')
		case *Map:
			b.WriteByte('{')
			for i, k := range x.K {
				s, ok := k.(string)
				if !ok {
					return fmt.Errorf("a map with keys of type %s cannot be encoded", Kind(k))
				}
				if i > 0 {
					b.WriteByte(',')
				}
				b.WriteString(quoteJSON(s) + ":")
				if err := enc(x.V[i]); err != nil {
					return err
				}
			}
			b.WriteByte('}')
		case Decimal:
			return enc(decText(x.R))
		default:
			return fmt.Errorf("a value of type %s cannot be encoded", Kind(v))
		}
		return nil
	}
	err := enc(v)
	return b.String(), err
}

func quoteJSON(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r < 0x20:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

// Guard runs f and returns the exception it ends with.
func Guard(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *Thrown:
				err = e
			case *Error:
				err = e
			default:
				panic(r)
			}
		}
	}()
	f()
	return nil
}

// Class finds a class by name; the file part is optional.
func (p *Program) Class(name string) *Class {
	var fs []string
	for n := range p.Files {
		fs = append(fs, n)
	}
	sort.Strings(fs)
	for _, n := range fs {
		for _, c := range p.Files[n].Classes {
			if c.Name == name {
				return c
			}
		}
	}
	return nil
}

// Function finds a top-level function.
func (p *Program) Function(name string) *Func {
	for _, f := range p.Files {
		for _, x := range f.Funcs {
			if x.Name == name {
				return x
			}
		}
	}
	return nil
}

// Static reads a static member of a class.
func (in *Interp) Static(c *Class, name string) Value {
	m := in.P.find(c, name, true, false, 0)
	if m == nil {
		throw("%s has no static member %s", c.Name, name)
	}
	return in.staticMember(c, m)
}

// New makes an object of a class.
func (in *Interp) New(c *Class, args []Value, named map[string]Value) Value {
	return in.construct(c, "", args, named)
}

// CallFunc calls a top-level function.
func (in *Interp) CallFunc(f *Func, args []Value) Value { return in.callFunc(f, nil, nil, args, nil) }

// Stub makes an object of a class that stands outside the program and implements one of its classes with native methods.
func (in *Interp) Stub(c *Class, methods map[string]func(a []Value) Value) *Obj {
	o := &Obj{C: &Class{Name: "Stub" + c.Name, Impl: []*Type{{Name: c.Name}}, File: c.File}, F: map[string]Value{}}
	for n, f := range methods {
		f := f
		o.F["#"+n] = nat(n, func(in *Interp, a []Value) Value { return f(a) })
	}
	return o
}

// DateText formats a date as intl's DateFormat does, for the letters y, M, d, H, m, s, S; other text stays.
func DateText(ms int64, pattern string) string {
	t := time.UnixMilli(ms).UTC()
	var b strings.Builder
	for i := 0; i < len(pattern); {
		j := i
		for j < len(pattern) && pattern[j] == pattern[i] {
			j++
		}
		n := 0
		switch pattern[i] {
		case 'y':
			n = t.Year()
		case 'M':
			n = int(t.Month())
		case 'd':
			n = t.Day()
		case 'H':
			n = t.Hour()
		case 'm':
			n = t.Minute()
		case 's':
			n = t.Second()
		case 'S':
			n = t.Nanosecond() / 1e6
		default:
			b.WriteString(pattern[i:j])
			i = j
			continue
		}
		fmt.Fprintf(&b, "%0*d", j-i, n)
		i = j
	}
	return b.String()
}
