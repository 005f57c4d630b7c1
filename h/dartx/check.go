package dartx

import (
	"fmt"
	"sort"
	"strings"
)

// Program is a set of files.
type Program struct {
	Files map[string]*File
	Diags []string

	ext map[string]Value // library objects of the interpreter
}

// what the libraries that generated code imports declare
var libs = map[string]string{
	"dart:core":                              "int double num bool String Object dynamic void Null Never List Map Set Iterable Future DateTime Duration RegExp Function MapEntry Exception Error Type identical print override deprecated",
	"dart:convert":                           "json utf8 jsonEncode jsonDecode",
	"dart:typed_data":                        "ByteData Uint8List ByteBuffer",
	"package:decimal/decimal.dart":           "Decimal",
	"package:fixnum/fixnum.dart":             "Int64 Int32",
	"package:hbuf_dart/hbuf_dart.dart":       "Data Context Client ServerClient ServerRouter ServerInvoke Server",
	"package:flutter/foundation.dart":        "SynchronousFuture",
	"package:flutter/widgets.dart":           "BuildContext Widget Locale Localizations LocalizationsDelegate Text SizedBox Image BoxFit EdgeInsets EdgeInsetsGeometry TextOverflow",
	"package:flutter/material.dart":          "BuildContext Widget Locale Localizations LocalizationsDelegate Text SizedBox Image BoxFit EdgeInsets EdgeInsetsGeometry TextOverflow Tooltip Checkbox InputDecoration DropdownMenuItem",
	"package:hbuf_flutter/hbuf_flutter.dart": "TextFormBuild ClickFormBuild FileFormBuild ImageFormBuild ImageFormImage MenuFormBuild DatetimeFormBuild SwitchFormBuild TablesBuild TablesRow TablesColumn TablesCell",
}

// members that library superclasses give
var extMembers = map[string]map[string]string{
	"ServerClient":          {"invoke": "", "name": "String", "id": "int"},
	"ServerRouter":          {"name": "String", "id": "int"},
	"LocalizationsDelegate": {},
	"Data":                  {"toMap": "", "toData": "", "copy": ""},
}

// members a concrete subclass has to provide
var extAbstract = map[string][]string{
	"ServerClient":          {"name", "id"},
	"ServerRouter":          {"name", "id", "invokeNames", "invokeIds"},
	"LocalizationsDelegate": {"isSupported", "load", "shouldReload"},
	"Data":                  {"toMap", "toData", "copy"},
}

// result (and parameter) types of library functions
var extFuncs = map[string]struct {
	args []string
	ret  string
}{
	"num.tryParse":                        {[]string{"String"}, "num?"},
	"int.tryParse":                        {[]string{"String"}, "int?"},
	"double.tryParse":                     {[]string{"String"}, "double?"},
	"Int64.parseInt":                      {[]string{"String"}, "Int64"},
	"Decimal.tryParse":                    {[]string{"String"}, "Decimal?"},
	"Decimal.parse":                       {[]string{"String"}, "Decimal"},
	"Decimal.fromJson":                    {[]string{"String"}, "Decimal"},
	"Decimal.fromInt":                     {[]string{"int"}, "Decimal"},
	"DateTime.tryParse":                   {[]string{"String"}, "DateTime?"},
	"DateTime.now":                        {nil, "DateTime"},
	"DateTime.fromMillisecondsSinceEpoch": {[]string{"int"}, "DateTime"},
	"RegExp":                              {[]string{"String"}, "RegExp"},
	"MapEntry":                            {[]string{"", ""}, ""},
	"ByteData.view":                       {[]string{"ByteBuffer"}, "ByteData"},
	"Uint8List":                           {[]string{"int"}, "Uint8List"},
	"Uint8List.fromList":                  {[]string{"List"}, "Uint8List"},
	"identical":                           {[]string{"", ""}, "bool"},
	"ImageFormImage":                      {[]string{"String"}, "ImageFormImage"},
}
var extStatics = map[string]string{"Int64.ZERO": "Int64", "Decimal.zero": "Decimal", "BoxFit.contain": "BoxFit", "TextOverflow.ellipsis": "TextOverflow",
	"EdgeInsets.only": "", "Image.network": "", "Localizations.of": ""}

// members of library types: result types, with parameters for methods
type extMember struct {
	method bool
	args   []string
	ret    string
}

func ms(ret string, args ...string) extMember { return extMember{true, args, ret} }
func gt(ret string) extMember                 { return extMember{false, nil, ret} }

var extInst = map[string]map[string]extMember{
	"num":      {"toInt": ms("int"), "toDouble": ms("double"), "toStringAsFixed": ms("String", "int"), "isNaN": gt("bool"), "abs": ms("num")},
	"String":   {"isEmpty": gt("bool"), "isNotEmpty": gt("bool"), "length": gt("int"), "split": ms("List<String>", "String"), "startsWith": ms("bool", ""), "trim": ms("String"), "runes": gt(""), "characters": gt(""), "codeUnits": gt("")},
	"bool":     {},
	"Int64":    {"toInt": ms("int"), "toDouble": ms("double"), "toStringUnsigned": ms("String")},
	"Decimal":  {"toJson": ms("String"), "compareTo": ms("int", "Decimal"), "toStringAsFixed": ms("String", "int"), "toDouble": ms("double"), "isInteger": gt("bool")},
	"DateTime": {"millisecondsSinceEpoch": gt("int"), "isUtc": gt("bool"), "toUtc": ms("DateTime"), "toIso8601String": ms("String"), "compareTo": ms("int", "DateTime"), "isBefore": ms("bool", "DateTime"), "isAfter": ms("bool", "DateTime"), "format": ms("String", "String")},
	"RegExp":   {"hasMatch": ms("bool", "String"), "stringMatch": ms("String?", "String")},
	"List":     {"map": ms(""), "toList": ms(""), "length": gt("int"), "isEmpty": gt("bool"), "isNotEmpty": gt("bool"), "first": gt(""), "join": ms("String", "String"), "where": ms(""), "contains": ms("bool", ""), "add": ms("void", "")},
	"Map":      {"map": ms(""), "length": gt("int"), "isEmpty": gt("bool"), "keys": gt(""), "values": gt(""), "entries": gt("")},
	"Set":      {"contains": ms("bool", ""), "add": ms("bool", ""), "remove": ms("bool", ""), "clear": ms("void"), "length": gt("int")},
}

var objMembers = map[string]extMember{"toString": ms("String"), "hashCode": gt("int"), "runtimeType": gt("Type"), "noSuchMethod": ms("")}

func init() {
	for k, v := range extInst["num"] {
		for _, t := range []string{"int", "double"} {
			if extInst[t] == nil {
				extInst[t] = map[string]extMember{}
			}
			extInst[t][k] = v
		}
	}
	extInst["double"]["abs"] = ms("double")
	extInst["int"]["abs"] = ms("int")
	extInst["num"]["compareTo"] = ms("int", "num")
}

// NewProgram checks the files of a program; the result lists what a compiler would reject.
func NewProgram(src map[string]string) *Program {
	p := &Program{Files: map[string]*File{}}
	var names []string
	for n := range src {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		f, err := Parse(n, src[n])
		if err != nil {
			p.Diags = append(p.Diags, n+": "+err.Error()+"\n    "+lineOf(src[n], err.(*Error).Line))
			continue
		}
		f.lib = p
		p.Files[n] = f
	}
	if len(p.Diags) > 0 {
		return p
	}
	for _, n := range names {
		c := &checker{p: p, f: p.Files[n], src: src[n]}
		c.file()
	}
	return p
}

func lineOf(s string, n int) string {
	ls := strings.Split(s, "\n")
	if n < 1 || n > len(ls) {
		return ""
	}
	return strings.TrimSpace(ls[n-1])
}

type checker struct {
	p    *Program
	f    *File
	src  string
	cls  *Class
	fn   *Func
	sc   []map[string]*Type // scopes; nil type: unknown
	prom map[string]bool    // names tested against null so far in this function
	ret  *Type
	seen map[string]bool
	inFn *Func // the closure around
}

func (c *checker) err(line int, f string, a ...any) {
	m := fmt.Sprintf("%s:%d: %s\n    %s", c.f.Name, line, fmt.Sprintf(f, a...), lineOf(c.src, line))
	if c.seen == nil {
		c.seen = map[string]bool{}
	}
	if !c.seen[m] {
		c.seen[m] = true
		c.p.Diags = append(c.p.Diags, m)
	}
}

// entity is what a top-level name stands for
type entity struct {
	cls *Class
	fn  *Func
	v   *Field
	ext string // library name
}

func (f *File) own(name string) *entity {
	for _, x := range f.Classes {
		if x.Name == name {
			return &entity{cls: x}
		}
	}
	for _, x := range f.Funcs {
		if x.Name == name {
			return &entity{fn: x}
		}
	}
	for _, x := range f.Vars {
		if x.Name == name {
			return &entity{v: x}
		}
	}
	return nil
}

// lookup finds a top-level name; many is set when two imports declare it.
func (f *File) lookup(name string) (e *entity, many bool) {
	if e := f.own(name); e != nil {
		return e, false
	}
	if !strings.HasPrefix(name, "_") {
		for _, im := range f.Imports {
			if g := f.lib.Files[im]; g != nil && g != f {
				if x := g.own(name); x != nil {
					if e != nil {
						return e, true
					}
					e = x
				}
			}
		}
	}
	if e != nil { // a library's name is hidden only if it is dart:core's
		for _, im := range f.Imports {
			if has(libs[im], name) {
				return e, true
			}
		}
		return e, false
	}
	for _, im := range append([]string{"dart:core"}, f.Imports...) {
		if has(libs[im], name) {
			return &entity{ext: name}, false
		}
	}
	return nil, false
}

func has(list, name string) bool {
	return list != "" && strings.Contains(" "+list+" ", " "+name+" ")
}

func (c *checker) top(name string, line int) *entity {
	e, many := c.f.lookup(name)
	if many {
		c.err(line, "the name %s is imported from two libraries", name)
	}
	return e
}

func (c *checker) typ(t *Type) {
	if t == nil {
		return
	}
	if t.Name == "" {
		c.typ(t.Ret)
		for _, x := range t.Fn {
			c.typ(x.T)
		}
		return
	}
	for _, a := range t.Args {
		c.typ(a)
	}
	e := c.top(t.Name, t.Line)
	switch {
	case e == nil:
		c.err(t.Line, "there is no type %s", t.Name)
	case e.fn != nil || e.v != nil:
		c.err(t.Line, "%s is not a type", t.Name)
	case e.cls != nil && len(t.Args) > 0:
		c.err(t.Line, "%s takes no type arguments", t.Name)
	}
}

func (c *checker) file() {
	for _, im := range c.f.Imports {
		if _, ok := libs[im]; !ok && c.p.Files[im] == nil {
			c.err(1, "the import '%s' does not exist", im)
		}
	}
	names := map[string]bool{}
	dup := func(n string, line int) {
		if names[n] {
			c.err(line, "the name %s is declared twice", n)
		}
		names[n] = true
	}
	for _, x := range c.f.Classes {
		dup(x.Name, x.Line)
		c.class(x)
	}
	for _, x := range c.f.Funcs {
		dup(x.Name, x.Line)
		c.function(x)
	}
	for _, x := range c.f.Vars {
		dup(x.Name, x.Line)
		c.typ(x.T)
		if x.Init != nil {
			c.begin()
			c.assign(x.T, x.Init, x.Line)
		}
	}
}

func (c *checker) begin() { c.sc, c.prom, c.ret = nil, map[string]bool{}, nil; c.push() }
func (c *checker) push()  { c.sc = append(c.sc, map[string]*Type{}) }
func (c *checker) pop()   { c.sc = c.sc[:len(c.sc)-1] }
func (c *checker) declare(n string, t *Type, line int) {
	m := c.sc[len(c.sc)-1]
	if _, ok := m[n]; ok {
		c.err(line, "the variable %s is declared twice", n)
	}
	m[n] = t
	delete(c.prom, n)
}
func (c *checker) local(n string) (*Type, bool) {
	for i := len(c.sc) - 1; i >= 0; i-- {
		if t, ok := c.sc[i][n]; ok {
			return t, true
		}
	}
	return nil, false
}

// member finds a member of a class or its superclasses: field, or function of a kind.
type member struct {
	f    *Field
	fn   *Func
	ext  string // type of a library member
	isEx bool
}

func (p *Program) classOf(f *File, t *Type) *Class {
	if t == nil {
		return nil
	}
	e, _ := f.lookup(t.Name)
	if e == nil {
		return nil
	}
	return e.cls
}

func (p *Program) supers(x *Class) []*Type {
	var o []*Type
	if x.Extends != nil {
		o = append(o, x.Extends)
	}
	return append(o, x.Impl...)
}

// find looks an instance or static member up; set looks for something assignable.
func (p *Program) find(x *Class, name string, static, set bool, depth int) *member {
	for _, f := range x.Fields {
		if f.Name == name && f.Static == static && !(set && f.Final) {
			return &member{f: f}
		}
	}
	for _, f := range x.Funcs {
		if f.Name == name && f.Static == static && f.Kind != "ctor" && f.Kind != "factory" && (f.Kind == "set") == set {
			return &member{fn: f}
		}
	}
	if static || depth > 30 {
		return nil
	}
	for _, t := range p.supers(x) {
		if q := p.classOf(x.File, t); q != nil {
			if m := p.find(q, name, false, set, depth+1); m != nil {
				return m
			}
		} else if s, ok := extMembers[t.Name][name]; ok && !set {
			return &member{isEx: true, ext: s}
		}
	}
	return nil
}

func (p *Program) ctor(x *Class, name string) *Func {
	for _, f := range x.Funcs {
		if (f.Kind == "ctor" || f.Kind == "factory") && f.Name == name {
			return f
		}
	}
	return nil
}

func (p *Program) subclass(x, y *Class, depth int) bool {
	if x == y {
		return true
	}
	if depth > 30 {
		return false
	}
	for _, t := range p.supers(x) {
		if q := p.classOf(x.File, t); q != nil && p.subclass(q, y, depth+1) {
			return true
		}
	}
	return false
}

func (p *Program) implementsExt(x *Class, name string, depth int) bool {
	if depth > 30 {
		return false
	}
	for _, t := range p.supers(x) {
		if q := p.classOf(x.File, t); q != nil {
			if p.implementsExt(q, name, depth+1) {
				return true
			}
		} else if t.Name == name {
			return true
		}
	}
	return false
}

func (c *checker) class(x *Class) {
	c.cls = x
	defer func() { c.cls = nil }()
	for _, t := range c.p.supers(x) {
		c.typ(t)
		if q := c.p.classOf(c.f, t); q != nil && c.p.subclass(q, x, 0) {
			c.err(x.Line, "the class %s inherits from itself", x.Name)
			return
		}
	}
	for i, t := range x.Impl {
		for _, u := range x.Impl[:i] {
			if t.String() == u.String() {
				c.err(x.Line, "%s is implemented twice", t)
			}
		}
	}
	names := map[string]bool{}
	dup := func(n string, line int) {
		if names[n] {
			c.err(line, "the member %s is declared twice", strings.TrimPrefix(n, "ctor "))
		}
		names[n] = true
	}
	for _, f := range x.Fields {
		dup(f.Name, f.Line)
		if !f.Final {
			dup(f.Name+"=", f.Line)
		}
		if f.Name == x.Name {
			c.err(f.Line, "a member is named like its class %s", x.Name)
		}
		c.typ(f.T)
		if f.Init != nil {
			c.begin()
			c.assign(f.T, f.Init, f.Line)
		} else if f.T != nil && !f.T.Null && f.T.Name != "dynamic" && (f.Static || !c.initialised(x, f)) {
			c.err(f.Line, "the field %s is never given a value", f.Name)
		}
	}
	for _, f := range x.Funcs {
		switch f.Kind {
		case "ctor", "factory":
			dup("ctor "+f.Name, f.Line)
			if f.Name != "" {
				dup(f.Name, f.Line)
			}
		case "set":
			dup(f.Name+"=", f.Line)
		default:
			dup(f.Name, f.Line)
			if f.Name == x.Name {
				c.err(f.Line, "a member is named like its class %s", x.Name)
			}
		}
		if f.Body == nil && f.Kind != "ctor" && !x.Abstract {
			c.err(f.Line, "the member %s of %s has no body", f.Name, x.Name)
		}
		c.function(f)
	}
	c.inherit(x)
}

func (c *checker) initialised(x *Class, fd *Field) bool {
	n := 0
	for _, f := range x.Funcs {
		if f.Kind != "ctor" {
			continue
		}
		n++
		ok := false
		for _, q := range f.Params {
			if q.This && q.Name == fd.Name && (!q.Optional || q.Def != nil) {
				ok = true
			}
		}
		for _, e := range f.Super {
			if e.K == "init" && e.S == fd.Name {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return n > 0
}

// inherit: a concrete class has every member that its supertypes declare, with a fitting type.
func (c *checker) inherit(x *Class) {
	seen := map[*Class]bool{}
	var walk func(q *Class, provided bool)
	walk = func(q *Class, own bool) {
		if seen[q] {
			return
		}
		seen[q] = true
		if q != x {
			for _, f := range q.Fields {
				if !f.Static && !strings.HasPrefix(f.Name, "_") {
					c.provides(x, f.Name, false, f.T, q, nil)
					if !f.Final {
						c.provides(x, f.Name, true, f.T, q, nil)
					}
				}
			}
			for _, f := range q.Funcs {
				if f.Static || f.Kind == "ctor" || f.Kind == "factory" || f.Kind == "operator" || strings.HasPrefix(f.Name, "_") {
					continue
				}
				t := f.Ret
				if f.Kind == "set" {
					t = f.Params[0].T
				}
				c.provides(x, f.Name, f.Kind == "set", t, q, f)
			}
		}
		for _, t := range c.p.supers(q) {
			if s := c.p.classOf(q.File, t); s != nil {
				walk(s, false)
			} else if !x.Abstract {
				for _, n := range extAbstract[t.Name] {
					if m := c.p.find(x, n, false, false, 0); m == nil || m.isEx || m.fn != nil && m.fn.Body == nil {
						c.err(x.Line, "the class %s does not implement %s of %s", x.Name, n, t.Name)
					}
				}
			}
		}
	}
	walk(x, true)
}

func (c *checker) provides(x *Class, name string, set bool, t *Type, from *Class, want *Func) {
	var mt *Type
	var mfn *Func
	found := false
	for _, f := range x.Fields {
		if f.Name == name && !f.Static && !(set && f.Final) {
			mt, found = f.T, true
		}
	}
	for _, f := range x.Funcs {
		if f.Name == name && !f.Static && f.Kind != "ctor" && f.Kind != "factory" && (f.Kind == "set") == set {
			mt, found, mfn = f.Ret, true, f
			if set {
				mt = f.Params[0].T
			}
			if f.Body == nil && !x.Abstract {
				found = false
			}
		}
	}
	if !found {
		if !x.Abstract {
			what := name
			if set {
				what = "the setter " + name
			}
			c.err(x.Line, "the class %s does not implement %s of %s", x.Name, what, from.Name)
		}
		return
	}
	if want != nil && want.Kind == "" && mfn == nil {
		c.err(x.Line, "%s of %s is a method, here it is a field", name, from.Name)
		return
	}
	if mt != nil && t != nil && !c.fits(mt, x.File, t, from.File) {
		c.err(x.Line, "the type of %s is %s, in %s it is %s", name, mt, from.Name, t)
	}
	if want != nil && mfn != nil && want.Kind == "" {
		if pos(mfn, false) > pos(want, false) || pos(mfn, true) < pos(want, true) {
			c.err(mfn.Line, "%s takes other parameters than in %s", name, from.Name)
		}
		for i, q := range want.Params {
			ok := false
			for j, r := range mfn.Params {
				if q.Named == r.Named && (q.Named && q.Name == r.Name || !q.Named && i == j) {
					ok = true
					if q.T != nil && r.T != nil && !c.fits(q.T, from.File, r.T, x.File) {
						c.err(mfn.Line, "the type of the parameter %s of %s is %s, in %s it is %s", r.Name, name, r.T, from.Name, q.T)
					}
				}
			}
			if !ok {
				c.err(mfn.Line, "%s lacks the parameter %s that it has in %s", name, q.Name, from.Name)
			}
		}
	}
}

func pos(f *Func, all bool) int {
	n := 0
	for _, p := range f.Params {
		if !p.Named && (all || !p.Optional) {
			n++
		}
	}
	return n
}

// fits: a value of type a (in file fa) may be used where b is expected.
func (c *checker) fits(a *Type, fa *File, b *Type, fb *File) bool {
	if a == nil || b == nil || a.Name == "dynamic" || b.Name == "dynamic" || b.Name == "void" {
		return true
	}
	if a.Name == "Null" {
		return b.Null || b.Name == "Null"
	}
	if b.Name == "Object" {
		return b.Null || !a.Null
	}
	if a.Null && !b.Null {
		return false
	}
	if a.Name == "" || b.Name == "" {
		return a.Name == b.Name || b.Name == "Function"
	}
	ca, cb := c.p.classOf(fa, a), c.p.classOf(fb, b)
	if ca != nil && cb != nil {
		return c.p.subclass(ca, cb, 0)
	}
	if ca != nil || cb != nil {
		if ca != nil {
			return c.p.implementsExt(ca, b.Name, 0)
		}
		return !known[a.Name]
	}
	if a.Name == "#int" {
		return b.Name == "int" || b.Name == "num" || !known[b.Name]
	}
	if b.Name == "num" && (a.Name == "int" || a.Name == "double") {
		return true
	}
	if b.Name == "Iterable" && (a.Name == "List" || a.Name == "Set") {
		return true
	}
	if a.Name != b.Name {
		return !known[a.Name] || !known[b.Name]
	}
	for i := range a.Args {
		if i < len(b.Args) && !c.fits(a.Args[i], fa, b.Args[i], fb) {
			return false
		}
	}
	return true
}

var known = map[string]bool{"int": true, "double": true, "num": true, "bool": true, "String": true, "List": true, "Map": true, "Set": true, "Int64": true, "Decimal": true, "DateTime": true, "RegExp": true, "#int": true, "Type": true, "MapEntry": true, "ByteData": true, "Uint8List": true}

func (c *checker) function(f *Func) {
	c.fn = f
	c.begin()
	c.typ(f.Ret)
	c.params(f)
	if f.Kind == "factory" && f.Class != nil {
		c.ret = &Type{Name: f.Class.Name}
	} else {
		c.ret = f.Ret
	}
	if f.Async && c.ret != nil && c.ret.Name == "Future" && len(c.ret.Args) == 1 {
		c.ret = c.ret.Args[0]
	}
	for _, e := range f.Super {
		if e.K == "init" {
			fd := c.p.find(f.Class, e.S, false, false, 0)
			if fd == nil {
				c.err(e.Line, "there is no field %s", e.S)
			}
			c.expr(e.A)
			continue
		}
		c.expr(e)
	}
	if f.Body != nil {
		if f.Expr {
			c.assign(c.ret, f.Body, f.Line)
		} else {
			c.stmt(f.Body)
			if r := c.ret; r != nil && r.Name != "void" && r.Name != "dynamic" && !r.Null && f.Kind != "ctor" && !f.Async && r.Name != "Future" && f.Kind != "set" && !ends(f.Body) {
				c.err(f.Line, "%s may end without a result", f.Name)
			}
		}
	}
	c.fn = nil
}

// ends: control does not run off the end of a statement
func ends(n *Node) bool {
	switch n.K {
	case "return", "throw":
		return true
	case "expr":
		return n.A.K == "throw"
	case "block":
		return len(n.L) > 0 && ends(n.L[len(n.L)-1])
	case "if":
		return n.C != nil && ends(n.B) && ends(n.C)
	case "switch":
		def := false
		for _, k := range n.L {
			def = def || k.A == nil
			if len(k.L) > 0 && !ends(k.L[len(k.L)-1]) {
				return false
			}
		}
		return def
	}
	return false
}

func (c *checker) params(f *Func) {
	for _, q := range f.Params {
		c.typ(q.T)
		t := q.T
		if q.This {
			if f.Class == nil || f.Kind != "ctor" {
				c.err(f.Line, "this.%s outside a constructor", q.Name)
				continue
			}
			fd := (*Field)(nil)
			for _, x := range f.Class.Fields {
				if x.Name == q.Name && !x.Static {
					fd = x
				}
			}
			if fd == nil {
				c.err(f.Line, "there is no field %s", q.Name)
				continue
			}
			t = fd.T
		}
		if q.Named && strings.HasPrefix(q.Name, "_") {
			c.err(f.Line, "a named parameter is private")
		}
		if q.Optional && q.Def == nil && t != nil && !t.Null && t.Name != "dynamic" && f.Body != nil && f.Kind != "factory" || q.Optional && q.Def == nil && q.This && t != nil && !t.Null && t.Name != "dynamic" {
			c.err(f.Line, "the optional parameter %s may not be null and has no default", q.Name)
		}
		if q.Def != nil {
			c.assign(t, q.Def, f.Line)
		}
		c.declare(q.Name, t, f.Line)
	}
}

func (c *checker) stmt(n *Node) {
	if n == nil {
		return
	}
	switch n.K {
	case "block":
		c.push()
		for _, s := range n.L {
			c.stmt(s)
		}
		c.pop()
	case "return":
		if n.A != nil {
			c.assign(c.ret, n.A, n.Line)
		}
	case "expr", "throw":
		c.expr(n.A)
	case "if":
		c.cond(n.A)
		c.stmt(n.B)
		c.stmt(n.C)
	case "while":
		c.cond(n.A)
		c.stmt(n.B)
	case "forin":
		t := c.expr(n.A)
		c.push()
		c.typ(n.T)
		vt := n.T
		if vt == nil {
			vt = elem(t)
		}
		if t != nil && t.Null {
			c.err(n.Line, "iterating over a value that may be null")
		}
		c.declare(n.S, vt, n.Line)
		c.stmt(n.B)
		c.pop()
	case "switch":
		c.expr(n.A)
		for _, k := range n.L {
			c.push()
			if k.A != nil {
				c.expr(k.A)
			}
			for _, s := range k.L {
				c.stmt(s)
			}
			c.pop()
		}
	case "var":
		for _, v := range n.L {
			c.typ(v.T)
			t := v.T
			if v.A != nil {
				u := c.assign(v.T, v.A, v.Line)
				if t == nil {
					t = u
					if t != nil && t.Name == "#int" {
						t = &Type{Name: "int"}
					}
				}
			}
			c.declare(v.S, t, v.Line)
		}
	}
}

func elem(t *Type) *Type {
	if t != nil && (t.Name == "List" || t.Name == "Set" || t.Name == "Iterable") && len(t.Args) == 1 {
		return t.Args[0]
	}
	return nil
}

func (c *checker) cond(n *Node) {
	t := c.expr(n)
	if t != nil && (t.Null || t.Name != "bool" && known[t.Name]) && t.Name != "dynamic" {
		c.err(n.Line, "a condition has the type %s", t)
	}
	c.promote(n)
}

// promote notes the variables that a condition or cast shows to be set. It forgets where that holds, so it never
// reports too much.
func (c *checker) promote(n *Node) {
	switch n.K {
	case "paren":
		c.promote(n.A)
	case "bin":
		if n.S == "==" || n.S == "!=" {
			for _, x := range []*Node{n.A, n.B} {
				for x.K == "paren" {
					x = x.A
				}
				if x.K == "assign" {
					x = x.A
				}
				if x.K == "id" {
					c.prom[x.S] = true
				}
			}
		}
		if n.S == "&&" || n.S == "||" {
			c.promote(n.A)
			c.promote(n.B)
		}
	case "is":
		if n.A.K == "id" {
			c.prom[n.A.S] = true
			if t, ok := c.local(n.A.S); ok && t != nil {
				// the tested type replaces the declared one; forget both
				for i := len(c.sc) - 1; i >= 0; i-- {
					if _, ok := c.sc[i][n.A.S]; ok {
						c.sc[i][n.A.S] = nil
						break
					}
				}
			}
		}
	case "un":
		c.promote(n.A)
	}
}

// assign checks an expression against the type it is used as.
func (c *checker) assign(t *Type, n *Node, line int) *Type {
	if t != nil && t.Name == "double" {
		asDouble(n)
	}
	u := c.expr(n)
	if t != nil && u != nil && u.Name != "void" && !c.fits(u, c.f, t, c.f) {
		if n.Line > 0 {
			line = n.Line
		}
		c.err(line, "a value of type %s is used as %s", u, t)
	}
	return u
}

// asDouble: whole numbers in a place where a double is expected are doubles.
func asDouble(n *Node) {
	switch n.K {
	case "lit":
		_, n.dbl = n.V.(int64)
	case "paren":
		asDouble(n.A)
	case "un":
		if n.S == "-" {
			asDouble(n.A)
		}
	case "cond":
		asDouble(n.B)
		asDouble(n.C)
	case "bin":
		if n.S == "??" {
			asDouble(n.A)
			asDouble(n.B)
		}
	}
}

func nn(t *Type) *Type {
	if t == nil || !t.Null {
		return t
	}
	u := *t
	u.Null = false
	return &u
}

func orNull(t *Type) *Type {
	if t == nil || t.Null || t.Name == "dynamic" {
		return t
	}
	u := *t
	u.Null = true
	return &u
}

func parseType(s string) *Type {
	if s == "" {
		return nil
	}
	p := &parser{t: lex(s, 0)}
	return p.typ()
}

func (c *checker) merge(a, b *Type) *Type {
	if a == nil || b == nil || a.Name == "dynamic" || b.Name == "dynamic" {
		return nil
	}
	null := a.Null || b.Null || a.Name == "Null" || b.Name == "Null"
	var t Type
	switch {
	case a.Name == "Null":
		t = *b
	case b.Name == "Null":
		t = *a
	case isNum(a) && isNum(b) && a.Name != b.Name:
		t.Name = "num"
		if a.Name != "double" && b.Name != "double" && a.Name != "num" && b.Name != "num" {
			t.Name = "int"
		}
	case a.Name == b.Name:
		t = *a
		for i := range a.Args {
			if i < len(b.Args) && a.Args[i].String() != b.Args[i].String() {
				t.Args = nil
			}
		}
	default:
		return nil
	}
	if t.Name != "Null" {
		t.Null = null
	}
	return &t
}

// settled: a whole number without a context is an int; an unknown type stays so.
func settled(t *Type) *Type {
	if t == nil {
		return &Type{Name: "dynamic"}
	}
	if t.Name == "#int" {
		u := *t
		u.Name = "int"
		return &u
	}
	return t
}

func isNum(t *Type) bool {
	return t.Name == "int" || t.Name == "double" || t.Name == "num" || t.Name == "#int"
}

func (c *checker) exprs(ns []*Node) {
	for _, n := range ns {
		c.expr(n)
	}
}

// expr checks an expression and returns its type if that is plain; nil is unknown.
func (c *checker) expr(n *Node) *Type {
	switch n.K {
	case "lit":
		switch n.V.(type) {
		case nil:
			return &Type{Name: "Null"}
		case bool:
			return &Type{Name: "bool"}
		case float64:
			return &Type{Name: "double"}
		}
		if n.dbl {
			return &Type{Name: "double"}
		}
		return &Type{Name: "#int"}
	case "str":
		for _, q := range n.Str {
			if q.expr != nil {
				c.expr(q.expr)
			}
		}
		return &Type{Name: "String"}
	case "paren":
		return c.expr(n.A)
	case "this":
		if c.cls == nil || c.fn != nil && (c.fn.Static || c.fn.Kind == "factory") {
			c.err(n.Line, "there is no this here")
			return nil
		}
		return &Type{Name: c.cls.Name}
	case "super":
		return nil
	case "id":
		return c.id(n)
	case "get":
		return c.get(n)
	case "index":
		t := c.expr(n.A)
		c.expr(n.B)
		if t != nil && t.Null && !n.Null {
			c.err(n.Line, "an element of a value that may be null")
		}
		if e := elem(t); e != nil {
			return e
		}
		if t != nil && t.Name == "Map" && len(t.Args) == 2 {
			return orNull(t.Args[1])
		}
		return nil
	case "call":
		return c.call(n)
	case "bang":
		t := c.expr(n.A)
		if n.A.K == "id" {
			c.prom[n.A.S] = true
		}
		return nn(t)
	case "un":
		t := c.expr(n.A)
		if t != nil && t.Null {
			c.err(n.Line, "the operator %s on a value that may be null", n.S)
		}
		if n.S == "!" {
			if t != nil && known[t.Name] && t.Name != "bool" {
				c.err(n.Line, "the operator ! on a value of type %s", t)
			}
			return &Type{Name: "bool"}
		}
		return t
	case "post":
		return c.expr(n.A)
	case "await":
		t := c.expr(n.A)
		if c.inFn != nil && !c.inFn.Async || c.inFn == nil && c.fn != nil && !c.fn.Async {
			c.err(n.Line, "await outside an async function")
		}
		if t != nil && t.Name == "Future" && len(t.Args) == 1 {
			return t.Args[0]
		}
		return nil
	case "throw":
		c.expr(n.A)
		return nil
	case "is":
		c.expr(n.A)
		c.typ(n.T)
		c.promote(n)
		return &Type{Name: "bool"}
	case "as":
		c.expr(n.A)
		c.typ(n.T)
		return n.T
	case "cond":
		c.cond(n.A)
		a := c.expr(n.B)
		b := c.expr(n.C)
		return c.merge(a, b)
	case "assign":
		return c.assignment(n)
	case "fn":
		return c.closure(n, nil)
	case "list", "set", "map":
		for _, t := range n.TA {
			c.typ(t)
		}
		var et, kt *Type
		name := map[string]string{"list": "List", "set": "Set", "map": "Map"}[n.K]
		if n.K == "map" {
			if len(n.TA) == 2 {
				kt, et = n.TA[0], n.TA[1]
			}
		} else if len(n.TA) == 1 {
			et = n.TA[0]
		}
		keys := map[string]bool{}
		for _, e := range n.L {
			c.element(e, kt, et, keys)
		}
		t := &Type{Name: name}
		if len(n.TA) > 0 {
			t.Args = n.TA
		}
		return t
	case "bin":
		return c.binary(n)
	}
	panic("dartx: expression " + n.K)
}

func (c *checker) element(e *Node, kt, et *Type, keys map[string]bool) {
	switch e.K {
	case "if":
		c.cond(e.A)
		c.element(e.B, kt, et, keys)
		if e.C != nil {
			c.element(e.C, kt, et, keys)
		}
	case "forin":
		t := c.expr(e.A)
		c.push()
		vt := e.T
		if vt == nil {
			vt = elem(t)
		}
		c.declare(e.S, vt, e.Line)
		c.element(e.B, kt, et, keys)
		c.pop()
	case "spread":
		c.expr(e.A)
	case "entry":
		c.assign(kt, e.A, e.Line)
		c.assign(et, e.B, e.Line)
	default:
		c.assign(et, e, e.Line)
	}
}

func (c *checker) binary(n *Node) *Type {
	a := c.expr(n.A)
	if n.S == "&&" || n.S == "||" {
		c.promote(n.A)
	}
	b := c.expr(n.B)
	bad := func(t *Type) bool { return t != nil && (t.Null || t.Name == "Null") }
	switch n.S {
	case "??":
		if a == nil || b == nil {
			return nil
		}
		t := c.merge(nn(a), b)
		return t
	case "==", "!=":
		c.promote(n)
		return &Type{Name: "bool"}
	case "&&", "||":
		for _, t := range []*Type{a, b} {
			if bad(t) || t != nil && known[t.Name] && t.Name != "bool" {
				c.err(n.Line, "the operator %s on a value of type %s", n.S, t)
			}
		}
		return &Type{Name: "bool"}
	case "<", ">", "<=", ">=":
		if bad(a) || bad(b) {
			c.err(n.Line, "the operator %s on a value that may be null", n.S)
		} else if a != nil && b != nil && known[a.Name] && known[b.Name] {
			if !(isNum(a) && isNum(b) || a.Name == "Decimal" && b.Name == "Decimal" || a.Name == "Int64" && (b.Name == "Int64" || isNum(b))) {
				c.err(n.Line, "%s cannot be compared with %s", a, b)
			}
		}
		return &Type{Name: "bool"}
	}
	if bad(a) || bad(b) {
		c.err(n.Line, "the operator %s on a value that may be null", n.S)
	}
	if n.S == "^" || n.S == "|" || n.S == "&" || n.S == "<<" || n.S == ">>" {
		for _, t := range []*Type{a, b} {
			if t != nil && known[t.Name] && t.Name != "int" && t.Name != "#int" && t.Name != "Int64" && t.Name != "bool" {
				c.err(n.Line, "the operator %s on a value of type %s", n.S, t)
			}
		}
		return &Type{Name: "int"}
	}
	if a != nil && b != nil && a.Name == "String" && n.S == "+" {
		if b.Name != "String" && known[b.Name] {
			c.err(n.Line, "%s is added to a text", b)
		}
		return a
	}
	return nil
}

func (c *checker) id(n *Node) *Type {
	if t, ok := c.local(n.S); ok {
		if c.prom[n.S] {
			return nn(t)
		}
		return t
	}
	if c.cls != nil {
		if m := c.p.find(c.cls, n.S, true, false, 0); m != nil {
			return c.memberType(m, c.cls)
		}
		if m := c.p.find(c.cls, n.S, false, false, 0); m != nil {
			if c.fn != nil && (c.fn.Static || c.fn.Kind == "factory") {
				c.err(n.Line, "the instance member %s is used without an object", n.S)
			}
			return c.memberType(m, c.cls)
		}
		if _, ok := objMembers[n.S]; ok {
			return nil
		}
	}
	e := c.top(n.S, n.Line)
	if e == nil {
		c.err(n.Line, "there is no %s", n.S)
		return nil
	}
	if e.v != nil {
		return e.v.T
	}
	return nil
}

func (c *checker) memberType(m *member, x *Class) *Type {
	switch {
	case m.f != nil:
		return c.in(m.f.T, m.f.Class)
	case m.fn != nil && m.fn.Kind == "get":
		return c.in(m.fn.Ret, m.fn.Class)
	case m.isEx:
		return parseType(m.ext)
	}
	return nil
}

// in: a type written in another file is only usable here if the name means the same.
func (c *checker) in(t *Type, from *Class) *Type {
	if t == nil || from == nil || from.File == c.f {
		return t
	}
	var ok func(t *Type) bool
	ok = func(t *Type) bool {
		if t == nil || t.Name == "" {
			return false
		}
		a, _ := from.File.lookup(t.Name)
		b, _ := c.f.lookup(t.Name)
		if a == nil || b == nil || a.cls != b.cls {
			return false
		}
		for _, x := range t.Args {
			if !ok(x) {
				return false
			}
		}
		return true
	}
	if !ok(t) {
		if t.Null {
			return nil
		}
		return nil
	}
	return t
}

// classRef tells whether an expression names a class.
func (c *checker) classRef(n *Node) *entity {
	if n.K != "id" {
		return nil
	}
	if _, ok := c.local(n.S); ok {
		return nil
	}
	if c.cls != nil && (c.p.find(c.cls, n.S, true, false, 0) != nil || c.p.find(c.cls, n.S, false, false, 0) != nil) {
		return nil
	}
	e := c.top(n.S, n.Line)
	if e != nil && (e.cls != nil || e.ext != "" && e.ext[0] >= 'A' && e.ext[0] <= 'Z' || e.ext == "num" || e.ext == "int" || e.ext == "double") {
		return e
	}
	return nil
}

func (c *checker) get(n *Node) *Type {
	if e := c.classRef(n.A); e != nil {
		if e.cls != nil {
			m := c.p.find(e.cls, n.S, true, false, 0)
			if m == nil && c.p.ctor(e.cls, n.S) == nil {
				c.err(n.Line, "%s has no static member %s", e.cls.Name, n.S)
				return nil
			}
			if strings.HasPrefix(n.S, "_") && e.cls.File != c.f {
				c.err(n.Line, "%s of %s is private", n.S, e.cls.Name)
			}
			if m != nil {
				return c.memberType(m, e.cls)
			}
			return nil
		}
		k := e.ext + "." + n.S
		if t, ok := extStatics[k]; ok {
			return parseType(t)
		}
		if _, ok := extFuncs[k]; !ok && (known[e.ext] || extInst[e.ext] != nil) {
			c.err(n.Line, "%s has no static member %s", e.ext, n.S)
		}
		return nil
	}
	t := c.expr(n.A)
	return c.instGet(n, t)
}

func (c *checker) instGet(n *Node, t *Type) *Type {
	if t == nil || t.Name == "dynamic" {
		return nil
	}
	if t.Name == "Null" {
		t = &Type{Name: "Null", Null: true}
	}
	obj, isObj := objMembers[n.S]
	if t.Null && !n.Null && !isObj && !chainNull(n.A) {
		c.err(n.Line, "the member %s of a value that may be null (%s)", n.S, t)
	}
	null := n.Null && t.Null
	if x := c.p.classOf(c.f, t); x != nil {
		m := c.p.find(x, n.S, false, false, 0)
		if m == nil {
			if isObj {
				return nil
			}
			c.err(n.Line, "%s has no member %s", t.Name, n.S)
			return nil
		}
		if strings.HasPrefix(n.S, "_") && x.File != c.f {
			c.err(n.Line, "%s of %s is private", n.S, x.Name)
		}
		r := c.memberType(m, x)
		if null {
			r = orNull(r)
		}
		return r
	}
	name := t.Name
	if name == "#int" {
		name = "int"
	}
	if mm := extInst[name]; mm != nil {
		m, ok := mm[n.S]
		if !ok {
			if isObj {
				m = obj
			} else {
				c.err(n.Line, "%s has no member %s", name, n.S)
				return nil
			}
		}
		if m.method {
			return nil
		}
		r := parseType(m.ret)
		if n.S == "first" {
			r = elem(t)
		}
		if null {
			r = orNull(r)
		}
		return r
	}
	return nil
}

func (c *checker) assignment(n *Node) *Type {
	var t *Type
	switch n.A.K {
	case "id":
		if l, ok := c.local(n.A.S); ok {
			t = l
			delete(c.prom, n.A.S)
		} else if c.cls != nil {
			if m := c.p.find(c.cls, n.A.S, false, true, 0); m != nil {
				t = c.setType(m)
			} else if m := c.p.find(c.cls, n.A.S, true, true, 0); m != nil {
				t = c.setType(m)
			} else {
				c.err(n.Line, "%s cannot be assigned to", n.A.S)
			}
		} else if e := c.top(n.A.S, n.Line); e == nil || e.v == nil || e.v.Final {
			c.err(n.Line, "%s cannot be assigned to", n.A.S)
		}
	case "get":
		if e := c.classRef(n.A.A); e != nil {
			c.get(n.A)
			break
		}
		u := c.expr(n.A.A)
		if u != nil && u.Null && !n.A.Null {
			c.err(n.Line, "the member %s of a value that may be null", n.A.S)
		}
		if x := c.p.classOf(c.f, u); x != nil {
			m := c.p.find(x, n.A.S, false, true, 0)
			if m == nil {
				c.err(n.Line, "%s of %s cannot be assigned to", n.A.S, x.Name)
			} else {
				t = c.setType(m)
			}
		}
	case "index":
		c.expr(n.A)
	}
	if n.S != "=" && n.S != "??=" {
		t = nil
	}
	if n.B.K == "fn" {
		return c.closure(n.B, t)
	}
	u := c.assign(t, n.B, n.Line)
	if t != nil && t.Name == "dynamic" {
		return nil
	}
	return u
}

func (c *checker) setType(m *member) *Type {
	if m.f != nil {
		return c.in(m.f.T, m.f.Class)
	}
	if m.fn != nil && len(m.fn.Params) == 1 {
		return c.in(m.fn.Params[0].T, m.fn.Class)
	}
	return nil
}

func (c *checker) closure(n *Node, t *Type) *Type {
	f := n.Fn
	ret, in, prom := c.ret, c.inFn, c.prom
	c.ret, c.inFn = nil, f
	if t != nil && t.Name == "" {
		if len(t.Fn) > 0 && pos(f, true) < len(t.Fn) {
			c.err(n.Line, "a closure takes too few parameters")
		}
	}
	c.prom = map[string]bool{}
	for k := range prom {
		c.prom[k] = true
	}
	c.push()
	for _, q := range f.Params {
		c.typ(q.T)
		c.declare(q.Name, q.T, n.Line)
	}
	if f.Expr {
		c.expr(f.Body)
	} else {
		c.stmt(f.Body)
	}
	c.pop()
	c.ret, c.inFn, c.prom = ret, in, prom
	return nil
}

func (c *checker) call(n *Node) *Type {
	for _, t := range n.TA {
		c.typ(t)
	}
	// what is called
	switch n.A.K {
	case "id":
		if t, ok := c.local(n.A.S); ok {
			if t != nil && t.Null {
				c.err(n.Line, "calling a value that may be null")
			}
			c.exprs(n.L)
			return nil
		}
		if c.cls != nil {
			m := c.p.find(c.cls, n.A.S, true, false, 0)
			if m == nil {
				m = c.p.find(c.cls, n.A.S, false, false, 0)
				if m != nil && c.fn != nil && (c.fn.Static || c.fn.Kind == "factory") {
					c.err(n.Line, "the instance member %s is used without an object", n.A.S)
				}
			}
			if m != nil {
				if m.fn != nil && m.fn.Kind == "" {
					c.args(n, m.fn)
					return c.in(m.fn.Ret, m.fn.Class)
				}
				if t := c.memberType(m, c.cls); t != nil && t.Null {
					c.err(n.Line, "calling a value that may be null")
				}
				c.exprs(n.L)
				return nil
			}
		}
		e := c.top(n.A.S, n.Line)
		switch {
		case e == nil:
			c.err(n.Line, "there is no %s", n.A.S)
		case e.cls != nil:
			return c.construct(n, e.cls, "")
		case e.fn != nil:
			c.args(n, e.fn)
			return e.fn.Ret
		case e.ext != "":
			if e.ext == "MapEntry" && len(n.L) == 2 && len(n.TA) == 0 {
				k, v := c.expr(n.L[0]), c.expr(n.L[1])
				return &Type{Name: "MapEntry", Args: []*Type{settled(k), settled(v)}}
			}
			if s, ok := extFuncs[e.ext]; ok {
				c.extArgs(n, e.ext, s.args)
				return parseType(s.ret)
			}
		}
		c.exprs(n.L)
		return nil
	case "get":
		g := n.A
		if e := c.classRef(g.A); e != nil {
			if e.cls != nil {
				if m := c.p.find(e.cls, g.S, true, false, 0); m != nil {
					if m.fn != nil && m.fn.Kind == "" {
						c.args(n, m.fn)
						return c.in(m.fn.Ret, m.fn.Class)
					}
					c.exprs(n.L)
					return nil
				}
				if strings.HasPrefix(g.S, "_") && e.cls.File != c.f {
					c.err(n.Line, "%s of %s is private", g.S, e.cls.Name)
				}
				if c.p.ctor(e.cls, g.S) == nil {
					c.err(n.Line, "%s has no static member %s", e.cls.Name, g.S)
					c.exprs(n.L)
					return nil
				}
				return c.construct(n, e.cls, g.S)
			}
			k := e.ext + "." + g.S
			if s, ok := extFuncs[k]; ok {
				c.extArgs(n, k, s.args)
				return parseType(s.ret)
			}
			c.get(g)
			c.exprs(n.L)
			return nil
		}
		t := c.expr(g.A)
		if t == nil || t.Name == "dynamic" {
			c.exprs(n.L)
			if m, ok := objMembers[g.S]; ok && !g.Null {
				return parseType(m.ret)
			}
			switch g.S { // on dynamic: unknown
			}
			return nil
		}
		if t.Null && g.S == "call" && g.Null {
			c.exprs(n.L)
			return nil
		}
		if x := c.p.classOf(c.f, t); x != nil {
			c.instGet(g, t)
			if m := c.p.find(x, g.S, false, false, 0); m != nil && m.fn != nil && m.fn.Kind == "" {
				c.args(n, m.fn)
				r := c.in(m.fn.Ret, m.fn.Class)
				if g.Null && t.Null {
					r = orNull(r)
				}
				return r
			}
			c.exprs(n.L)
			return nil
		}
		c.instGet(g, t)
		name := t.Name
		if name == "#int" {
			name = "int"
		}
		m, ok := extInst[name][g.S]
		if !ok {
			m, ok = objMembers[g.S]
		}
		if !ok {
			c.exprs(n.L)
			return nil
		}
		// a closure over the elements knows their type
		if (g.S == "map" || g.S == "where") && len(n.L) == 1 && n.L[0].K == "fn" {
			f := n.L[0].Fn
			c.push()
			prom := c.prom
			c.prom = map[string]bool{}
			for k := range prom {
				c.prom[k] = true
			}
			ret, in := c.ret, c.inFn
			c.ret, c.inFn = nil, f
			for i, q := range f.Params {
				var et *Type
				if name == "Map" && len(t.Args) == 2 && i < 2 {
					et = t.Args[i]
				} else if i == 0 {
					et = elem(t)
				}
				c.declare(q.Name, et, n.Line)
			}
			want := 1
			if name == "Map" {
				want = 2
			}
			if len(f.Params) != want {
				c.err(n.Line, "the closure of %s takes %d parameters", g.S, len(f.Params))
			}
			var rt *Type
			if f.Expr {
				rt = c.expr(f.Body)
			} else {
				c.stmt(f.Body)
			}
			c.pop()
			c.ret, c.inFn, c.prom = ret, in, prom
			r := &Type{Name: "List"}
			if name == "Map" {
				r.Name = "Map"
				if rt != nil && rt.Name == "MapEntry" {
					r.Args = rt.Args
				}
			} else if g.S == "where" {
				r = nn(t)
			} else if rt != nil {
				r.Args = []*Type{settled(rt)}
			}
			if g.Null && t.Null {
				return orNull(r)
			}
			return r
		}
		if m.args != nil {
			c.extArgs(n, g.S, m.args)
		} else {
			c.exprs(n.L)
		}
		r := parseType(m.ret)
		if g.S == "toList" {
			r = nn(t)
		}
		if g.Null && t.Null {
			r = orNull(r)
		}
		// the rest of a null-aware chain is skipped with it
		if !g.Null && chainNull(g.A) {
			r = orNull(r)
		}
		return r
	}
	c.expr(n.A)
	c.exprs(n.L)
	return nil
}

// chainNull: a null-aware access earlier in the chain.
func chainNull(n *Node) bool {
	for n != nil {
		switch n.K {
		case "get", "index":
			if n.Null {
				return true
			}
		case "call", "bang":
		default:
			return false
		}
		n = n.A
	}
	return false
}

func (c *checker) extArgs(n *Node, name string, want []string) {
	k := 0
	for i, a := range n.L {
		if n.N[i] != "" {
			c.expr(a)
			continue
		}
		var t *Type
		if k < len(want) {
			t = parseType(want[k])
		}
		k++
		c.assign(t, a, n.Line)
	}
	if k != len(want) {
		c.err(n.Line, "%s is called with %d arguments", name, k)
	}
}

func (c *checker) construct(n *Node, x *Class, name string) *Type {
	f := c.p.ctor(x, name)
	if f == nil {
		for _, g := range x.Funcs {
			if g.Kind == "ctor" || g.Kind == "factory" {
				c.err(n.Line, "%s has no constructor %s", x.Name, name)
				break
			}
		}
		if x.Abstract {
			c.err(n.Line, "the abstract class %s is created", x.Name)
		}
		c.exprs(n.L)
		return &Type{Name: x.Name}
	}
	if x.Abstract && f.Kind != "factory" {
		c.err(n.Line, "the abstract class %s is created", x.Name)
	}
	c.args(n, f)
	return &Type{Name: x.Name}
}

func (c *checker) args(n *Node, f *Func) {
	var ps []*Param
	named := map[string]*Param{}
	for _, q := range f.Params {
		if q.Named {
			named[q.Name] = q
		} else {
			ps = append(ps, q)
		}
	}
	k := 0
	given := map[string]bool{}
	for i, a := range n.L {
		var q *Param
		if nm := n.N[i]; nm != "" {
			q = named[nm]
			if q == nil {
				c.err(a.Line, "%s has no parameter %s", what(f), nm)
			}
			if given[nm] {
				c.err(a.Line, "the parameter %s is given twice", nm)
			}
			given[nm] = true
		} else {
			if k < len(ps) {
				q = ps[k]
			}
			k++
		}
		var t *Type
		if q != nil {
			t = q.T
			if q.This && f.Class != nil {
				for _, fd := range f.Class.Fields {
					if fd.Name == q.Name {
						t = fd.T
					}
				}
			}
			t = c.in(t, f.Class)
		}
		c.assign(t, a, n.Line)
	}
	if k < pos(f, false) || k > pos(f, true) {
		c.err(n.Line, "%s is called with %d arguments", what(f), k)
	}
	for nm, q := range named {
		if q.Required && !given[nm] {
			c.err(n.Line, "%s needs the parameter %s", what(f), nm)
		}
	}
}

func what(f *Func) string {
	if f.Class != nil {
		if f.Name == "" {
			return f.Class.Name
		}
		return f.Class.Name + "." + f.Name
	}
	return f.Name
}
