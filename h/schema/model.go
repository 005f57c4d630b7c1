// Package schema is the independent model of hbuf schemas: what is generated, rendered and compared with.
package schema

import (
	"path"
	"strings"
)

type Program struct {
	Files []*File `json:"files"`
	// Pattern is the input pattern relative to the source root ("*.hbuf" when empty).
	Pattern string `json:"pattern,omitempty"`
	Layout  uint64 `json:"layout,omitempty"` // layout noise seed, 0 = canonical
}

type Pkg struct {
	Lang  string `json:"lang"`
	Value string `json:"value"`
}

type File struct {
	Path    string   `json:"path"`
	Pkgs    []Pkg    `json:"pkgs,omitempty"`
	Imports []string `json:"imports,omitempty"`
	Decls   []*Decl  `json:"decls,omitempty"`
}

const (
	Enum   = "enum"
	Data   = "data"
	Server = "server"
)

type Decl struct {
	Kind    string    `json:"kind"`
	Name    string    `json:"name"`
	Doc     []string  `json:"doc,omitempty"`
	Tags    []Tag     `json:"tags,omitempty"`
	Parents []Parent  `json:"parents,omitempty"`
	Items   []*Item   `json:"items,omitempty"`
	Fields  []*Field  `json:"fields,omitempty"`
	Methods []*Method `json:"methods,omitempty"`
}

type Parent struct {
	Name string `json:"name"`
	ID   string `json:"id"`
}

type Item struct {
	Name string   `json:"name"`
	ID   string   `json:"id"`
	Doc  []string `json:"doc,omitempty"`
	Tags []Tag    `json:"tags,omitempty"`
}

type Field struct {
	Name string   `json:"name"`
	ID   string   `json:"id"`
	Type Type     `json:"type"`
	Doc  []string `json:"doc,omitempty"`
	Tags []Tag    `json:"tags,omitempty"`
}

type Method struct {
	Name      string   `json:"name"`
	ID        string   `json:"id"`
	Result    string   `json:"result"`
	Param     string   `json:"param"`
	ParamName string   `json:"paramName"`
	Doc       []string `json:"doc,omitempty"`
	Tags      []Tag    `json:"tags,omitempty"`
}

type Type struct {
	Name   string `json:"name"`
	Null   bool   `json:"null,omitempty"`
	Shape  string `json:"shape,omitempty"` // "", "array", "map"
	ONull  bool   `json:"onull,omitempty"` // nullability of the array or map itself
	Key    string `json:"key,omitempty"`
	KeyRaw string `json:"keyRaw,omitempty"` // overrides Key when rendering (fault injection)
}

type Tag struct {
	Name string `json:"name"`
	KV   []KV   `json:"kv,omitempty"`
}
type KV struct {
	K string   `json:"k"`
	V []string `json:"v"`
}

func (t Type) String() string {
	s := t.Name
	if t.Null {
		s += "?"
	}
	switch t.Shape {
	case "array":
		s += "[]"
	case "map":
		k := t.Key
		if t.KeyRaw != "" {
			k = t.KeyRaw
		}
		s += "<" + k + ">"
	default:
		return s
	}
	if t.ONull {
		s += "?"
	}
	return s
}

// Nullable tells whether the field as a whole may be absent.
func (t Type) Nullable() bool {
	if t.Shape == "" {
		return t.Null
	}
	return t.ONull
}

var Scalars = []string{"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "bool", "float", "double", "decimal", "string", "date"}

func IsScalar(n string) bool {
	for _, s := range Scalars {
		if s == n {
			return true
		}
	}
	return false
}

var Reserved = append(append([]string{}, Scalars...), "data", "server", "enum", "import", "package")

func GetTag(tags []Tag, name string) *Tag {
	for i := range tags {
		if tags[i].Name == name {
			return &tags[i]
		}
	}
	return nil
}
func (t *Tag) Get(k string) (string, bool) {
	if t == nil {
		return "", false
	}
	for _, kv := range t.KV {
		if kv.K == k && len(kv.V) > 0 {
			return kv.V[0], true
		}
	}
	return "", false
}
func (t *Tag) All(k string) []string {
	if t == nil {
		return nil
	}
	for _, kv := range t.KV {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}

// ---- name conversions, written from their description (words start at capitals and after underscores)

func Words(s string) []string {
	var ws []string
	cur := ""
	flush := func() {
		if cur != "" {
			ws = append(ws, cur)
			cur = ""
		}
	}
	for _, c := range s {
		if c == '_' {
			flush()
			continue
		}
		if c >= 'A' && c <= 'Z' {
			flush()
		}
		cur += string(c)
	}
	flush()
	return ws
}

// Snake is the wire name.
func Snake(s string) string {
	ws := Words(s)
	for i := range ws {
		ws[i] = strings.ToLower(ws[i])
	}
	return strings.Join(ws, "_")
}
func UpperSnake(s string) string { return strings.ToUpper(Snake(s)) }

// Hump is the type/member name: underscores dropped, the letter after each and the first one upper-cased.
func Hump(s string) string {
	out := ""
	for _, p := range strings.Split(s, "_") {
		if p == "" {
			continue
		}
		out += strings.ToUpper(p[:1]) + p[1:]
	}
	return out
}
func LowerHump(s string) string {
	h := Hump(s)
	if h == "" {
		return h
	}
	return strings.ToLower(h[:1]) + h[1:]
}

// Norm identifies names that could collide after any conversion.
func Norm(s string) string { return strings.ToLower(strings.ReplaceAll(s, "_", "")) }

// ---- lookup

type Ref struct {
	File *File
	Decl *Decl
}

func (p *Program) FileByPath(q string) *File {
	for _, f := range p.Files {
		if path.Clean(f.Path) == path.Clean(q) {
			return f
		}
	}
	return nil
}

// Visible resolves a name from a file: own declarations first, then direct imports in order.
func (p *Program) Visible(f *File, name string) *Ref {
	for _, d := range f.Decls {
		if d.Name == name {
			return &Ref{f, d}
		}
	}
	for _, im := range f.Imports {
		q := path.Join(path.Dir(f.Path), im)
		if strings.HasPrefix(im, Root) {
			q = strings.TrimPrefix(im, Root)
		}
		g := p.FileByPath(q)
		if g == nil {
			continue
		}
		for _, d := range g.Decls {
			if d.Name == name {
				return &Ref{g, d}
			}
		}
	}
	return nil
}

func (p *Program) Decls(kind string) []Ref {
	var out []Ref
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if kind == "" || d.Kind == kind {
				out = append(out, Ref{f, d})
			}
		}
	}
	return out
}

type FieldRef struct {
	Ref
	Field *Field
}

// AllFields lists every own and inherited field once: parents first, depth first; a redeclared name keeps the
// definition found first in that order for position; Owners keeps all definitions.
func (p *Program) AllFields(r Ref) []FieldRef {
	var out []FieldRef
	seen := map[string]bool{}
	var walk func(r Ref, depth int)
	walk = func(r Ref, depth int) {
		if depth > 50 {
			return
		}
		for _, par := range r.Decl.Parents {
			if q := p.Visible(r.File, par.Name); q != nil && q.Decl.Kind == Data {
				walk(*q, depth+1)
			}
		}
		for _, f := range r.Decl.Fields {
			if !seen[f.Name] {
				seen[f.Name] = true
				out = append(out, FieldRef{r, f})
			}
		}
	}
	walk(r, 0)
	return out
}

type MethodRef struct {
	Ref
	Method *Method
}

// AllMethods: own first, then parents depth first, once per name.
func (p *Program) AllMethods(r Ref) []MethodRef {
	var out []MethodRef
	seen := map[string]bool{}
	var walk func(r Ref, depth int)
	walk = func(r Ref, depth int) {
		if depth > 50 {
			return
		}
		for _, m := range r.Decl.Methods {
			if !seen[m.Name] {
				seen[m.Name] = true
				out = append(out, MethodRef{r, m})
			}
		}
		for _, par := range r.Decl.Parents {
			if q := p.Visible(r.File, par.Name); q != nil && q.Decl.Kind == Server {
				walk(*q, depth+1)
			}
		}
	}
	walk(r, 0)
	return out
}

func (f *File) Pkg(lang string) string {
	v := ""
	for _, p := range f.Pkgs {
		if p.Lang == lang {
			v = p.Value
		}
	}
	return v
}
func (f *File) Base() string { return strings.TrimSuffix(path.Base(f.Path), ".hbuf") }

// Clone is a deep copy via explicit copying (no aliasing between shrink candidates).
func (p *Program) Clone() *Program {
	q := &Program{Pattern: p.Pattern, Layout: p.Layout}
	for _, f := range p.Files {
		g := &File{Path: f.Path, Pkgs: append([]Pkg(nil), f.Pkgs...), Imports: append([]string(nil), f.Imports...)}
		for _, d := range f.Decls {
			g.Decls = append(g.Decls, d.Clone())
		}
		q.Files = append(q.Files, g)
	}
	return q
}
func cloneTags(t []Tag) []Tag {
	var o []Tag
	for _, x := range t {
		y := Tag{Name: x.Name}
		for _, kv := range x.KV {
			y.KV = append(y.KV, KV{kv.K, append([]string(nil), kv.V...)})
		}
		o = append(o, y)
	}
	return o
}
func (d *Decl) Clone() *Decl {
	e := &Decl{Kind: d.Kind, Name: d.Name, Doc: append([]string(nil), d.Doc...), Tags: cloneTags(d.Tags), Parents: append([]Parent(nil), d.Parents...)}
	for _, x := range d.Items {
		y := *x
		y.Doc, y.Tags = append([]string(nil), x.Doc...), cloneTags(x.Tags)
		e.Items = append(e.Items, &y)
	}
	for _, x := range d.Fields {
		y := *x
		y.Doc, y.Tags = append([]string(nil), x.Doc...), cloneTags(x.Tags)
		e.Fields = append(e.Fields, &y)
	}
	for _, x := range d.Methods {
		y := *x
		y.Doc, y.Tags = append([]string(nil), x.Doc...), cloneTags(x.Tags)
		e.Methods = append(e.Methods, &y)
	}
	return e
}
