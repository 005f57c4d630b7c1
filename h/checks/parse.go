// Package checks holds one file per property.
package checks

import (
	"fmt"
	"hbuf/pkg/ast"
	"hbuf/pkg/parser"
	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
	"hv/lexref"
	"hv/schema"
	"os"
	"reflect"
	"strings"
)

// captureStdout swaps os.Stdout for a file while f runs and returns what was printed.
func captureStdout(f func()) string {
	old := os.Stdout
	t, err := os.CreateTemp("", "out")
	if err != nil {
		f()
		return ""
	}
	os.Remove(t.Name())
	os.Stdout = t
	defer func() { os.Stdout = old; t.Close() }()
	f()
	n, _ := t.Seek(0, 1)
	if n == 0 {
		return ""
	}
	b := make([]byte, min(n, 500))
	t.ReadAt(b, 0)
	return string(b)
}

func parseText(name, text string, mode parser.Mode) (*ast.File, *token.FileSet, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, []byte(text), mode)
	return f, fs, err
}

// errList lists the positioned messages of an error.
func errList(err error) []*scanner.Error {
	switch e := err.(type) {
	case scanner.ErrorList:
		return e
	case *scanner.Error:
		return []*scanner.Error{e}
	case scanner.Error:
		return []*scanner.Error{&e}
	}
	return nil
}

// incomplete finds a missing or undefined part of a syntax tree.
func incomplete(f *ast.File) string {
	if f == nil {
		return "no tree"
	}
	id := func(w string, x *ast.Ident) string {
		if x == nil || x.Name == "" {
			return w + " has no name"
		}
		return ""
	}
	lit := func(w string, x *ast.BasicLit, k token.Token) string {
		if x == nil {
			return w + " is missing"
		}
		if x.Kind != k || x.Value == "" {
			return fmt.Sprintf("%s is %s %q", w, x.Kind, x.Value)
		}
		return ""
	}
	var bad []string
	add := func(s string) {
		if s != "" {
			bad = append(bad, s)
		}
	}
	tags := func(w string, ts []*ast.Tag) {
		for _, t := range ts {
			if t == nil {
				add(w + ": undefined annotation")
				continue
			}
			add(id(w+" annotation", t.Name))
			for _, kv := range t.KV {
				if kv == nil {
					add(w + ": undefined annotation key")
					continue
				}
				add(id(w+" key", kv.Name))
				if len(kv.Values) == 0 {
					add(w + ": key without value")
				}
				for _, v := range kv.Values {
					add(lit(w+" value", v, token.STRING))
				}
			}
		}
	}
	var typ func(w string, t ast.Expr)
	typ = func(w string, t ast.Expr) {
		if t == nil || reflect.ValueOf(t).IsNil() {
			add(w + " has no type")
			return
		}
		switch x := t.(type) {
		case *ast.VarType:
			if n, ok := x.TypeExpr.(*ast.Ident); !ok {
				add(fmt.Sprintf("%s type is %T", w, x.TypeExpr))
			} else {
				add(id(w+" type", n))
			}
		case *ast.ArrayType:
			if x.VType == nil {
				add(w + " element type is missing")
			} else {
				typ(w+" element", x.VType)
			}
		case *ast.MapType:
			if x.VType == nil {
				add(w + " value type is missing")
			} else {
				typ(w+" value", x.VType)
			}
			typ(w+" key", x.Key)
		default:
			add(fmt.Sprintf("%s type is a %T", w, t))
		}
	}
	ext := func(w string, xs []*ast.Extends) {
		for _, x := range xs {
			if x == nil {
				add(w + ": undefined parent")
				continue
			}
			add(id(w+" parent", x.Name))
			add(lit(w+" parent number", x.Id, token.INT))
		}
	}
	for k, p := range f.Packages {
		if p == nil {
			add("undefined package")
			continue
		}
		add(id("package "+k, p.Name))
		add(lit("package "+k, p.Value, token.STRING))
	}
	for _, s := range f.Specs {
		switch x := s.(type) {
		case *ast.ImportSpec:
			add(lit("import", x.Path, token.STRING))
		case *ast.TypeSpec:
			switch d := x.Type.(type) {
			case *ast.DataType:
				add(id("data", d.Name))
				tags("data", d.Tags)
				ext("data", d.Extends)
				if d.Fields == nil {
					add("data without fields list")
					continue
				}
				for _, q := range d.Fields.List {
					if q == nil {
						add("undefined field")
						continue
					}
					add(id("field", q.Name))
					add(lit("field number", q.Id, token.INT))
					tags("field", q.Tags)
					typ("field", q.Type)
				}
			case *ast.EnumType:
				add(id("enum", d.Name))
				tags("enum", d.Tags)
				for _, q := range d.Items {
					if q == nil {
						add("undefined item")
						continue
					}
					add(id("item", q.Name))
					add(lit("item number", q.Id, token.INT))
					tags("item", q.Tags)
				}
			case *ast.ServerType:
				add(id("server", d.Name))
				tags("server", d.Tags)
				ext("server", d.Extends)
				for _, q := range d.Methods {
					if q == nil {
						add("undefined method")
						continue
					}
					add(id("method", q.Name))
					add(id("method parameter", q.ParamName))
					add(lit("method number", q.Id, token.INT))
					tags("method", q.Tags)
					if q.Result == nil {
						add("method without result")
					} else {
						typ("method result", q.Result)
					}
					if q.Param == nil {
						add("method without parameter")
					} else {
						typ("method parameter", q.Param)
					}
				}
			default:
				add(fmt.Sprintf("declaration is a %T", x.Type))
			}
		default:
			add(fmt.Sprintf("undefined part %T", s))
		}
	}
	return strings.Join(bad, "; ")
}

// ---- mutations

var snippets = []string{"data ", "server ", "enum ", "import ", "package ", "int32", "string", "=", "= 0", "?", "<", ">", "[", "]", "{", "}", "(", ")", ",", ":", ";", "\n", "\r\n", "\"", "\"x\"", "`", "`r`", "//", "/*", "*/", "/**/", "/* a */", ".5", ".", "0x", "0b2", "09", "1_", "_", "__", "'", "#", "\x00", "\xff", "\xef\xbb\xbf", "é", "名", "\\", "\"\\q\"", "\"\\u12\"", "[db:name=\"a\"]", "data A{}", "int32[] Get(B c) = 1\n", "void a(b c)=0", "V<K<L>>", "\t", " ", "-1", "1.5", "/", "line 3", "//x\n", "/*\n*/", "@", "$", "~", "|"}

func mutateBytes(r *schema.R, b []byte) []byte {
	for n := 1 + r.Geo(6); n > 0; n-- {
		if len(b) == 0 {
			b = []byte(schema.Pick(r, snippets))
			continue
		}
		i := r.Int(len(b) + 1)
		switch r.Int(7) {
		case 0: // delete a run
			j := min(len(b), i+1+r.Geo(12))
			b = append(append([]byte{}, b[:i]...), b[j:]...)
		case 1, 2: // insert a snippet
			s := schema.Pick(r, snippets)
			b = append(append(append([]byte{}, b[:i]...), s...), b[i:]...)
		case 3: // replace a byte
			if i < len(b) {
				b = append([]byte{}, b...)
				b[i] = byte(r.Int(256))
			}
		case 4: // duplicate a run
			j := min(len(b), i+1+r.Int(30))
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 5: // truncate
			if r.P(30) {
				b = b[:i]
			}
		case 6: // move a run
			j := min(len(b), i+1+r.Int(20))
			run := append([]byte{}, b[i:j]...)
			rest := append(append([]byte{}, b[:i]...), b[j:]...)
			k := r.Int(len(rest) + 1)
			b = append(append(append([]byte{}, rest[:k]...), run...), rest[k:]...)
		}
	}
	return b
}

// mutateTokens edits the token sequence and prints it again.
func mutateTokens(r *schema.R, src string) string {
	ts, _ := lexref.Lex(src)
	var xs []string
	for _, t := range ts {
		switch {
		case t.Kind == lexref.EOF, t.Kind == lexref.Comment:
		case t.Auto:
			xs = append(xs, "\n")
		default:
			xs = append(xs, t.Text)
		}
	}
	pool := []string{"data", "server", "enum", "import", "package", "a", "B", "int32", "1", "0x1F", `"s"`, "=", "?", "<", ">", "[", "]", "{", "}", "(", ")", ",", ":", ";", "\n"}
	for n := 1 + r.Geo(2); n > 0 && len(xs) > 0; n-- {
		i := r.Int(len(xs))
		switch r.Int(5) {
		case 0, 1:
			xs = append(append([]string{}, xs[:i]...), xs[i+1:]...)
		case 2:
			xs = append(append(append([]string{}, xs[:i]...), schema.Pick(r, pool)), xs[i:]...)
		case 3:
			xs = append([]string{}, xs...)
			xs[i] = schema.Pick(r, pool)
		case 4:
			if i+1 < len(xs) {
				xs = append([]string{}, xs...)
				xs[i], xs[i+1] = xs[i+1], xs[i]
			}
		}
	}
	return strings.Join(xs, " ")
}

// syntaxCfg: any program the grammar can express (semantics irrelevant).
var syntaxCfg = schema.Cfg{MinFiles: 1, MaxFiles: 1, MaxEnums: 2, MaxDatas: 4, MinDatas: 1, MaxServers: 2, MaxFields: 6, MaxItems: 5, MaxMethods: 4, ParentPct: 40, MaxParents: 3,
	MapKeys: schema.AllKeys, EnumKeys: true, Shapes: true, DataRefs: true, EnumRefs: true, DocPct: 25, MultiDoc: true, GoPkgs: "one", Pkgs: []string{"java"}, HexPct: 15, RPCTags: true, BigIDs: true, Void: true, Diamonds: true, Override: true}

func genSyntax(r *schema.R, imports bool) *schema.Program {
	p := schema.Generate(r, syntaxCfg)
	p.Layout = r.U64()
	if r.P(15) {
		p.Layout = 0
	}
	decorate(r, p)
	if imports {
		for n := r.Geo(3); n > 0; n-- {
			p.Files[0].Imports = append(p.Files[0].Imports, schema.Pick(r, []string{"a.hbuf", "lib/b.hbuf", "../c.hbuf", "./d_1.hbuf", "x-y.hbuf"}))
		}
	}
	return p
}

var tagNames = []string{"db", "verify", "format", "bind", "cache", "lang", "ui", "custom", "rpc", "tag", "x_1", "Note"}
var tagVals = []string{"", "a", "a b", "x,y", "=", "[", "]", "//no", "/*no*/", "名", "{\\\"q\\\"}", "\\\\", "\\n", "\\u00e9", "A.b", "${id}", "?{x: y}", ";", "100%", "'"}

// decorate adds arbitrary annotations everywhere.
func decorate(r *schema.R, p *schema.Program) {
	p.EachTags(func(ts *[]schema.Tag) {
		if !r.P(20) {
			return
		}
		for n := 1 + r.Geo(2); n > 0; n-- {
			t := schema.Tag{Name: schema.Pick(r, tagNames)}
			for k := 1 + r.Geo(3); k > 0; k-- {
				kv := schema.KV{K: schema.Pick(r, []string{"key", "name", "v", "en", "zh_cn", "k1", "K"})}
				for q := 1 + r.Geo(2); q > 0; q-- {
					kv.V = append(kv.V, schema.Pick(r, tagVals))
				}
				t.KV = append(t.KV, kv)
			}
			*ts = append(*ts, t)
		}
	})
}
