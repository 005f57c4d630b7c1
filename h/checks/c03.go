package checks

import (
	"fmt"
	"hbuf/pkg/ast"
	"hbuf/pkg/parser"
	"hbuf/pkg/token"
	"hv/core"
	"hv/lexref"
	"hv/schema"
	"sort"
	"strings"
	"time"
)

func init() {
	core.Register(&core.Check{
		ID: "C03", Quick: 60000, Thorough: 5000000, Batch: 200, Timeout: 40 * time.Second,
		Rule: "the schema has at least two declarations with at least one annotation, parent or documentation comment, and is printed with layout noise",
		Gen: func(r *schema.R, idx int) *core.Case {
			return &core.Case{Prog: genSyntax(r, true)}
		},
		Eval1: evalC03,
	})
}

// dumpModel prints a file of the model, dumpTree the parsed tree; equal schemas print equally.
func dumpDoc(b *strings.Builder, doc []string) {
	for _, l := range doc {
		fmt.Fprintf(b, "  doc %q\n", schema.DocSource(l))
	}
}
func dumpTags(b *strings.Builder, ts []schema.Tag) {
	for _, t := range ts {
		fmt.Fprintf(b, "  tag %s\n", t.Name)
		for _, kv := range t.KV {
			fmt.Fprintf(b, "    %s", kv.K)
			for _, v := range kv.V {
				fmt.Fprintf(b, " %q", schema.Literal(v))
			}
			b.WriteString("\n")
		}
	}
}

func dumpModel(f *schema.File) string {
	var b strings.Builder
	last := map[string]string{}
	for _, p := range f.Pkgs {
		last[p.Lang] = p.Value
	}
	var ks []string
	for k := range last {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "package %s %q\n", k, `"`+last[k]+`"`)
	}
	for _, i := range f.Imports {
		fmt.Fprintf(&b, "import %q\n", `"`+i+`"`)
	}
	for _, d := range f.Decls {
		fmt.Fprintf(&b, "%s %s\n", d.Kind, d.Name)
		dumpDoc(&b, d.Doc)
		dumpTags(&b, d.Tags)
		for _, p := range d.Parents {
			fmt.Fprintf(&b, "  parent %s = %s\n", p.Name, p.ID)
		}
		for _, x := range d.Items {
			fmt.Fprintf(&b, " item %s = %s\n", x.Name, x.ID)
			dumpDoc(&b, x.Doc)
			dumpTags(&b, x.Tags)
		}
		for _, x := range d.Fields {
			fmt.Fprintf(&b, " field %s %s = %s\n", x.Name, x.Type, x.ID)
			dumpDoc(&b, x.Doc)
			dumpTags(&b, x.Tags)
		}
		for _, x := range d.Methods {
			fmt.Fprintf(&b, " method %s %s(%s %s) = %s\n", x.Result, x.Name, x.Param, x.ParamName, x.ID)
			dumpDoc(&b, x.Doc)
			dumpTags(&b, x.Tags)
		}
	}
	return b.String()
}

func treeType(t ast.Expr) string {
	switch x := t.(type) {
	case *ast.VarType:
		s := x.TypeExpr.(*ast.Ident).Name
		if x.Empty {
			s += "?"
		}
		return s
	case *ast.ArrayType:
		s := treeType(x.VType) + "[]"
		if x.Empty {
			s += "?"
		}
		return s
	case *ast.MapType:
		s := treeType(x.VType) + "<" + treeType(x.Key) + ">"
		if x.Empty {
			s += "?"
		}
		return s
	}
	return fmt.Sprintf("%T", t)
}

func dumpTree(f *ast.File) string {
	var b strings.Builder
	doc := func(g *ast.CommentGroup) {
		if g != nil {
			for _, c := range g.List {
				fmt.Fprintf(&b, "  doc %q\n", c.Text)
			}
		}
	}
	tags := func(ts []*ast.Tag) {
		for _, t := range ts {
			fmt.Fprintf(&b, "  tag %s\n", t.Name.Name)
			for _, kv := range t.KV {
				fmt.Fprintf(&b, "    %s", kv.Name.Name)
				for _, v := range kv.Values {
					fmt.Fprintf(&b, " %q", v.Value)
				}
				b.WriteString("\n")
			}
		}
	}
	ext := func(es []*ast.Extends) {
		for _, e := range es {
			fmt.Fprintf(&b, "  parent %s = %s\n", e.Name.Name, e.Id.Value)
		}
	}
	var ks []string
	for k := range f.Packages {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "package %s %q\n", f.Packages[k].Name.Name, f.Packages[k].Value.Value)
	}
	n := 0
	for _, s := range f.Specs {
		switch x := s.(type) {
		case *ast.ImportSpec:
			fmt.Fprintf(&b, "import %q\n", x.Path.Value)
			if n >= len(f.Imports) || f.Imports[n] != x {
				b.WriteString("(import list differs from the specs)\n")
			}
			n++
		case *ast.TypeSpec:
			same := func(d *ast.CommentGroup, name *ast.Ident) {
				if d != x.Doc || name != x.Name {
					b.WriteString("(declaration and spec disagree)\n")
				}
			}
			switch d := x.Type.(type) {
			case *ast.DataType:
				fmt.Fprintf(&b, "data %s\n", d.Name.Name)
				same(d.Doc, d.Name)
				doc(d.Doc)
				tags(d.Tags)
				ext(d.Extends)
				for _, q := range d.Fields.List {
					fmt.Fprintf(&b, " field %s %s = %s\n", q.Name.Name, treeType(q.Type), q.Id.Value)
					doc(q.Doc)
					tags(q.Tags)
				}
			case *ast.EnumType:
				fmt.Fprintf(&b, "enum %s\n", d.Name.Name)
				same(d.Doc, d.Name)
				doc(d.Doc)
				tags(d.Tags)
				for _, q := range d.Items {
					fmt.Fprintf(&b, " item %s = %s\n", q.Name.Name, q.Id.Value)
					doc(q.Doc)
					tags(q.Tags)
				}
			case *ast.ServerType:
				fmt.Fprintf(&b, "server %s\n", d.Name.Name)
				same(d.Doc, d.Name)
				doc(d.Doc)
				tags(d.Tags)
				ext(d.Extends)
				for _, q := range d.Methods {
					fmt.Fprintf(&b, " method %s %s(%s %s) = %s\n", treeType(q.Result), q.Name.Name, treeType(q.Param), q.ParamName.Name, q.Id.Value)
					doc(q.Doc)
					tags(q.Tags)
				}
			}
		}
	}
	if n != len(f.Imports) {
		b.WriteString("(import list longer than the specs)\n")
	}
	return b.String()
}

func diffLines(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		a, b := "<end>", "<end>"
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			ctx := ""
			for k := max(0, i-3); k < i; k++ {
				ctx += "  " + w[k] + "\n"
			}
			return fmt.Sprintf("%s- %s\n+ %s", ctx, a, b)
		}
	}
	return ""
}

func evalC03(c *core.Case) *core.Result {
	mf := c.Prog.Files[0]
	text, _ := mf.Render(c.Prog.FileSeed(0))
	f, fs, err := parseText("m.hbuf", text, parser.AllErrors|parser.ParseComments)
	if err != nil {
		return core.Failf("rejected", "%s", firstErr(err))
	}
	if s := incomplete(f); s != "" {
		return core.Failf("incomplete", "%s", s)
	}
	if d := diffLines(dumpModel(mf), dumpTree(f)); d != "" {
		return core.Failf("tree", "schema (-) and syntax tree (+) differ:\n%s", d)
	}
	// every comment of the text, in order
	var cw, cg []string
	ts, _ := lexref.Lex(text)
	for _, t := range ts {
		if t.Kind == lexref.Comment {
			cw = append(cw, noCR(t.Text))
		}
	}
	for _, g := range f.Comments {
		for _, x := range g.List {
			cg = append(cg, noCR(x.Text))
		}
	}
	if a, b := strings.Join(cw, "\n"), strings.Join(cg, "\n"); a != b {
		return core.Failf("comments", "comments of the text (-) and of the tree (+) differ:\n%s", diffLines(a, b))
	}
	// names and numbers stand where the tree says
	bad := ""
	ident := func(x *ast.Ident) { bad += misplaced(fs, text, x.NamePos, x.Name) }
	lit := func(x *ast.BasicLit) { bad += misplaced(fs, text, x.ValuePos, x.Value) }
	tags := func(ts []*ast.Tag) {
		for _, t := range ts {
			ident(t.Name)
			bad += misplaced(fs, text, t.Opening, "[")
			for _, kv := range t.KV {
				ident(kv.Name)
				for _, v := range kv.Values {
					lit(v)
				}
			}
		}
	}
	var typ func(t ast.Expr)
	typ = func(t ast.Expr) {
		switch x := t.(type) {
		case *ast.VarType:
			ident(x.TypeExpr.(*ast.Ident))
		case *ast.ArrayType:
			typ(x.VType)
			bad += misplaced(fs, text, x.Lbrack, "[") + misplaced(fs, text, x.Rbrack, "]")
		case *ast.MapType:
			typ(x.VType)
			typ(x.Key)
			bad += misplaced(fs, text, x.LSS, "<") + misplaced(fs, text, x.GTR, ">")
		}
	}
	for _, s := range f.Specs {
		x, ok := s.(*ast.TypeSpec)
		if !ok {
			continue
		}
		switch d := x.Type.(type) {
		case *ast.DataType:
			ident(d.Name)
			tags(d.Tags)
			bad += misplaced(fs, text, d.Data, "data")
			for _, e := range d.Extends {
				ident(e.Name)
				lit(e.Id)
			}
			for _, q := range d.Fields.List {
				ident(q.Name)
				lit(q.Id)
				tags(q.Tags)
				typ(q.Type)
			}
		case *ast.EnumType:
			ident(d.Name)
			tags(d.Tags)
			for _, q := range d.Items {
				ident(q.Name)
				lit(q.Id)
				tags(q.Tags)
			}
		case *ast.ServerType:
			ident(d.Name)
			tags(d.Tags)
			for _, e := range d.Extends {
				ident(e.Name)
				lit(e.Id)
			}
			for _, q := range d.Methods {
				ident(q.Name)
				ident(q.ParamName)
				lit(q.Id)
				tags(q.Tags)
				typ(q.Result)
				typ(q.Param)
			}
		}
	}
	if bad != "" {
		return core.Failf("place", "%s", bad)
	}
	rich := false
	n := 0
	for _, d := range mf.Decls {
		n++
		if len(d.Tags)+len(d.Parents)+len(d.Doc) > 0 {
			rich = true
		}
	}
	res := &core.Result{NonTrivial: n >= 2 && rich && c.Prog.Layout != 0, Sample: text}
	return res
}

func misplaced(fs *token.FileSet, text string, p token.Pos, want string) string {
	q := fs.Position(p)
	if q.Offset < 0 || q.Offset > len(text) || !strings.HasPrefix(text[q.Offset:], want) {
		return fmt.Sprintf("%q is not at %s; ", want, q)
	}
	return ""
}
