package checks

import (
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// dartUnit is one case whose generated Dart passed the checker.
type dartUnit struct {
	Case  *core.Case
	P     *schema.Program
	Files map[string]string
	In    *dartx.Interp
}

// dartOpen generates and checks; the result is set when the case is decided by that already.
func dartOpen(c *core.Case) (*dartUnit, *core.Result) {
	dir := scratch()
	defer os.RemoveAll(dir)
	files, bad := generate(c.Prog, filepath.Join(dir, "s"), filepath.Join(dir, "g"), "dart")
	if bad != nil {
		return nil, bad
	}
	q := dartx.NewProgram(files)
	if ds := dartDiags(q.Diags); len(ds) > 0 {
		if len(ds) > 8 {
			ds = append(ds[:8:8], fmt.Sprintf("and %d more", len(ds)-8))
		}
		return nil, core.Failf("compile", "the generated Dart does not compile:\n%s", strings.Join(ds, "\n"))
	}
	return &dartUnit{c, c.Prog, files, &dartx.Interp{P: q}}, nil
}

var dartTypeErr = regexp.MustCompile(`of type|may be null|is used as|cannot be compared|added to a text|a condition has`)

// dartDiags: in the user interface and verification files only syntax and names are judged, as the types of their
// library are not known.
func dartDiags(ds []string) (o []string) {
	for _, d := range ds {
		n := d[:strings.Index(d, ":")]
		if (strings.HasSuffix(n, ".ui.dart") || strings.HasSuffix(n, ".verify.dart")) && dartTypeErr.MatchString(strings.SplitN(d, "\n", 2)[0]) {
			continue
		}
		o = append(o, d)
	}
	return
}

// names of the Dart and Flutter libraries that the generated code uses without a qualifier
var dartTaken = map[string]bool{}

func init() {
	for _, s := range strings.Fields(`List Map Set String Object Iterable Future DateTime Duration RegExp Function MapEntry Exception Error Type Null Never Symbol Match Comparable Iterator Stream Uri Deprecated Pattern Record Enum Sink Invocation Stopwatch Expando Runes StringBuffer BigInt
 ByteData ByteBuffer Endian Decimal Rational Int64 Int32 IntX Data Context Client Server SynchronousFuture Key State Page Title Size Color Image Text Table Form Row Column Action Card Icon Step Switch Stepper Slider Radio Chip Banner Container Center Align Stack Flex Wrap Flow Spacer Tab Hero Route Overlay Tooltip Dialog Drawer Divider Ink Material Scaffold Theme Locale Localizations Widget Element Listener Offset Rect Path Paint Canvas Shadow Gradient Border Radius Matrix Visibility Opacity Transform Padding Baseline Builder Focus Actions Intent Shortcuts Viewport Scrollable Curve Curves Animation Category Feedback Typography Colors Icons Badge Autocomplete Checkbox Title Placeholder Notification Navigator Overflow Axis Alignment Clip Brightness Orientation View Window Dismissible Draggable Semantics Summary Immutable Factory Diagnosticable Category DocumentationIcon Unicode`) {
		dartTaken[s] = true
	}
}

// dartProblem: valid for Dart, with one of the known findings allowed.
func dartProblem(p *schema.Program, allow string) bool {
	all := map[int]bool{}
	for i := range p.Files {
		all[i] = true
	}
	if len(p.Validate(all)) > 0 || !p.ValidVerify() || !zeroEnums(p) {
		return false
	}
	if allow != "names" {
		for _, x := range p.Decls("") {
			if dartTaken[schema.Hump(x.Decl.Name)] {
				return false
			}
		}
		for _, x := range p.Decls(schema.Server) { // members of the generated client
			for _, m := range x.Decl.Methods {
				if n := schema.LowerHump(m.Name); n == "id" || n == "name" {
					return false
				}
			}
		}
	}
	if allow == "redeclared" {
		return true
	}
	for _, x := range p.Decls(schema.Data) {
		have := map[string]string{}
		for _, q := range ancestors(p, x) {
			for _, f := range q.Decl.Fields {
				n, t := schema.LowerHump(f.Name), dartType(p, q.File, f.Type)
				if h := have[n]; h != "" && h != t {
					return false
				}
				have[n] = t
			}
		}
	}
	for _, x := range p.Decls(schema.Server) {
		have := map[string]string{}
		for _, q := range ancestors(p, x) {
			for _, m := range q.Decl.Methods {
				n := schema.LowerHump(m.Name)
				t := dartElem(p, q.File, m.Result) + " " + dartElem(p, q.File, m.Param)
				if h := have[n]; h != "" && h != t {
					return false
				}
				have[n] = t
			}
		}
	}
	return true
}

var dartScalar = map[string]string{"int8": "int", "int16": "int", "int32": "int", "int64": "Int64", "uint8": "int", "uint16": "int", "uint32": "int", "uint64": "Int64",
	"bool": "bool", "float": "double", "double": "double", "string": "String", "date": "DateTime", "decimal": "Decimal", "void": "void"}

func dartElem(p *schema.Program, f *schema.File, n string) string {
	if s := dartScalar[n]; s != "" {
		return s
	}
	if x := p.Visible(f, n); x != nil {
		return schema.Hump(x.Decl.Name)
	}
	return "?"
}

// dartType is the Dart type of a field.
func dartType(p *schema.Program, f *schema.File, t schema.Type) string {
	e := dartElem(p, f, t.Name)
	if t.Null {
		e += "?"
	}
	switch t.Shape {
	case "array":
		e = "List<" + e + ">"
	case "map":
		e = "Map<" + dartElem(p, f, t.Key) + ", " + e + ">"
	default:
		return e
	}
	if t.ONull {
		e += "?"
	}
	return e
}

// class finds the class generated for a declaration.
func (u *dartUnit) class(x schema.Ref, suffix string) *dartx.Class {
	f := u.In.P.Files[x.File.Base()+"."+x.Decl.Kind+".dart"]
	if f == nil {
		return nil
	}
	for _, c := range f.Classes {
		if c.Name == schema.Hump(x.Decl.Name)+suffix {
			return c
		}
	}
	return nil
}

func (u *dartUnit) need(x schema.Ref, suffix string) *dartx.Class {
	c := u.class(x, suffix)
	if c == nil {
		panic(&dartx.Thrown{V: "there is no class " + schema.Hump(x.Decl.Name) + suffix + " in " + x.File.Base() + "." + x.Decl.Kind + ".dart"})
	}
	return c
}

// toDart makes a Dart value of a neutral one.
func (u *dartUnit) toDart(f *schema.File, t schema.Type, v any) dartx.Value {
	if v == nil {
		return nil
	}
	switch t.Shape {
	case "array":
		l := &dartx.List{}
		for _, e := range v.([]any) {
			l.V = append(l.V, u.elem(f, t.Name, e))
		}
		return l
	case "map":
		m := &dartx.Map{}
		for _, e := range v.([]any) {
			pr := e.([]any)
			u.In.MapSet(m, u.elem(f, t.Key, pr[0]), u.elem(f, t.Name, pr[1]))
		}
		return m
	}
	return u.elem(f, t.Name, v)
}

func (u *dartUnit) elem(f *schema.File, n string, v any) dartx.Value {
	if v == nil {
		return nil
	}
	if m, ok := v.(map[string]any); ok {
		x := u.P.Visible(f, n)
		return u.obj(*x, m)
	}
	s, _ := v.(string)
	switch n {
	case "bool", "string":
		return v
	case "int64", "uint64":
		k, _ := strconv.ParseInt(s, 10, 64)
		return dartx.Int64(k)
	case "float", "double":
		g, _ := strconv.ParseFloat(s, 64)
		if n == "float" {
			h, _ := strconv.ParseFloat(s, 32)
			g = h
		}
		return g
	case "date":
		k, _ := strconv.ParseInt(s, 10, 64)
		return dartx.Date(k)
	case "decimal":
		r, _ := new(big.Rat).SetString(s)
		return dartx.Decimal{R: r}
	}
	k, _ := strconv.ParseInt(s, 10, 64)
	if schema.IsScalar(n) {
		return k
	}
	x := u.P.Visible(f, n)
	return u.In.Call(u.In.Static(u.need(*x, ""), "valueOf"), []dartx.Value{k}, nil)
}

// named is the arguments of a data class's constructor.
func (u *dartUnit) named(x schema.Ref, v map[string]any) map[string]dartx.Value {
	a := map[string]dartx.Value{}
	for _, f := range u.P.AllFields(x) {
		a[schema.LowerHump(f.Field.Name)] = u.toDart(f.File, f.Field.Type, v[f.Field.Name])
	}
	return a
}

func (u *dartUnit) obj(x schema.Ref, v map[string]any) dartx.Value {
	return u.In.New(u.need(x, ""), nil, u.named(x, v))
}

func badDart(v dartx.Value, want string) any {
	return map[string]any{"!": fmt.Sprintf("a %s instead of a %s", dartx.Kind(v), want)}
}

// fields reads an object's declared fields.
func (u *dartUnit) fields(x schema.Ref, o dartx.Value) any {
	if o == nil {
		return nil
	}
	if _, ok := o.(*dartx.Obj); !ok {
		return badDart(o, schema.Hump(x.Decl.Name))
	}
	m := map[string]any{}
	for _, f := range u.P.AllFields(x) {
		m[f.Field.Name] = u.fromDart(f.File, f.Field.Type, u.In.Get(o, schema.LowerHump(f.Field.Name)))
	}
	return m
}

func (u *dartUnit) fromDart(f *schema.File, t schema.Type, v dartx.Value) any {
	if v == nil {
		return nil
	}
	switch t.Shape {
	case "array":
		l, ok := v.(*dartx.List)
		if !ok {
			return badDart(v, "List")
		}
		o := []any{}
		for _, e := range l.V {
			o = append(o, u.unelem(f, t.Name, e))
		}
		return o
	case "map":
		m, ok := v.(*dartx.Map)
		if !ok {
			return badDart(v, "Map")
		}
		o := []any{}
		for i, k := range m.K {
			o = append(o, []any{u.unelem(f, t.Key, k), u.unelem(f, t.Name, m.V[i])})
		}
		return o
	}
	return u.unelem(f, t.Name, v)
}

func (u *dartUnit) unelem(f *schema.File, n string, v dartx.Value) any {
	if v == nil {
		return nil
	}
	want := dartElem(u.P, f, n)
	k := strings.TrimPrefix(dartx.Kind(v), "_")
	if k != want {
		return badDart(v, want)
	}
	switch y := v.(type) {
	case bool, string:
		return v
	case int64:
		return strconv.FormatInt(y, 10)
	case dartx.Int64:
		return strconv.FormatInt(int64(y), 10)
	case dartx.Date:
		return strconv.FormatInt(int64(y), 10)
	case float64:
		return strconv.FormatFloat(y, 'g', -1, 64)
	case dartx.Decimal:
		return y.R.RatString()
	}
	x := u.P.Visible(f, n)
	if x.Decl.Kind == schema.Enum {
		return fmt.Sprint(u.In.Get(v, "value"))
	}
	return u.fields(*x, v)
}

// dartDomain keeps values within what the Dart types hold.
func dartDomain(p *schema.Program, x schema.Ref, v map[string]any) {
	for _, f := range p.AllFields(x) {
		t := f.Field.Type
		fit := func(n string, e any) any {
			switch y := e.(type) {
			case map[string]any:
				if d := p.Visible(f.File, n); d != nil && d.Decl.Kind == schema.Data {
					dartDomain(p, *d, y)
				}
			case string:
				if k, err := strconv.ParseUint(y, 10, 64); n == "uint64" && err == nil && k >= 1<<63 {
					return strconv.FormatUint(k>>1, 10)
				}
			}
			return e
		}
		switch y := v[f.Field.Name].(type) {
		case []any:
			seen := map[string]bool{}
			o := []any{}
			for i := range y {
				if pr, ok := y[i].([]any); ok && t.Shape == "map" && len(pr) == 2 {
					pr[0], pr[1] = fit(t.Key, pr[0]), fit(t.Name, pr[1])
					if k := fmt.Sprint(pr[0]); seen[k] {
						continue
					} else {
						seen[k] = true
					}
				} else {
					y[i] = fit(t.Name, y[i])
				}
				o = append(o, y[i])
			}
			v[f.Field.Name] = o
		default:
			v[f.Field.Name] = fit(t.Name, y)
		}
	}
}
