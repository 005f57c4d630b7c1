package schema

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Values of data types in one neutral form: integers, floats, dates (milliseconds), decimals and enumerations as
// strings; bool and string as themselves; arrays as lists; maps as lists of pairs; data as objects of schema field
// names. Absent is nil.

// ValCfg bounds generated values.
type ValCfg struct {
	Depth  int // of nested data
	Safe   bool
	MaxLen int
}

// IntRange is the range of an integer type.
func IntRange(n string) (lo, hi *big.Int, ok bool) { return intRange(n) }

func intRange(n string) (lo, hi *big.Int, ok bool) {
	bits := 0
	switch {
	case strings.HasPrefix(n, "int"):
		bits, _ = strconv.Atoi(n[3:])
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bits-1))
		return new(big.Int).Neg(hi), new(big.Int).Sub(hi, big.NewInt(1)), true
	case strings.HasPrefix(n, "uint"):
		bits, _ = strconv.Atoi(n[4:])
		hi = new(big.Int).Lsh(big.NewInt(1), uint(bits))
		return big.NewInt(0), new(big.Int).Sub(hi, big.NewInt(1)), true
	}
	return nil, nil, false
}

var oddStrings = []string{"", " ", "a", "0", "null", "true", "\"", "\\", "'", "`", "<b>&amp;</b>", "\n", "\t\r", "é", "汉字", "😀", "\u2028\u2029", "\u0001", "{}", "[1]", "a'b\"c", "$x", "${y}", "-- ;", "%s", "?", "' OR '1'='1", "0123456789012345678901234567890123456789", "\u200b", "e\u0301", "\x7f"}

// GenScalar makes a value of a scalar type.
func GenScalar(r *R, n string) any {
	if lo, hi, ok := intRange(n); ok {
		switch r.Int(6) {
		case 0:
			return "0"
		case 1:
			return lo.String()
		case 2:
			return hi.String()
		case 3:
			v := new(big.Int).Add(lo, big.NewInt(int64(r.Int(100))))
			return v.String()
		case 4:
			if n == "int64" || n == "uint64" { // around what a double can hold
				return strconv.FormatInt(1<<53+int64(r.Int(9))-4, 10)
			}
			return strconv.Itoa(r.Int(127))
		}
		w := new(big.Int).Sub(hi, lo)
		v := new(big.Int).SetUint64(r.U64() >> uint(r.Int(64)))
		v.Mod(v, w.Add(w, big.NewInt(1)))
		return v.Add(v, lo).String()
	}
	switch n {
	case "bool":
		return r.Bool()
	case "float":
		switch r.Int(5) {
		case 0:
			return "0"
		case 1:
			return strconv.FormatFloat(float64(Pick(r, []float32{math.MaxFloat32, -math.MaxFloat32, math.SmallestNonzeroFloat32, 1e-7, 1e21, 16777217, 0.1, -2.5})), 'g', -1, 32)
		}
		f := math.Float32frombits(uint32(r.U64()))
		if f != f || math.IsInf(float64(f), 0) || f == 0 || r.P(40) {
			f = float32(r.Int(2000)-1000) / 8
		}
		if f == 0 {
			return "0"
		}
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	case "double":
		switch r.Int(5) {
		case 0:
			return "0"
		case 1:
			return strconv.FormatFloat(Pick(r, []float64{math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e-7, 1e21, 9007199254740993, 0.1, -2.5, 123456789.125}), 'g', -1, 64)
		}
		f := math.Float64frombits(r.U64())
		if f != f || math.IsInf(f, 0) || f == 0 || r.P(40) {
			f = float64(r.Int(200000)-100000) / 64
		}
		if f == 0 {
			return "0"
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case "decimal":
		return GenDecimal(r)
	case "string":
		if r.P(40) {
			return Pick(r, oddStrings)
		}
		s := ""
		for i := r.Geo(12); i > 0; i-- {
			switch r.Int(5) {
			case 0:
				s += Pick(r, oddStrings)
			case 1:
				c := rune(r.Int(0x3000))
				s += string(c)
			default:
				s += string(rune(' ' + r.Int(95)))
			}
		}
		return s
	case "date":
		switch r.Int(5) {
		case 0:
			return "0"
		case 1:
			return strconv.Itoa(r.Int(2000) - 1000)
		case 2:
			return Pick(r, []string{"253402300799999", "-62135596800000", "951782400000", "1709164800001", "8640000000000000", "-8640000000000000", "-1"})
		}
		return strconv.FormatInt(int64(r.U64()%8000000000000)-4000000000000, 10)
	}
	return nil
}

// GenDecimal makes a decimal in plain canonical form (no trailing fraction zeros, no exponent).
func GenDecimal(r *R) string {
	switch r.Int(6) {
	case 0:
		return "0"
	case 1:
		return Pick(r, []string{"0.1", "-0.1", "0.000001", "123456789012345678901234567890.123456789", "-99999999999999999999", "1", "0.3", "9007199254740993", "0.0000000001"})
	}
	s := strconv.FormatUint(r.U64()>>uint(r.Int(60)), 10)
	if r.Bool() {
		f := strings.TrimRight(strconv.Itoa(r.Int(1000000)), "0")
		if f != "" {
			s += "." + strings.Repeat("0", r.Geo(3)) + f
		}
	}
	if r.P(40) && s != "0" {
		s = "-" + s
	}
	return s
}

// GenElem makes a value of a named type.
func (p *Program) GenElem(r *R, f *File, name string, c ValCfg) any {
	if IsScalar(name) {
		return GenScalar(r, name)
	}
	x := p.Visible(f, name)
	if x == nil {
		return nil
	}
	if x.Decl.Kind == Enum {
		if len(x.Decl.Items) == 0 {
			return "0"
		}
		return itemNum(Pick(r, x.Decl.Items).ID)
	}
	c.Depth--
	return p.GenData(r, *x, c)
}

func itemNum(id string) string {
	n, _ := strconv.ParseInt(id, 0, 64)
	return strconv.FormatInt(n, 10)
}

// ItemNum is the number of an item as plain decimal.
func ItemNum(id string) string { return itemNum(id) }

// GenField makes a value of a field's type.
func (p *Program) GenField(r *R, f *File, t Type, c ValCfg) any {
	if c.MaxLen == 0 {
		c.MaxLen = 4
	}
	x := p.Visible(f, t.Name)
	isData := x != nil && x.Decl.Kind == Data
	deep := isData && c.Depth <= 0
	switch t.Shape {
	case "array":
		if t.ONull && r.P(25) || deep {
			if t.ONull {
				return nil
			}
			return []any{}
		}
		l := []any{}
		for i := r.Geo(c.MaxLen); i > 0; i-- {
			if t.Null && r.P(30) {
				l = append(l, nil)
			} else {
				l = append(l, p.GenElem(r, f, t.Name, c))
			}
		}
		return l
	case "map":
		if t.ONull && r.P(25) || deep {
			if t.ONull {
				return nil
			}
			return []any{}
		}
		l := []any{}
		seen := map[string]bool{}
		for i := r.Geo(c.MaxLen); i > 0; i-- {
			k := p.GenElem(r, f, t.Key, c)
			if seen[fmt.Sprint(k)] {
				continue
			}
			seen[fmt.Sprint(k)] = true
			if t.Null && r.P(30) {
				l = append(l, []any{k, nil})
			} else {
				l = append(l, []any{k, p.GenElem(r, f, t.Name, c)})
			}
		}
		return l
	}
	if t.Null && (r.P(35) || deep) {
		return nil
	}
	return p.GenElem(r, f, t.Name, c)
}

// GenData makes a value of a data type.
func (p *Program) GenData(r *R, x Ref, c ValCfg) map[string]any {
	o := map[string]any{}
	all := r.P(10) // everything that can be absent is
	for _, f := range p.AllFields(x) {
		if all && f.Field.Type.Nullable() {
			o[f.Field.Name] = nil
			continue
		}
		o[f.Field.Name] = p.GenField(r, f.File, f.Field.Type, c)
	}
	return o
}

// AnyEnum lets values of enumeration fields be any number.
var AnyEnum bool

// Fit projects a value onto a type of a (shrunk) program: fields that are gone are dropped, new or unfit ones get a
// plain value.
func (p *Program) Fit(x Ref, v any) map[string]any {
	m, _ := v.(map[string]any)
	o := map[string]any{}
	for _, f := range p.AllFields(x) {
		o[f.Field.Name] = p.FitField(f.File, f.Field.Type, m[f.Field.Name])
	}
	return o
}

func (p *Program) FitField(f *File, t Type, v any) any {
	elem := func(v any) any {
		if v == nil && t.Null {
			return nil
		}
		return p.fitElem(f, t.Name, v)
	}
	switch t.Shape {
	case "array", "map":
		if v == nil && t.ONull {
			return nil
		}
		l, _ := v.([]any)
		o := []any{}
		for _, e := range l {
			pr, ok := e.([]any)
			if t.Shape == "array" {
				if !ok {
					o = append(o, elem(e))
				}
				continue
			}
			if !ok || len(pr) != 2 {
				continue
			}
			k := p.fitElem(f, t.Key, pr[0])
			dup := false
			for _, q := range o {
				dup = dup || q.([]any)[0] == k
			}
			if !dup {
				o = append(o, []any{k, elem(pr[1])})
			}
		}
		return o
	}
	return elem(v)
}

func (p *Program) fitElem(f *File, n string, v any) any {
	if IsScalar(n) {
		switch n {
		case "bool":
			b, _ := v.(bool)
			return b
		case "string":
			s, _ := v.(string)
			return s
		}
		s, ok := v.(string)
		if !ok {
			return "0"
		}
		if lo, hi, isInt := intRange(n); isInt {
			b, ok := new(big.Int).SetString(s, 10)
			if !ok || b.Cmp(lo) < 0 || b.Cmp(hi) > 0 {
				return "0"
			}
			return s
		}
		switch n {
		case "date":
			k, err := strconv.ParseInt(s, 10, 64)
			if err != nil || k > 8640000000000000 || k < -8640000000000000 {
				return "0"
			}
		case "float", "double":
			bits := 64
			if n == "float" {
				bits = 32
			}
			g, err := strconv.ParseFloat(s, bits)
			if err != nil || g == 0 {
				return "0"
			}
			return strconv.FormatFloat(g, 'g', -1, bits)
		case "decimal":
			if _, ok := new(big.Rat).SetString(s); !ok || strings.ContainsAny(s, "eE/") {
				return "0"
			}
		}
		return s
	}
	x := p.Visible(f, n)
	if x == nil {
		return nil
	}
	if x.Decl.Kind == Enum {
		s, _ := v.(string)
		for _, i := range x.Decl.Items {
			if itemNum(i.ID) == s {
				return s
			}
		}
		if _, err := strconv.ParseInt(s, 10, 32); err == nil && AnyEnum {
			return s
		}
		if len(x.Decl.Items) > 0 {
			return itemNum(x.Decl.Items[0].ID)
		}
		return "0"
	}
	return p.Fit(*x, v)
}

// Rename converts the field names of a value.
func (p *Program) RenameKeys(x Ref, v any, name func(string) string) any {
	m, ok := v.(map[string]any)
	if !ok {
		return nil
	}
	o := map[string]any{}
	for _, f := range p.AllFields(x) {
		if e, ok := m[f.Field.Name]; ok {
			o[name(f.Field.Name)] = p.renameField(f.File, f.Field.Type, e, name)
		}
	}
	return o
}

func (p *Program) renameField(f *File, t Type, v any, name func(string) string) any {
	if v == nil || IsScalar(t.Name) {
		return v
	}
	x := p.Visible(f, t.Name)
	if x == nil || x.Decl.Kind != Data {
		return v
	}
	l, _ := v.([]any)
	switch t.Shape {
	case "array":
		o := []any{}
		for _, e := range l {
			o = append(o, p.RenameKeys(*x, e, name))
		}
		return o
	case "map":
		o := []any{}
		for _, e := range l {
			pr := e.([]any)
			o = append(o, []any{pr[0], p.RenameKeys(*x, pr[1], name)})
		}
		return o
	}
	return p.RenameKeys(*x, v, name)
}

// ShrinkData proposes simpler values.
func ShrinkValue(v any) []any {
	var out []any
	switch x := v.(type) {
	case string:
		if x != "0" && x != "" {
			out = append(out, "0", "1", "")
			if len(x) > 2 {
				rs := []rune(x)
				out = append(out, string(rs[:len(rs)/2]), string(rs[len(rs)/2:]))
			}
		}
	case bool:
		if x {
			out = append(out, false)
		}
	case []any:
		if len(x) > 0 {
			out = append(out, []any{})
		}
		for i := range x {
			if len(x) > 1 {
				out = append(out, append(append([]any{}, x[:i]...), x[i+1:]...))
			}
			for _, e := range ShrinkValue(x[i]) {
				y := append([]any{}, x...)
				y[i] = e
				out = append(out, y)
			}
		}
	case map[string]any:
		for _, k := range sortedKeys(x) {
			if x[k] == nil {
				continue
			}
			for _, e := range append([]any{nil}, ShrinkValue(x[k])...) {
				y := map[string]any{}
				for q, w := range x {
					y[q] = w
				}
				y[k] = e
				out = append(out, y)
			}
		}
	}
	return out
}

func sortedKeys(m map[string]any) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// Wire compares a JSON tree (numbers as json.Number) with the value it must stand for and describes the first
// difference. Leaves are judged by the documented wire forms.
type Wire struct {
	P *Program
	// Base64: arrays of bytes are base64 texts.
	Base64 bool
	// OmitZero: required fields holding zero, and empty arrays and maps, may be left out; otherwise every field is present
	// and absent ones are null.
	OmitZero bool
	// KeysOnly does not judge the form of leaves.
	KeysOnly bool
}

type number interface{ String() string }

func isZero(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case string:
		return x == "" || x == "0"
	case bool:
		return !x
	case []any:
		return len(x) == 0
	}
	return false
}

func (w Wire) Data(at string, x Ref, v any, j any) string {
	m, ok := j.(map[string]any)
	if !ok {
		return fmt.Sprintf("%s: not an object: %v", at, j)
	}
	want := map[string]bool{}
	vm := v.(map[string]any)
	for _, f := range w.P.AllFields(x) {
		k := Snake(f.Field.Name)
		want[k] = true
		e, has := m[k]
		val := vm[f.Field.Name]
		t := f.Field.Type
		if w.OmitZero {
			if val == nil && t.Nullable() {
				if has {
					return fmt.Sprintf("%s: the absent field %s is encoded as %v", at, f.Field.Name, e)
				}
				continue
			}
			if !has {
				if isZero(val) && (!t.Nullable() || t.Shape != "") {
					continue
				}
				return fmt.Sprintf("%s: no key %q for the set field %s", at, k, f.Field.Name)
			}
		} else if !has {
			if val == nil {
				continue
			}
			return fmt.Sprintf("%s: no key %q for the field %s", at, k, f.Field.Name)
		}
		if d := w.Field(at+"."+k, f.File, t, val, e); d != "" {
			return d
		}
	}
	for _, k := range sortedKeys(m) {
		if !want[k] {
			return fmt.Sprintf("%s: the key %q is not the wire name of a field", at, k)
		}
	}
	return ""
}

func (w Wire) Field(at string, f *File, t Type, v any, j any) string {
	if v == nil {
		if j != nil && !(t.Shape != "" && isZero(v)) {
			return fmt.Sprintf("%s: absent, but encoded as %v", at, j)
		}
		return ""
	}
	switch t.Shape {
	case "array":
		l := v.([]any)
		if w.Base64 && t.Name == "uint8" && !t.Null {
			if _, ok := j.(string); ok {
				return ""
			}
		}
		a, ok := j.([]any)
		if !ok && !(j == nil && len(l) == 0) {
			return fmt.Sprintf("%s: not an array: %v", at, j)
		}
		if len(a) != len(l) {
			return fmt.Sprintf("%s: %d elements instead of %d", at, len(a), len(l))
		}
		for i := range l {
			if d := w.elem(fmt.Sprintf("%s[%d]", at, i), f, t.Name, l[i], a[i]); d != "" {
				return d
			}
		}
		return ""
	case "map":
		l := v.([]any)
		m, ok := j.(map[string]any)
		if !ok && !(j == nil && len(l) == 0) {
			return fmt.Sprintf("%s: not an object: %v", at, j)
		}
		if len(m) != len(l) {
			return fmt.Sprintf("%s: %d entries instead of %d", at, len(m), len(l))
		}
		for _, e := range l {
			pr := e.([]any)
			k := fmt.Sprint(pr[0])
			q, ok := m[k]
			if !ok {
				for o := range m { // another spelling of the same number
					if sameNumber(o, k, t.Key) {
						q, ok = m[o], true
					}
				}
			}
			if !ok {
				return fmt.Sprintf("%s: no entry %q", at, k)
			}
			if d := w.elem(at+"."+k, f, t.Name, pr[1], q); d != "" {
				return d
			}
		}
		return ""
	}
	return w.elem(at, f, t.Name, v, j)
}

func sameNumber(a, b, typ string) bool {
	switch typ {
	case "float", "double":
		bits := 64
		if typ == "float" {
			bits = 32
		}
		x, e1 := strconv.ParseFloat(a, bits)
		y, e2 := strconv.ParseFloat(b, bits)
		return e1 == nil && e2 == nil && x == y
	case "decimal":
		x, ok1 := new(big.Rat).SetString(a)
		y, ok2 := new(big.Rat).SetString(b)
		return ok1 && ok2 && x.Cmp(y) == 0
	}
	return false
}

func (w Wire) elem(at string, f *File, n string, v any, j any) string {
	if v == nil {
		if j != nil {
			return fmt.Sprintf("%s: absent, but encoded as %v", at, j)
		}
		return ""
	}
	bad := func(what string) string {
		return fmt.Sprintf("%s: %v is encoded as %#v, not as %s", at, v, j, what)
	}
	if !IsScalar(n) {
		x := w.P.Visible(f, n)
		if x.Decl.Kind == Data {
			return w.Data(at, *x, v, j)
		}
		if s, ok := j.(number); !w.KeysOnly && (!ok || s.String() != v) {
			return bad("its number")
		}
		return ""
	}
	if w.KeysOnly {
		return ""
	}
	switch n {
	case "bool":
		if j != v {
			return bad("a boolean")
		}
	case "string":
		if j != v {
			return bad("the same text")
		}
	case "int64", "uint64":
		if s, ok := j.(string); !ok || s != v {
			return bad("a string of digits")
		}
	case "decimal":
		if s, ok := j.(string); !ok || !sameNumber(s, v.(string), n) {
			return bad("a string holding the number")
		}
	case "float", "double":
		if s, ok := j.(number); !ok || !sameNumber(s.String(), v.(string), n) {
			return bad("the number")
		}
	default: // date, small integers
		if s, ok := j.(number); !ok || s.String() != v {
			return bad("the number")
		}
	}
	return ""
}

// JSON is the documented wire form of a field's value (numbers exact); absent fields are left out.
func (p *Program) JSON(f *File, t Type, v any, b64 bool) any {
	if v == nil {
		return nil
	}
	switch t.Shape {
	case "array":
		l := v.([]any)
		if b64 && t.Name == "uint8" && !t.Null {
			b := []byte{}
			for _, e := range l {
				n, _ := strconv.Atoi(e.(string))
				b = append(b, byte(n))
			}
			return b
		}
		o := []any{}
		for _, e := range l {
			o = append(o, p.jsonElem(f, t.Name, e, b64))
		}
		return o
	case "map":
		o := map[string]any{}
		for _, e := range v.([]any) {
			pr := e.([]any)
			o[fmt.Sprint(pr[0])] = p.jsonElem(f, t.Name, pr[1], b64)
		}
		return o
	}
	return p.jsonElem(f, t.Name, v, b64)
}

func (p *Program) jsonElem(f *File, n string, v any, b64 bool) any {
	if v == nil {
		return nil
	}
	if !IsScalar(n) {
		x := p.Visible(f, n)
		if x.Decl.Kind == Data {
			return p.DataJSON(*x, v.(map[string]any), b64)
		}
		return json.Number(v.(string))
	}
	switch n {
	case "bool", "string", "int64", "uint64", "decimal":
		return v
	}
	return json.Number(v.(string))
}

// DataJSON is the wire form of a data value.
func (p *Program) DataJSON(x Ref, v map[string]any, b64 bool) map[string]any {
	o := map[string]any{}
	for _, f := range p.AllFields(x) {
		if e := v[f.Field.Name]; e != nil {
			o[Snake(f.Field.Name)] = p.JSON(f.File, f.Field.Type, e, b64)
		}
	}
	return o
}

// Zero is what a field holds that nothing was stored in.
func (p *Program) Zero(f *File, t Type, date string) any {
	if t.Nullable() || t.Shape != "" {
		return nil
	}
	switch t.Name {
	case "bool":
		return false
	case "string":
		return ""
	case "date":
		return date
	}
	if x := p.Visible(f, t.Name); x != nil && x.Decl.Kind == Data {
		return p.ZeroData(*x, date)
	}
	return "0"
}

func (p *Program) ZeroData(x Ref, date string) map[string]any {
	o := map[string]any{}
	for _, f := range p.AllFields(x) {
		o[f.Field.Name] = p.Zero(f.File, f.Field.Type, date)
	}
	return o
}
