package schema

import (
	"math/big"
	"regexp"
	"strconv"
	"time"
	"unicode/utf8"
)

// Violated is the model of verification: the first format of the field that the value violates, nil when it satisfies all.
// The first format decides whether a nullable field may be absent (nil, or an empty text).
func (p *Program) Violated(f FieldRef, v any) *Format {
	fs, _ := p.Formats(f.File, f.Field.Tags)
	t := f.Field.Type
	for i := range fs {
		m := &fs[i]
		if i == 0 && t.Nullable() {
			if v == nil || t.Shape == "" && t.Name == "string" && v == "" {
				if m.Null {
					return nil
				}
				return m
			}
		}
		if t.Shape != "" {
			continue
		}
		if !p.Satisfies(f.File, t.Name, *m, v) {
			return m
		}
	}
	return nil
}

// Satisfies tells whether a present scalar or enumeration value satisfies a format's bounds and pattern.
func (p *Program) Satisfies(f *File, typ string, m Format, v any) bool {
	if !IsScalar(typ) {
		x := p.Visible(f, typ)
		if x == nil || x.Decl.Kind != Enum {
			return true
		}
		for _, i := range x.Decl.Items {
			if itemNum(i.ID) == v {
				return true
			}
		}
		return false
	}
	if typ == "bool" {
		return true
	}
	s, _ := v.(string)
	if typ == "string" {
		n := new(big.Rat).SetInt64(int64(utf8.RuneCountInString(s)))
		if b, ok := new(big.Rat).SetString(m.Min); ok && n.Cmp(b) < 0 {
			return false
		}
		if b, ok := new(big.Rat).SetString(m.Max); ok && n.Cmp(b) > 0 {
			return false
		}
		if m.Reg != "" {
			return regexp.MustCompile(Meaning(m.Reg)).MatchString(s)
		}
		return true
	}
	num := func(s string) *big.Rat {
		r, ok := new(big.Rat).SetString(s)
		if !ok {
			return nil
		}
		if typ == "float" {
			f, _ := strconv.ParseFloat(s, 32)
			r.SetFloat64(f)
		} else if typ == "double" {
			f, _ := strconv.ParseFloat(s, 64)
			r.SetFloat64(f)
		}
		return r
	}
	bound := func(s string) *big.Rat {
		if s == "" {
			return nil
		}
		if typ == "date" {
			d, err := time.Parse("2006-01-02T15:04:05Z", s)
			if err != nil {
				return nil
			}
			return new(big.Rat).SetInt64(d.UnixMilli())
		}
		return num(s)
	}
	x := num(s)
	if x == nil {
		return true
	}
	if b := bound(m.Min); b != nil && x.Cmp(b) < 0 {
		return false
	}
	if b := bound(m.Max); b != nil && x.Cmp(b) > 0 {
		return false
	}
	return true
}

// GenVerifyValue makes a value of a field near the edges of its formats.
func (p *Program) GenVerifyValue(r *R, f FieldRef, c ValCfg) any {
	t := f.Field.Type
	fs, _ := p.Formats(f.File, f.Field.Tags)
	if len(fs) == 0 || t.Shape != "" || r.P(20) {
		return p.GenField(r, f.File, t, c)
	}
	if t.Null && r.P(15) {
		return nil
	}
	if !IsScalar(t.Name) {
		if x := p.Visible(f.File, t.Name); x != nil && x.Decl.Kind == Enum && r.P(40) {
			return strconv.Itoa(r.Int(20) - 3)
		}
		return p.GenElem(r, f.File, t.Name, c)
	}
	m := Pick(r, fs)
	if t.Name == "string" {
		if m.Reg != "" && r.P(70) {
			for _, g := range Regs {
				if g.Re == m.Reg {
					s := g.Gen(r)
					if r.P(40) && s != "" { // off by one character
						rs := []rune(s)
						k := r.Int(len(rs))
						switch r.Int(3) {
						case 0:
							s = string(rs[:k]) + string(rs[k+1:])
						case 1:
							s = string(rs[:k]) + Pick(r, []string{"\n", " ", "é", "-", "0", "A"}) + string(rs[k:])
						case 2:
							s += Pick(r, []string{"\n", " ", "x", "9"})
						}
					}
					return s
				}
			}
		}
		b := Pick(r, []string{m.Min, m.Max})
		q, err := strconv.ParseFloat(b, 64)
		if err != nil || q > 1000 || q < -1 {
			return GenScalar(r, "string")
		}
		n := int(q)
		n += r.Int(3) - 1
		s := ""
		set := []rune("ab1")
		if r.P(40) {
			set = []rune("汉😀é")
		}
		for i := 0; i < n; i++ {
			s += string(Pick(r, set))
		}
		return s
	}
	b := Pick(r, []string{m.Min, m.Max})
	if b == "" {
		return GenScalar(r, t.Name)
	}
	if t.Name == "date" {
		d, err := time.Parse("2006-01-02T15:04:05Z", b)
		if err != nil {
			return "0"
		}
		return strconv.FormatInt(d.UnixMilli()+int64(Pick(r, []int{-1000, -1, 0, 0, 1, 1000})), 10)
	}
	x, ok := new(big.Rat).SetString(b)
	if !ok {
		return GenScalar(r, t.Name)
	}
	if lo, hi, ok := intRange(t.Name); ok {
		n := new(big.Int).Div(x.Num(), x.Denom())
		n.Add(n, big.NewInt(int64(r.Int(3)-1)))
		if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
			return Pick(r, []string{lo.String(), hi.String()})
		}
		return n.String()
	}
	step := Pick(r, []string{"0", "0", "1", "-1", "0.001", "-0.001", "0.0000001", "-0.0000001"})
	d, _ := new(big.Rat).SetString(step)
	x.Add(x, d)
	s := x.FloatString(10)
	for s[len(s)-1] == '0' {
		s = s[:len(s)-1]
	}
	if s[len(s)-1] == '.' {
		s = s[:len(s)-1]
	}
	if t.Name == "decimal" {
		if s == "-0" {
			s = "0"
		}
		return s
	}
	bits := 64
	if t.Name == "float" {
		bits = 32
	}
	g, _ := strconv.ParseFloat(s, bits)
	if g == 0 {
		return "0"
	}
	return strconv.FormatFloat(g, 'g', -1, bits)
}

// MultiDefined lists the fields of a type that several definitions compete for.
func (p *Program) MultiDefined(x Ref) map[string]bool {
	n := map[string]int{}
	seen := map[*Decl]bool{}
	var walk func(x Ref)
	walk = func(x Ref) {
		if seen[x.Decl] {
			return
		}
		seen[x.Decl] = true
		for _, f := range x.Decl.Fields {
			n[f.Name]++
		}
		for _, q := range x.Decl.Parents {
			if v := p.Visible(x.File, q.Name); v != nil {
				walk(*v)
			}
		}
	}
	walk(x)
	out := map[string]bool{}
	for k, c := range n {
		if c > 1 {
			out[k] = true
		}
	}
	return out
}
