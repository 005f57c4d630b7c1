package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/schema"
	"hv/tsx"
	"math/big"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// C21: TypeScript verification accepts exactly what the declared formats allow.
func init() {
	core.Register(&core.Check{
		ID:    "C21",
		Rule:  "inputs of verified fields were judged both ways (accepted and rejected) by the compiled TypeScript rules; distinct programs and inputs",
		Quick: 1500, Thorough: 50000, Batch: 40, Timeout: 300e9,
		Setup:   tsx.Setup,
		Gen:     genC21,
		Shrinks: valueShrinks,
		Eval: func(cs []*core.Case) []*core.Result {
			schema.AnyEnum = true
			return tsBatch(cs, func(c *core.Case) bool { return validTS(c.Prog) }, tsOpt{}, evalC21)
		},
		Assumptions: []string{
			"decimal.js is a stand-in with exact comparison of decimal texts; element-plus' locale is a function that names its key",
			"inputs are values of the field's type or texts of a form control; numbers written with a plus sign, leading zeros, exponents, or without digits beside the point are not judged, nor are the texts null and undefined",
			"lists, maps and enumerations are judged by presence only; a missing required text is not judged",
			"a field redeclared along its inheritance with different formats is not judged",
		},
	})
}

func genC21(r *schema.R, idx int) *core.Case {
	cfg := tsCfg
	cfg.MaxServers = 0
	cfg.MinEnums, cfg.MaxEnums = 1, 4
	cfg.MaxDatas = 5
	p := schema.Generate(r, cfg)
	p.Pattern = "*"
	schema.DecorateVerify(r, p, 75)
	c := &core.Case{Prog: p}
	for _, x := range p.Decls(schema.Data) {
		for _, f := range p.AllFields(x) {
			if schema.GetTag(f.Field.Tags, "verify") == nil {
				continue
			}
			var vs []string
			for k := 6 + r.Int(12); k > 0; k-- {
				vs = append(vs, genInput(r, p, f))
			}
			c.Ops = append(c.Ops, core.Op{Op: "verify", Args: map[string]string{"type": x.Decl.Name, "field": f.Field.Name}, J: must(vs)})
		}
	}
	return c
}

// An input is "null", "undefined", "v" and a value of the type as JSON, or "s" and a text.
func genInput(r *schema.R, p *schema.Program, f schema.FieldRef) string {
	t := f.Field.Type
	if r.P(12) {
		return schema.Pick(r, []string{"null", "undefined", "s"})
	}
	if t.Shape != "" || !schema.IsScalar(t.Name) {
		return schema.Pick(r, []string{"null", "undefined"})
	}
	v := p.GenVerifyValue(r, f, schema.ValCfg{Depth: 1, MaxLen: 2})
	if v == nil {
		return "null"
	}
	if r.P(25) && t.Name != "string" {
		switch t.Name {
		case "bool":
		case "date":
			return "s" + schema.Pick(r, []string{"abc", "2020-13-45T00:00:00.000Z", "tomorrow", "2020-02-30T99:00:00.000Z", "-"})
		case "float", "double", "decimal":
			return "s" + schema.Pick(r, []string{"abc", "1.2.3", "1a", "a1", "-", "--1", "1,5", "1 2", "12abc34", "1.5x", "e5", "0x", "1/2", "５"})
		default:
			if lo, hi, ok := schema.IntRange(t.Name); ok && r.P(50) {
				n := new(big.Int)
				if r.P(50) {
					n.Add(hi, big.NewInt(int64(r.Int(3)-1)))
				} else {
					n.Sub(lo, big.NewInt(int64(r.Int(3)-1)))
				}
				if r.P(20) {
					n.Mul(n, big.NewInt(int64(r.Range(2, 1000000))))
				}
				return "s" + n.String()
			}
			return "s" + schema.Pick(r, []string{"abc", "1a", "a1", "1.5", "-", "--1", "1 2", "12abc34", "0.5", "1-", "1,000", "５", "5!", "x-3", "-1", "-7"})
		}
	}
	if r.P(40) {
		b, _ := json.Marshal(v)
		return "v" + string(b)
	}
	s, ok := v.(string)
	if !ok {
		b, _ := json.Marshal(v)
		return "v" + string(b)
	}
	switch t.Name {
	case "date":
		n, _ := strconv.ParseInt(s, 10, 64)
		if n < -62135596800000 || n > 253402300799999 {
			n = 0
		}
		return "s" + time.UnixMilli(n).UTC().Format("2006-01-02T15:04:05.000Z")
	case "float", "double":
		g, _ := strconv.ParseFloat(s, 64)
		return "s" + strconv.FormatFloat(g, 'f', -1, 64)
	}
	return "s" + s
}

var (
	integerText = regexp.MustCompile(`^(0|-?[1-9][0-9]*)$`)
	decimalText = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?$`)
	fraction    = regexp.MustCompile(`^-?[0-9]+\.[0-9]*[1-9][0-9]*$`)
	looseNumber = regexp.MustCompile(`^\s*[-+]?(0[xXbBoO][0-9a-fA-F]+|([0-9][0-9_]*\.?[0-9]*|\.[0-9]+)([eE][-+]?[0-9]+)?|Infinity|NaN)\s*$`)
)

func toText(v any) string { b, _ := json.Marshal(v); return string(b) }

// judgedText: the placeholders of absent values and characters on which the targets' expression languages differ are left out.
func judgedText(fs []schema.Format, s string) bool {
	if s == "null" || s == "undefined" {
		return false
	}
	for _, f := range fs {
		for _, c := range s {
			if f.Reg != "" && (c > 0xffff || strings.ContainsRune("\r\u2028\u2029\u200b\ufeff\u00a0", c)) {
				return false
			}
		}
	}
	return true
}

// wantInput is the format an input violates; judged is false for inputs outside the domain.
func wantInput(p *schema.Program, f schema.FieldRef, in string) (want *schema.Format, judged bool) {
	fs, _ := p.Formats(f.File, f.Field.Tags)
	if len(fs) == 0 {
		return nil, false
	}
	t := f.Field.Type
	first := &fs[0]
	if in == "null" || in == "undefined" || in == "s" {
		if in == "s" && (t.Shape != "" || !schema.IsScalar(t.Name) || t.Name == "bool") {
			return nil, false
		}
		if t.Nullable() {
			return p.Violated(f, nil), true
		}
		if t.Shape != "" || !schema.IsScalar(t.Name) || t.Name == "bool" {
			return nil, false
		}
		if t.Name == "string" {
			if in != "s" {
				return nil, false
			}
			return p.Violated(f, ""), true
		}
		return first, true
	}
	if t.Shape != "" || !schema.IsScalar(t.Name) {
		return nil, false
	}
	if in[0] == 'v' {
		var v any
		if json.Unmarshal([]byte(in[1:]), &v) != nil || toText(p.FitField(f.File, t, v)) != toText(v) {
			return nil, false
		}
		if s, ok := v.(string); ok && t.Name == "string" && !judgedText(fs, s) {
			return nil, false
		}
		return p.Violated(f, v), true
	}
	s := in[1:]
	switch t.Name {
	case "bool":
		return nil, false
	case "string":
		return p.Violated(f, s), judgedText(fs, s)
	case "date":
		d, err := time.Parse("2006-01-02T15:04:05.000Z", s)
		if err == nil {
			return p.Violated(f, strconv.FormatInt(d.UnixMilli(), 10)), true
		}
		return first, len(s) != 24 || s[4] == '-' && s[5] == '1' && s[6] > '2' || s[11:13] > "24"
	case "float", "double", "decimal":
		if decimalText.MatchString(s) {
			return p.Violated(f, s), true
		}
		return first, !looseNumber.MatchString(s)
	}
	if !integerText.MatchString(s) {
		return first, fraction.MatchString(s) || !looseNumber.MatchString(s)
	}
	lo, hi, _ := schema.IntRange(t.Name)
	n, _ := new(big.Int).SetString(s, 10)
	if n.Cmp(lo) < 0 || n.Cmp(hi) > 0 {
		return first, true
	}
	return p.Violated(f, s), true
}

func evalC21(u *tsUnit) *core.Result {
	res := &core.Result{}
	p := u.Prog
	type in map[string]any
	type job struct {
		at   string
		f    schema.FieldRef
		ins  []string
		want []*schema.Format
	}
	var ops []*gop
	var jobs []job
	for _, o := range u.Case.Ops {
		x := declOf(p, schema.Data, o.Args["type"])
		if x == nil || p.MultiDefined(*x)[o.Args["field"]] {
			continue
		}
		for _, f := range p.AllFields(*x) {
			if f.Field.Name != o.Args["field"] || schema.GetTag(f.Field.Tags, "verify") == nil {
				continue
			}
			var vs []string
			json.Unmarshal(o.J, &vs)
			j := job{at: x.Decl.Name + "." + f.Field.Name + " (" + f.Field.Type.Name + ")", f: f}
			ins := []in{}
			for _, s := range vs {
				w, ok := wantInput(p, f, s)
				if !ok {
					continue
				}
				j.ins, j.want = append(j.ins, s), append(j.want, w)
				switch s[0] {
				case 'n':
					ins = append(ins, nil)
				case 'u':
					ins = append(ins, in{"u": 1})
				case 's':
					ins = append(ins, in{"s": s[1:]})
				case 'v':
					ins = append(ins, in{"v": json.RawMessage(s[1:])})
				}
			}
			if len(ins) > 0 {
				ops = append(ops, &gop{Op: "verify", Type: "./" + x.File.Base() + ".verify", Name: "verify" + schema.Hump(x.Decl.Name) + "_" + schema.Hump(f.Field.Name), Text: f.Field.Type.Name, J: ins})
				jobs = append(jobs, j)
			}
		}
	}
	if len(ops) == 0 {
		return res
	}
	reps, err := u.ask(ops)
	if err != nil {
		return died(err)
	}
	acc, rej := 0, 0
	for i, j := range jobs {
		r := reps[i]
		if r.Panic != "" {
			return core.Failf("panic", "verifying %s: %s", j.at, r.Panic)
		}
		var as []struct {
			Panic string
			Calls []*string
		}
		b, _ := json.Marshal(r.Value)
		if err := json.Unmarshal(b, &as); err != nil || len(as) != len(j.ins) {
			return &core.Result{Infra: "answers"}
		}
		for k, a := range as {
			want := ""
			if w := j.want[k]; w != nil {
				h := schema.Hump(w.Enum.Name)
				want = "T:" + schema.LowerHump(h) + "Lang." + schema.Hump(w.Item.Name)
				rej++
			} else {
				acc++
			}
			if a.Panic != "" {
				return core.Failf("panic", "verifying %s = %q throws: %s", j.at, j.ins[k], a.Panic)
			}
			if len(a.Calls) != 1 {
				return core.Failf("calls", "verifying %s = %q calls back %d times", j.at, j.ins[k], len(a.Calls))
			}
			got := ""
			if a.Calls[0] != nil {
				got = *a.Calls[0]
			}
			if got != want {
				return core.Failf("field", "verifying %s = %q gives %q, the declared formats say %q", j.at, j.ins[k], got, want)
			}
			res.Evals++
			if want != "" && len(res.Sample) < 400 {
				res.Sample += fmt.Sprintf("%s = %q -> %s; ", j.at, j.ins[k], got)
			}
		}
	}
	res.NonTrivial = acc > 0 && rej > 0
	return res
}
