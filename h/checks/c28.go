package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/dartx"
	"hv/schema"
	"strings"
	"time"
)

// C28: Dart verification accepts exactly what the declared formats allow.
func init() {
	core.Register(&core.Check{
		ID:    "C28",
		Rule:  "inputs of verified fields were judged both ways (accepted and rejected) by the generated Dart functions; distinct programs and inputs",
		Quick: 6000, Thorough: 150000, Timeout: 60e9,
		Gen:     genC28,
		Shrinks: valueShrinks,
		Eval1:   evalC28,
		Assumptions: []string{
			"the Dart interpreter of C23 runs the generated functions; Decimal compares exactly, DateTime.tryParse is modelled",
			"inputs are the texts of a form control: canonical texts of the field's type, texts that are no number or out of the type's range, and no text; numbers written with a plus sign, leading zeros, exponents, or without digits beside the point are not judged, nor is no text at all for a required field",
			"lists, maps and enumerations are judged by presence only",
			"a field redeclared along its inheritance with different formats is not judged",
		},
	})
}

func genC28(r *schema.R, idx int) *core.Case {
	c := genC21(r, idx)
	return c
}

func evalC28(c *core.Case) *core.Result {
	p := c.Prog
	if !dartProblem(p, "") {
		return &core.Result{Labels: []string{"outside the domain"}}
	}
	u, bad := dartOpen(c)
	if bad != nil {
		return bad
	}
	res := &core.Result{}
	ctx := &dartx.Ext{Name: "BuildContext", P: map[string]dartx.Value{}}
	acc, rej := 0, 0
	for _, o := range c.Ops {
		x := declOf(p, schema.Data, o.Args["type"])
		if x == nil || p.MultiDefined(*x)[o.Args["field"]] {
			continue
		}
		for _, f := range p.AllFields(*x) {
			if f.Field.Name != o.Args["field"] || schema.GetTag(f.Field.Tags, "verify") == nil {
				continue
			}
			var vs []string
			json.Unmarshal(o.J, &vs)
			name := "verify" + schema.Hump(x.Decl.Name) + "_" + schema.Hump(f.Field.Name)
			at := x.Decl.Name + "." + f.Field.Name + " (" + f.Field.Type.Name + ")"
			var fn *dartx.Func
			if q := u.In.P.Files[x.File.Base()+".verify.dart"]; q != nil {
				for _, g := range q.Funcs {
					if g.Name == name {
						fn = g
					}
				}
			}
			if fn == nil {
				return core.Failf("missing", "there is no function %s for the verified field %s", name, at)
			}
			for _, s := range vs {
				s = asText(f.Field.Type, s)
				w, ok := wantInput(p, f, s)
				if !ok || s[0] == 'v' || s[0] != 's' && !f.Field.Type.Nullable() {
					continue
				}
				if _, isDate := dartDateText(s); f.Field.Type.Name == "date" && w != nil && !isDate && strings.HasPrefix(s, "s2") {
					continue // Dart reads months and days beyond the calendar as overflow
				}
				want := ""
				var err error
				var got dartx.Value
				err = dartx.Guard(func() {
					if w != nil {
						ex := u.P.Visible(x.File, w.Enum.Name)
						for _, y := range p.Decls(schema.Enum) {
							if y.Decl == w.Enum {
								ex = &y
							}
						}
						want = fmt.Sprint(u.call(u.In.Static(u.need(*ex, ""), schema.UpperSnake(w.Item.Name)), "toText", ctx))
					}
					var in dartx.Value
					if s[0] == 's' {
						in = s[1:]
					}
					got = u.In.CallFunc(fn, []dartx.Value{ctx, in})
				})
				if err != nil {
					return core.Failf("throws", "verifying %s = %q throws: %v", at, s, err)
				}
				g, _ := got.(string)
				if w != nil && want == "" || g != want || (got == nil) != (w == nil) {
					return core.Failf("field", "verifying %s = %q gives %q, the declared formats say %q", at, s, g, want)
				}
				if w != nil {
					rej++
					if len(res.Sample) < 400 {
						res.Sample += fmt.Sprintf("%s = %q -> %s; ", at, s, g)
					}
				} else {
					acc++
				}
				res.Evals++
			}
		}
	}
	res.NonTrivial = acc > 0 && rej > 0
	return res
}

// asText turns a value into the text of a form control.
func asText(t schema.Type, s string) string {
	if s[0] != 'v' || t.Shape != "" || !schema.IsScalar(t.Name) {
		return s
	}
	var v any
	if json.Unmarshal([]byte(s[1:]), &v) != nil {
		return s
	}
	x, ok := v.(string)
	if !ok {
		return s
	}
	if t.Name == "date" || t.Name == "float" || t.Name == "double" {
		return s
	}
	return "s" + x
}

func dartDateText(s string) (time.Time, bool) {
	t, err := time.Parse("2006-01-02T15:04:05.000Z", s[1:])
	return t, err == nil
}
