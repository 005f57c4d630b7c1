package checks

import (
	"encoding/json"
	"hv/core"
	"hv/schema"
	"strconv"
	"strings"
)

// valueOps generates values of the program's data types as operations of a case.
func valueOps(r *schema.R, p *schema.Program, n int, cfg schema.ValCfg) (ops []core.Op) {
	ds := p.Decls(schema.Data)
	if len(ds) == 0 {
		return nil
	}
	for i := 0; i < n; i++ {
		x := ds[i%len(ds)]
		if i >= len(ds) {
			x = schema.Pick(r, ds)
		}
		b, _ := json.Marshal(p.GenData(r, x, cfg))
		ops = append(ops, core.Op{Op: "value", Args: map[string]string{"type": x.Decl.Name}, J: b})
	}
	return ops
}

func declOf(p *schema.Program, kind, name string) *schema.Ref {
	for _, x := range p.Decls(kind) {
		if x.Decl.Name == name {
			return &x
		}
	}
	return nil
}

// opValue reads an operation's value, fitted to the (possibly shrunk) program.
func opValue(p *schema.Program, o core.Op) (*schema.Ref, map[string]any) {
	x := declOf(p, schema.Data, o.Args["type"])
	if x == nil {
		return nil, nil
	}
	var v any
	json.Unmarshal(o.J, &v)
	return x, p.Fit(*x, v)
}

// valueShrinks adds smaller values to the generic shrinking.
func valueShrinks(c *core.Case) []*core.Case {
	out := core.GenericShrinks(c)
	for i := range c.Ops {
		if len(c.Ops[i].J) == 0 {
			continue
		}
		var v any
		if json.Unmarshal(c.Ops[i].J, &v) != nil {
			continue
		}
		for n, w := range schema.ShrinkValue(v) {
			if n > 300 {
				break
			}
			d := c.Clone()
			d.Ops[i].J, _ = json.Marshal(w)
			out = append(out, d)
		}
	}
	return out
}

func goValue(p *schema.Program, x schema.Ref, v any) any { return p.RenameKeys(x, v, schema.Hump) }

// numTree reads JSON keeping numbers exact.
func numTree(text string) (any, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var v any
	err := d.Decode(&v)
	return v, err
}

func json64(n int64) string { return strconv.FormatInt(n, 10) }
