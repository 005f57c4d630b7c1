package core

import (
	"hv/schema"
	"time"
)

// Shrink keeps the failure class while making the case smaller.
func Shrink(p *Pool, c *Case, r *Result, budget time.Duration) (*Case, *Result) {
	if r.Sig == "hang" {
		// a hang costs minutes per trial: shrink with few attempts only
		budget /= 3
	}
	end := time.Now().Add(budget)
	p.end.Store(end.UnixMilli())
	defer p.end.Store(0)
	gen := p.ck.Shrinks
	if gen == nil {
		gen = GenericShrinks
	}
	width := 8
	if p.ck.Batch > 1 {
		width = p.ck.Batch
	}
	if p.ck.MaxShrinkBatch > 0 {
		width = p.ck.MaxShrinkBatch
	}
	if r.Sig == "hang" || r.Sig == "crash" {
		width = 8 // each may cost a worker
	}
	for time.Now().Before(end) {
		cands := gen(c)
		improved := false
		for i := 0; i < len(cands) && time.Now().Before(end); i += width {
			j := min(len(cands), i+width)
			b := cands[i:j]
			for _, x := range b {
				x.Prop, x.Index = c.Prop, c.Index
			}
			var rs []*Result
			if p.ck.Batch > 1 && r.Sig != "hang" && r.Sig != "crash" {
				rs = p.Eval(b)
			} else {
				rs = make([]*Result, len(b))
				done := make(chan int)
				for k := range b {
					go func(k int) { rs[k] = p.Eval([]*Case{b[k]})[0]; done <- k }(k)
				}
				for range b {
					<-done
				}
			}
			for k, x := range rs {
				if x != nil && x.Fail && x.Sig == r.Sig {
					c, r = b[k], x
					improved = true
					break
				}
			}
			if improved {
				break
			}
		}
		if !improved {
			break
		}
	}
	return c, r
}

func GenericShrinks(c *Case) []*Case {
	var out []*Case
	if len(c.Text) > 0 {
		n := len(c.Text)
		for sz := n / 2; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= n; i += sz {
				d := c.Clone()
				d.Text = append(append([]byte{}, c.Text[:i]...), c.Text[i+sz:]...)
				out = append(out, d)
			}
			if len(out) > 600 {
				break
			}
		}
	}
	if len(c.Ops) > 0 {
		n := len(c.Ops)
		for sz := n; sz >= 1; sz /= 2 {
			for i := 0; i+sz <= n; i += sz {
				d := c.Clone()
				d.Ops = append(append([]Op{}, c.Ops[:i]...), c.Ops[i+sz:]...)
				out = append(out, d)
			}
		}
	}
	if c.Prog != nil {
		for _, q := range schema.ProgShrinks(c.Prog) {
			d := c.Clone()
			d.Prog = q
			out = append(out, d)
		}
	}
	return out
}
