package drv

import (
	"context"
	"encoding/json"
	"errors"
	"reflect"
	"strconv"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
	"github.com/wskfjtheqian/hbuf_golang/pkg/trace"
)

// DBCall is one database function call of a history over a shared cache.
type DBCall struct {
	Type    string       `json:"type"`
	Fn      string       `json:"fn"`
	Value   any          `json:"value"`
	List    []any        `json:"list,omitempty"`
	Results []trace.Rows `json:"results,omitempty"`
	Fail    []int        `json:"fail,omitempty"`
	Taken   []string     `json:"taken,omitempty"`
	Count   int64        `json:"count,omitempty"`
	ID      int64        `json:"id,omitempty"`
}

type DBRep struct {
	Events []trace.Event `json:"events"`
	Out    []any         `json:"out"` // the results before the error
	Null   bool          `json:"null,omitempty"`
	Err    string        `json:"err,omitempty"`
	Mine   bool          `json:"mine,omitempty"` // the error is the injected one
	Panic  string        `json:"panic,omitempty"`
	Held   []string      `json:"held,omitempty"` // locks still held afterwards
	After  any           `json:"after,omitempty"`
}

// cell decodes a column value.
func cell(x any) any {
	s, ok := x.(string)
	if !ok {
		return nil
	}
	v := s[2:]
	switch s[0] {
	case 'i':
		n, _ := strconv.ParseInt(v, 10, 64)
		return n
	case 'f':
		n, _ := strconv.ParseFloat(v, 64)
		return n
	case 'b':
		return v == "true"
	case 't':
		n, _ := strconv.ParseInt(v, 10, 64)
		return time.UnixMilli(n)
	case 'y':
		return []byte(v)
	}
	return v
}

func init() {
	ops["db"] = func(u *Unit, o *Op) *Rep {
		var calls []*DBCall
		if err := json.Unmarshal(o.J, &calls); err != nil {
			panic(err)
		}
		t := &trace.Trace{Prefix: o.Text, KV: map[string]string{}, Lock: map[string]int{}}
		var reps []any
		for _, c := range calls {
			reps = append(reps, dbOne(u, c, t))
		}
		return &Rep{Value: reps}
	}
	// the column list and scan targets of a table type
	ops["scan"] = func(u *Unit, o *Op) *Rep {
		a := newData(u, o)
		m := a.MethodByName("DbScan")
		if !m.IsValid() {
			return &Rep{Err: "no DbScan"}
		}
		out := m.Call(nil)
		var offs []any
		dst := out[1].Interface().([]any)
		for range dst {
			offs = append(offs, nil)
		}
		return &Rep{Text: out[0].String(), Value: offs}
	}
	ops["verify"] = func(u *Unit, o *Op) *Rep {
		a := newData(u, o)
		Set(a.Elem(), o.Value)
		m := a.MethodByName(o.Name)
		if !m.IsValid() {
			return &Rep{Err: "no method " + o.Name}
		}
		out := m.Call([]reflect.Value{reflect.ValueOf(context.Background())})
		if out[0].IsNil() {
			return &Rep{}
		}
		err := out[0].Interface().(error)
		var r *rpc.Result
		if errors.As(err, &r) {
			return &Rep{M: map[string]any{"code": r.Code, "msg": r.Msg}}
		}
		return &Rep{Err: errText(err)}
	}
	// does the type have the method
	ops["has"] = func(u *Unit, o *Op) *Rep {
		a := newData(u, o)
		out := map[string]any{}
		for _, n := range o.Names {
			out[n] = a.MethodByName(n).IsValid()
		}
		return &Rep{M: out}
	}
}

func dbOne(u *Unit, c *DBCall, t *trace.Trace) (rep *DBRep) {
	rep = &DBRep{}
	t.Events, t.N, t.Fail, t.Taken = nil, 0, map[int]bool{}, map[string]bool{}
	for _, n := range c.Fail {
		t.Fail[n] = true
	}
	for _, n := range c.Taken {
		t.Taken[n] = true
	}
	t.Count, t.ID = c.Count, c.ID
	t.Results = nil
	for _, r := range c.Results {
		q := trace.Rows{Columns: r.Columns}
		for _, row := range r.Rows {
			var x []any
			for _, v := range row {
				x = append(x, cell(v))
			}
			q.Rows = append(q.Rows, x)
		}
		t.Results = append(t.Results, q)
	}
	defer func() {
		rep.Events = t.Events
		for k, v := range t.Lock {
			if v > 0 {
				rep.Held = append(rep.Held, k)
			}
		}
		if e := recover(); e != nil {
			rep.Panic = panicText(e)
		}
	}()
	ctx := trace.With(context.Background(), t)
	a := newData(u, &Op{Type: c.Type})
	Set(a.Elem(), c.Value)
	before := Dump(a)
	m := a.MethodByName(c.Fn)
	if !m.IsValid() {
		rep.Panic = "no method " + c.Fn
		return
	}
	in := []reflect.Value{reflect.ValueOf(ctx)}
	if m.Type().NumIn() == 2 {
		lt := m.Type().In(1)
		l := reflect.MakeSlice(lt, 0, len(c.List))
		for _, x := range c.List {
			p := reflect.New(lt.Elem().Elem())
			Set(p.Elem(), x)
			l = reflect.Append(l, p)
		}
		if c.List == nil {
			l = reflect.Zero(lt)
		}
		in = append(in, l)
	}
	out := m.Call(in)
	if e := out[len(out)-1]; !e.IsNil() {
		err := e.Interface().(error)
		rep.Err = errText(err)
		rep.Mine = errors.Is(err, trace.ErrInjected)
	}
	for _, x := range out[:len(out)-1] {
		if x.Kind() == reflect.Pointer && x.IsNil() {
			rep.Null = true
			rep.Out = append(rep.Out, nil)
			continue
		}
		if x.Kind() == reflect.Slice && x.IsNil() {
			rep.Null = true
		}
		rep.Out = append(rep.Out, Dump(x))
	}
	if !reflect.DeepEqual(before, Dump(a)) {
		rep.After = Dump(a)
	}
	return
}
