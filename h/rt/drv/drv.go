// Package drv drives generated Go code by reflection: values are set and read through one neutral JSON form
// (integers, floats, dates, decimals and enumerations as strings; maps as lists of pairs; data as objects of Go field names).
package drv

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type Enum struct {
	Items  map[string]int64 // constant by expected name
	ToName func(n int64) string
	Values func() map[string]int64
	Ptr    func(n int64) int64
}

type Unit struct {
	Datas   map[string]func() any
	Enums   map[string]Enum
	Servers map[string]Server
}

var units = map[int]*Unit{}

func Reg(n int, u *Unit) { units[n] = u }

type Req struct {
	Unit int   `json:"unit"`
	Ops  []*Op `json:"ops"`
}

type Op struct {
	Op    string          `json:"op"`
	Type  string          `json:"type,omitempty"`
	Name  string          `json:"name,omitempty"`
	Value any             `json:"value,omitempty"`
	Text  string          `json:"text,omitempty"`
	Names []string        `json:"names,omitempty"`
	Nums  []int64         `json:"nums,omitempty"`
	J     json.RawMessage `json:"j,omitempty"`
}

type Rep struct {
	Err   string         `json:"err,omitempty"`
	Panic string         `json:"panic,omitempty"`
	Text  string         `json:"text,omitempty"`
	Value any            `json:"value"`
	M     map[string]any `json:"m,omitempty"`
}

var ops = map[string]func(u *Unit, o *Op) *Rep{}

func Main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q Req
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "drv: bad request", err)
			os.Exit(3)
		}
		reps := make([]*Rep, len(q.Ops))
		for i, o := range q.Ops {
			reps[i] = do(units[q.Unit], o)
		}
		b, err := json.Marshal(reps)
		if err != nil {
			fmt.Fprintln(os.Stderr, "drv: bad reply", err)
			os.Exit(3)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func do(u *Unit, o *Op) (r *Rep) {
	defer func() {
		if e := recover(); e != nil {
			r = &Rep{Panic: panicText(e)}
		}
	}()
	f := ops[o.Op]
	if f == nil {
		return &Rep{Err: "drv: no such operation " + o.Op}
	}
	return f(u, o)
}

var (
	tTime    = reflect.TypeOf(hbuf.Time{})
	tDecimal = reflect.TypeOf(decimal.Decimal{})
)

// Set stores the neutral value j in v.
func Set(v reflect.Value, j any) {
	switch {
	case v.Kind() == reflect.Pointer:
		if j == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		Set(p.Elem(), j)
		v.Set(p)
		return
	case v.Type() == tTime:
		n, _ := strconv.ParseInt(j.(string), 10, 64)
		v.Set(reflect.ValueOf(hbuf.Time(time.UnixMilli(n))))
		return
	case v.Type() == tDecimal:
		d, err := decimal.NewFromString(j.(string))
		if err != nil {
			panic("drv: " + err.Error())
		}
		v.Set(reflect.ValueOf(d))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(j.(bool))
	case reflect.String:
		v.SetString(j.(string))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(j.(string), 10, 64)
		if err != nil || v.OverflowInt(n) {
			panic("drv: value out of range: " + j.(string))
		}
		v.SetInt(n)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(j.(string), 10, 64)
		if err != nil || v.OverflowUint(n) {
			panic("drv: value out of range: " + j.(string))
		}
		v.SetUint(n)
	case reflect.Float32, reflect.Float64:
		n, err := strconv.ParseFloat(j.(string), v.Type().Bits())
		if err != nil {
			panic("drv: " + err.Error())
		}
		v.SetFloat(n)
	case reflect.Slice:
		if j == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		l := j.([]any)
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i, x := range l {
			Set(s.Index(i), x)
		}
		v.Set(s)
	case reflect.Map:
		if j == nil {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		l := j.([]any)
		m := reflect.MakeMap(v.Type())
		for _, x := range l {
			kv := x.([]any)
			k := reflect.New(v.Type().Key()).Elem()
			Set(k, kv[0])
			e := reflect.New(v.Type().Elem()).Elem()
			Set(e, kv[1])
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Struct:
		for n, x := range j.(map[string]any) {
			f := v.FieldByName(n)
			if !f.IsValid() {
				panic("drv: " + v.Type().String() + " has no field " + n)
			}
			Set(f, x)
		}
	default:
		panic("drv: cannot set " + v.Type().String())
	}
}

// Dump is the inverse of Set; every field of a struct is listed, embedded ones flattened.
func Dump(v reflect.Value) any {
	switch {
	case v.Kind() == reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		return Dump(v.Elem())
	case v.Type() == tTime:
		return strconv.FormatInt(time.Time(v.Interface().(hbuf.Time)).UnixMilli(), 10)
	case v.Type() == tDecimal:
		return v.Interface().(decimal.Decimal).String()
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 32)
	case reflect.Float64:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		out := make([]any, v.Len())
		for i := range out {
			out[i] = Dump(v.Index(i))
		}
		return out
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		out := []any{}
		for _, k := range v.MapKeys() {
			out = append(out, []any{Dump(k), Dump(v.MapIndex(k))})
		}
		sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
		return out
	case reflect.Struct:
		out := map[string]any{}
		dumpStruct(v, out)
		return out
	}
	panic("drv: cannot read " + v.Type().String())
}

func dumpStruct(v reflect.Value, out map[string]any) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous {
			dumpStruct(v.Field(i), out)
			continue
		}
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.Anonymous {
			out[f.Name] = Dump(v.Field(i))
		}
	}
}

func newData(u *Unit, o *Op) reflect.Value {
	f := u.Datas[o.Type]
	if f == nil {
		panic("drv: no data " + o.Type)
	}
	return reflect.ValueOf(f())
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	if s := err.Error(); s != "" {
		return s
	}
	return "error with empty text"
}

func init() {
	// encode a value, decode it again
	ops["roundtrip"] = func(u *Unit, o *Op) *Rep {
		a := newData(u, o)
		Set(a.Elem(), o.Value)
		before := Dump(a)
		b, err := a.Interface().(hbuf.Data).ToData()
		if err != nil {
			return &Rep{Err: err.Error()}
		}
		c := newData(u, o)
		if err := c.Interface().(hbuf.Data).FormData(b); err != nil {
			return &Rep{Err: err.Error(), Text: string(b)}
		}
		return &Rep{Text: string(b), Value: Dump(c), M: map[string]any{"before": before, "after": Dump(a)}}
	}
	ops["decode"] = func(u *Unit, o *Op) *Rep {
		c := newData(u, o)
		if err := c.Interface().(hbuf.Data).FormData([]byte(o.Text)); err != nil {
			return &Rep{Err: err.Error()}
		}
		b, err := c.Interface().(hbuf.Data).ToData()
		return &Rep{Value: Dump(c), Text: string(b), Err: errText(err)}
	}
	// set every named field through its setter, then read all through the getters
	ops["getset"] = func(u *Unit, o *Op) *Rep {
		a := newData(u, o)
		vals, _ := o.Value.(map[string]any)
		for _, n := range o.Names {
			x, ok := vals[n]
			if !ok {
				continue
			}
			m := a.MethodByName("Set" + n)
			if !m.IsValid() {
				return &Rep{Err: "no setter Set" + n}
			}
			p := reflect.New(m.Type().In(0)).Elem()
			Set(p, x)
			m.Call([]reflect.Value{p})
		}
		out := map[string]any{}
		for _, n := range o.Names {
			m := a.MethodByName("Get" + n)
			if !m.IsValid() {
				return &Rep{Err: "no getter Get" + n}
			}
			out[n] = Dump(m.Call(nil)[0])
		}
		return &Rep{Value: out, M: map[string]any{"dump": Dump(a)}}
	}
	// what a data type or a server offers
	ops["members"] = func(u *Unit, o *Op) *Rep {
		m := map[string]any{}
		if o.Name == "server" {
			t := u.Servers[o.Type].Itf()
			ns := []string{}
			for i := 0; i < t.NumMethod(); i++ {
				ns = append(ns, t.Method(i).Name)
			}
			m["interface"] = ns
			m["router"] = routes(u, o.Type)
			return &Rep{M: m}
		}
		a := newData(u, o)
		fs := []string{}
		for _, f := range reflect.VisibleFields(a.Type().Elem()) {
			if !f.Anonymous {
				if v, ok := a.Type().Elem().FieldByName(f.Name); ok && len(v.Index) == len(f.Index) {
					fs = append(fs, f.Name)
				}
			}
		}
		m["fields"] = fs
		for _, pre := range []string{"Get", "Set"} {
			ns := []string{}
			for i := 0; i < a.NumMethod(); i++ {
				if n := a.Type().Method(i).Name; strings.HasPrefix(n, pre) {
					ns = append(ns, n[3:])
				}
			}
			m[pre] = ns
		}
		return &Rep{M: m}
	}
	ops["enum"] = func(u *Unit, o *Op) *Rep {
		e, ok := u.Enums[o.Type]
		if !ok {
			panic("drv: no enum " + o.Type)
		}
		items := map[string]any{}
		for k, v := range e.Items {
			items[k] = v
		}
		names := map[string]any{}
		for _, n := range o.Nums {
			names[strconv.FormatInt(n, 10)] = e.ToName(n)
			if e.Ptr(n) != n {
				return &Rep{Err: "Pointer() points at another value"}
			}
		}
		vals := map[string]any{}
		for k, v := range e.Values() {
			vals[k] = v
		}
		again := map[string]any{}
		for k, v := range e.Values() {
			again[k] = v
		}
		return &Rep{M: map[string]any{"items": items, "names": names, "values": vals, "again": again}}
	}
}

func panicText(e any) string {
	st := strings.Split(string(debug.Stack()), "\n")
	keep := []string{}
	for _, l := range st {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/drv/") && !strings.Contains(l, "/runtime/") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) > 4 {
			break
		}
	}
	return fmt.Sprint(e) + "\n" + strings.Join(keep, "\n")
}
