package drv

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
	"github.com/wskfjtheqian/hbuf_golang/pkg/manage"
	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

// Call is one request of a history.
type Call struct {
	Via    string `json:"via"` // client: through the generated client and router; local: what Get returns; default: the unimplemented server
	Server string `json:"server"`
	Method string `json:"method"` // Go name
	Value  any    `json:"value"`
	Reply  Reply  `json:"reply"`
	Path   string `json:"path,omitempty"` // raw: an encoded request for this endpoint
	Text   string `json:"text,omitempty"`
}

// Reply is what the implementation answers.
type Reply struct {
	Value any    `json:"value"`
	Err   string `json:"err,omitempty"`
	Code  int    `json:"code,omitempty"`
	Nil   bool   `json:"nil,omitempty"`
}

// Seen is what the implementation was asked.
type Seen struct {
	Server string         `json:"server"`
	Method string         `json:"method"`
	Req    any            `json:"req"`
	Tags   map[string]any `json:"tags,omitempty"`
	Path   string         `json:"path,omitempty"`
}

type CallRep struct {
	Seen   []Seen   `json:"seen"`
	Wire   []string `json:"wire,omitempty"` // paths, requests and answers that crossed the wire
	Result any      `json:"result"`
	Null   bool     `json:"null,omitempty"`
	Err    string   `json:"err,omitempty"`
	Code   int      `json:"code,omitempty"`
	Panic  string   `json:"panic,omitempty"`
}

// Handler stands behind every generated server implementation of the driver.
type Handler struct {
	Reply Reply
	Seen  []Seen
}

func (h *Handler) Call(ctx context.Context, server, method string, req hbuf.Data, mk func() any) (any, error) {
	h.Seen = append(h.Seen, Seen{Server: server, Method: method, Req: Dump(reflect.ValueOf(req)), Tags: rpc.Tags(ctx), Path: rpc.GetMethod(ctx)})
	switch {
	case h.Reply.Code != 0:
		return nil, &rpc.Result{Code: h.Reply.Code, Msg: h.Reply.Err}
	case h.Reply.Err != "":
		return nil, errors.New(h.Reply.Err)
	case h.Reply.Nil:
		return nil, nil
	}
	if mk == nil {
		return nil, nil
	}
	r := mk()
	Set(reflect.ValueOf(r).Elem(), h.Reply.Value)
	return r, nil
}

type Server struct {
	Impl    func(h *Handler) any
	Router  func(impl any) rpc.ServerRouter
	Client  func(c rpc.Client) any
	Default func() any
	Get     func(ctx context.Context) any
	Itf     func() reflect.Type
}

func srvName(s Server) string { return s.Router(s.Impl(&Handler{})).GetName() }

// routes lists the endpoints of a server.
func routes(u *Unit, name string) []string {
	srv := rpc.NewServer()
	s := u.Servers[name]
	srv.Add(s.Router(s.Impl(&Handler{})))
	o := []string{}
	for k := range srv.Router() {
		o = append(o, strings.TrimPrefix(k, "/"+srvName(s)+"/"))
	}
	sort.Strings(o)
	return o
}

// tap records what passes between client and server.
type tap struct {
	in   rpc.Invoke
	wire []string
}

func (t *tap) Invoke(ctx context.Context, name string, in io.Reader, out io.Writer) error {
	b, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	var o bytes.Buffer
	err = t.in.Invoke(ctx, name, bytes.NewReader(b), &o)
	t.wire = append(t.wire, name, string(b), o.String())
	out.Write(o.Bytes())
	return err
}

func init() {
	// a history of calls against one endpoint with every server of the unit (or the named ones) registered
	ops["rpc"] = func(u *Unit, o *Op) *Rep {
		var calls []*Call
		if err := json.Unmarshal(o.J, &calls); err != nil {
			panic(err)
		}
		h := &Handler{}
		srv := rpc.NewServer()
		mem := &manage.Mem{M: map[string]any{}}
		names := o.Names
		sort.Strings(names)
		clients := map[string]any{}
		t := &tap{in: rpc.NewServerJson(srv)}
		cl := rpc.NewJsonClient(t)
		for _, n := range names {
			s := u.Servers[n]
			impl := s.Impl(h)
			r := s.Router(impl)
			srv.Add(r)
			mem.M[r.GetName()] = impl
		}
		for n, s := range u.Servers {
			clients[n] = s.Client(cl)
		}
		var paths []any
		for k := range srv.Router() {
			paths = append(paths, k)
		}
		sort.Slice(paths, func(i, j int) bool { return paths[i].(string) < paths[j].(string) })
		var reps []any
		for _, c := range calls {
			reps = append(reps, one(u, c, h, t, clients, mem))
		}
		return &Rep{Value: reps, M: map[string]any{"paths": paths}}
	}
}

func one(u *Unit, c *Call, h *Handler, t *tap, clients map[string]any, mem *manage.Mem) (rep *CallRep) {
	rep = &CallRep{}
	defer func() {
		if e := recover(); e != nil {
			rep.Panic = panicText(e)
		}
	}()
	h.Reply, h.Seen, t.wire = c.Reply, nil, nil
	if c.Via == "raw" {
		var o bytes.Buffer
		err := t.Invoke(context.Background(), c.Path, bytes.NewReader([]byte(c.Text)), &o)
		rep.Seen, rep.Wire, rep.Result, rep.Err = h.Seen, t.wire, o.String(), errText(err)
		return
	}
	s := u.Servers[c.Server]
	ctx := manage.With(rpc.NewContext(context.Background()), mem)
	var target any
	switch c.Via {
	case "client":
		target = clients[c.Server]
	case "local":
		target = s.Get(ctx)
	case "default":
		target = s.Default()
	case "clientlocal": // the registry resolves the name to a client
		mem2 := &manage.Mem{M: map[string]any{}}
		for k, v := range mem.M {
			mem2.M[k] = v
		}
		mem2.M[s.Router(nilImpl(s)).GetName()] = clients[c.Server]
		ctx = manage.With(rpc.NewContext(context.Background()), mem2)
		target = s.Get(ctx)
	}
	m := reflect.ValueOf(target).MethodByName(c.Method)
	if !m.IsValid() {
		rep.Panic = "no method " + c.Method
		return
	}
	req := reflect.New(m.Type().In(1).Elem())
	Set(req.Elem(), c.Value)
	out := m.Call([]reflect.Value{reflect.ValueOf(ctx), req})
	rep.Seen, rep.Wire = h.Seen, t.wire
	if e := out[len(out)-1]; !e.IsNil() {
		err := e.Interface().(error)
		rep.Err = errText(err)
		var r *rpc.Result
		if errors.As(err, &r) {
			rep.Code, rep.Err = r.Code, r.Msg
		}
	}
	if len(out) == 2 {
		if out[0].IsNil() {
			rep.Null = true
		} else {
			rep.Result = Dump(out[0])
		}
	}
	return
}

func nilImpl(s Server) any { return s.Impl(&Handler{}) }
