// Package rpc: the routing, framing and context tags of hbuf_golang/pkg/rpc, without transports.
package rpc

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"reflect"

	"github.com/wskfjtheqian/hbuf_golang/pkg/erro"
	"github.com/wskfjtheqian/hbuf_golang/pkg/hbuf"
)

type Context struct {
	context.Context
	tags   map[string]any
	method string
}

func NewContext(ctx context.Context) context.Context {
	return &Context{Context: ctx, tags: map[string]any{}}
}

func (c *Context) Value(key any) any {
	if reflect.TypeOf(c) == key {
		return c
	}
	return c.Context.Value(key)
}

var contextType = reflect.TypeOf(&Context{})

// SetTag stores the values of a tag: one value as it is, several as a list.
func SetTag(ctx context.Context, key string, value ...string) {
	ret := ctx.Value(contextType)
	if nil == ret {
		return
	}
	ret.(*Context).tags[key] = append([]string{}, value...)
}

func GetTag(ctx context.Context, key string) (value any, ok bool) {
	ret := ctx.Value(contextType)
	if nil == ret {
		return nil, false
	}
	value, ok = ret.(*Context).tags[key]
	return
}

// Tags returns every tag of the call (used by the checks).
func Tags(ctx context.Context) map[string]any {
	ret := ctx.Value(contextType)
	if nil == ret {
		return nil
	}
	return ret.(*Context).tags
}

func SetMethod(ctx context.Context, method string) {
	if ret := ctx.Value(contextType); nil != ret {
		ret.(*Context).method = method
	}
}

func GetMethod(ctx context.Context) string {
	if ret := ctx.Value(contextType); nil != ret {
		return ret.(*Context).method
	}
	return ""
}

type ServerClient interface {
	GetName() string
	GetId() uint32
}

type Init interface {
	Init(ctx context.Context)
}

type ServerRouter interface {
	GetName() string
	GetId() uint32
	GetInvoke() map[string]*ServerInvoke
	GetServer() Init
}

type GetServer interface {
	Get(router ServerClient) any
}

type Server struct {
	router map[string]*ServerInvoke
}

func NewServer() *Server { return &Server{router: map[string]*ServerInvoke{}} }

func (s *Server) Router() map[string]*ServerInvoke { return s.router }

func (s *Server) Add(router ServerRouter) {
	for key, value := range router.GetInvoke() {
		s.router["/"+router.GetName()+"/"+key] = value
	}
}

type Raw []byte

func (m Raw) MarshalJSON() ([]byte, error) {
	if m == nil {
		return []byte("null"), nil
	}
	return m, nil
}

func (m *Raw) UnmarshalJSON(data []byte) error {
	if m == nil {
		return errors.New("json.RawMessage: UnmarshalJSON on nil pointer")
	}
	*m = append((*m)[0:0], data...)
	return nil
}

type Result struct {
	Code int    `json:"code"`
	Msg  string `json:"msg"`
	Data Raw    `json:"data"`
}

func (r *Result) Error() string { return r.Msg }

type ServerInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
	Invoke   func(ctx context.Context, data hbuf.Data) (hbuf.Data, error)
	SetInfo  func(ctx context.Context)
}

type ClientInvoke struct {
	ToData   func(buf []byte) (hbuf.Data, error)
	FormData func(data hbuf.Data) ([]byte, error)
}

type Client interface {
	Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error)
}

type Invoke interface {
	Invoke(ctx context.Context, name string, in io.Reader, out io.Writer) error
}

type ClientJson struct{ client Invoke }

func NewJsonClient(client Invoke) *ClientJson { return &ClientJson{client: client} }

func (s *ClientJson) Invoke(ctx context.Context, param hbuf.Data, name string, nameInvoke *ClientInvoke, id int64, idInvoke *ClientInvoke) (hbuf.Data, error) {
	buffer, err := nameInvoke.FormData(param)
	if err != nil {
		return nil, erro.Wrap(err)
	}
	b := bytes.NewBuffer(nil)
	err = s.client.Invoke(ctx, name, bytes.NewReader(buffer), b)
	if err != nil {
		return nil, err
	}
	var res Result
	err = json.Unmarshal(b.Bytes(), &res)
	if err != nil {
		return nil, erro.Wrap(err)
	}
	if res.Code != 0 {
		return nil, erro.Wrap(&res)
	}
	if nameInvoke.ToData == nil {
		return nil, nil
	}
	data, err := nameInvoke.ToData(res.Data)
	if err != nil {
		return nil, erro.Wrap(err)
	}
	return data, nil
}

type ServerJson struct{ server *Server }

func NewServerJson(server *Server) *ServerJson { return &ServerJson{server: server} }

// Invoke serves one call; the caller's context is not the server's.
func (s *ServerJson) Invoke(_ context.Context, name string, in io.Reader, out io.Writer) error {
	ctx := NewContext(context.Background())
	if len(name) > 0 && name[0] != '/' {
		name = "/" + name
	}
	value, ok := s.server.Router()[name]
	if !ok {
		return &Result{Code: 404, Msg: "not found"}
	}
	buffer, err := io.ReadAll(in)
	if err != nil {
		return err
	}
	data, err := value.ToData(buffer)
	if err != nil {
		return err
	}
	SetMethod(ctx, name)
	value.SetInfo(ctx)
	data, err = value.Invoke(ctx, data)
	if err != nil {
		var res *Result
		if errors.As(err, &res) {
			buffer, err = json.Marshal(res)
			if err == nil {
				_, err = out.Write(buffer)
			}
			return err
		}
		return err
	}
	buffer = nil
	if value.FormData != nil {
		if buffer, err = value.FormData(data); err != nil {
			return err
		}
	}
	buffer, err = json.Marshal(Result{Code: 0, Msg: "Ok", Data: buffer})
	if err != nil {
		return err
	}
	_, err = out.Write(buffer)
	return err
}
