package manage

import (
	"context"

	"github.com/wskfjtheqian/hbuf_golang/pkg/rpc"
)

type Manage interface {
	Get(router rpc.ServerClient) any
}

type key struct{}

// Mem resolves server names to what was registered (a server or a client).
type Mem struct {
	M     map[string]any
	Asked []string
}

func (m *Mem) Get(router rpc.ServerClient) any {
	m.Asked = append(m.Asked, router.GetName())
	return m.M[router.GetName()]
}

func With(ctx context.Context, m Manage) context.Context { return context.WithValue(ctx, key{}, m) }

func GET(ctx context.Context) Manage {
	if m, ok := ctx.Value(key{}).(Manage); ok {
		return m
	}
	return &Mem{}
}
