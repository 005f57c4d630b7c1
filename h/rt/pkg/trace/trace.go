// Package trace records, in one order, what generated code asks of the database and the cache, and injects failures.
package trace

import (
	"context"
	"errors"
)

type Event struct {
	Op   string `json:"op"`
	Name string `json:"name,omitempty"` // table, key or statement
	Args []any  `json:"args,omitempty"`
	Val  string `json:"val,omitempty"`
	TTL  int64  `json:"ttl,omitempty"` // nanoseconds
	Fail bool   `json:"fail,omitempty"`
}

type Trace struct {
	Events []Event
	Fail   map[int]bool // the n-th fallible operation fails
	Mode   map[int]string
	N      int

	// database
	Prefix  string
	Results []Rows // rows for the successive queries
	Count   int64
	ID      int64

	// cache
	KV    map[string]string
	Lock  map[string]int
	Taken map[string]bool // locks held by somebody else
}

type Rows struct {
	Columns []string `json:"columns"`
	Rows    [][]any  `json:"rows"`
}

var ErrInjected = errors.New("injected failure")

// Step records a fallible operation and tells whether it fails.
func (t *Trace) Step(e Event) bool {
	n := t.N
	t.N++
	e.Fail = t.Fail[n]
	t.Events = append(t.Events, e)
	return e.Fail
}

type key struct{}

func With(ctx context.Context, t *Trace) context.Context { return context.WithValue(ctx, key{}, t) }

func Of(ctx context.Context) *Trace {
	if t, ok := ctx.Value(key{}).(*Trace); ok {
		return t
	}
	panic("no trace in the context: the generated code did not pass its context on")
}
