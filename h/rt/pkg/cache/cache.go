// Package cache: hbuf_golang/pkg/cache over an in-memory store that records every step.
package cache

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/wskfjtheqian/hbuf_golang/pkg/db"
	"github.com/wskfjtheqian/hbuf_golang/pkg/trace"
)

func DbSet(ctx context.Context, key, dbName string, sql *db.Sql, value any, duration time.Duration) (string, error) {
	t := trace.Of(ctx)
	lock, err := DbLock(ctx, dbName)
	if err != nil || !lock {
		return "", err
	}
	if 0 == len(key) {
		key = createDbKey(dbName, sql)
	}
	b, err := json.Marshal(value)
	if err != nil {
		return key, err
	}
	if t.Step(trace.Event{Op: "set", Name: key, Val: string(b), TTL: int64(duration)}) {
		return key, trace.ErrInjected
	}
	t.KV[key] = string(b)
	return key, nil
}

func DbGet[T any](ctx context.Context, key, dbName string, sql *db.Sql, value *T) (*T, string, error) {
	t := trace.Of(ctx)
	if 0 == len(key) {
		key = createDbKey(dbName, sql)
	}
	if t.Step(trace.Event{Op: "get", Name: key}) {
		return nil, "", trace.ErrInjected
	}
	s, ok := t.KV[key]
	if !ok {
		return nil, key, nil
	}
	if err := json.Unmarshal([]byte(s), value); err != nil {
		return nil, "", err
	}
	return value, key, nil
}

func DbDel(ctx context.Context, dbName string) error {
	t := trace.Of(ctx)
	if _, err := DbLock(ctx, dbName); err != nil {
		return err
	}
	if t.Step(trace.Event{Op: "del", Name: dbName}) {
		return trace.ErrInjected
	}
	for k := range t.KV {
		if strings.HasPrefix(k, "db:"+dbName+":") {
			delete(t.KV, k)
		}
	}
	return nil
}

func DbLock(ctx context.Context, dbName string) (bool, error) {
	t := trace.Of(ctx)
	if t.Step(trace.Event{Op: "lock", Name: dbName}) {
		return false, trace.ErrInjected
	}
	if t.Lock[dbName] > 0 || t.Taken[dbName] {
		t.Events[len(t.Events)-1].Val = "busy"
		return false, nil
	}
	t.Lock[dbName]++
	return true, nil
}

func DbUnlock(ctx context.Context, dbName string) error {
	t := trace.Of(ctx)
	t.Events = append(t.Events, trace.Event{Op: "unlock", Name: dbName})
	t.Lock[dbName] = 0
	return nil
}

func createDbKey(dbName string, sql *db.Sql) string {
	// the calling function is part of the key
	caller := ""
	for i := 2; i < 6 && caller == ""; i++ {
		pc, _, _, ok := runtime.Caller(i)
		if !ok {
			break
		}
		if n := runtime.FuncForPC(pc).Name(); !strings.Contains(n, "/pkg/cache.") {
			caller = n
		}
	}
	return fmt.Sprintf("db:%s:%s:%s", dbName, caller, sql.ToText())
}
