// Package db: hbuf_golang/pkg/db with database/sql over a recording driver.
package db

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/wskfjtheqian/hbuf_golang/pkg/trace"
)

type Sql struct {
	text   strings.Builder
	params []any
	del    string
}

func NewSql() *Sql { return &Sql{params: []any{}} }

// T 添加文本
func (s *Sql) T(query string) *Sql {
	s.text.WriteString(s.removeStart(strings.Trim(strings.Trim(query, " "), "\t")))
	s.text.WriteString(" ")
	return s
}

// V 添加值得
func (s *Sql) V(a any) *Sql {
	s.text.WriteString("? ")
	s.params = append(s.params, a)
	return s
}

func (s *Sql) P(args ...any) { s.params = append(s.params, args...) }

func (s *Sql) L(question string, args ...any) *Sql {
	for i := range args {
		if 0 != i {
			s.text.WriteString(s.removeStart(question))
		}
		s.text.WriteString("? ")
	}
	s.params = append(s.params, args...)
	return s
}

func (s *Sql) removeStart(question string) string {
	if len(s.del) > 0 {
		if 0 == strings.Index(question, s.del) {
			question = question[len(s.del):]
		}
		s.del = ""
	}
	return question
}

func (s *Sql) Del(text string) { s.del = text }

func (s *Sql) ToText() string {
	out := s.text.String()
	for _, p := range s.params {
		v, err := convert(p)
		out += fmt.Sprintf("|%T:%v:%v", v, v, err)
	}
	return out
}

func convert(p any) (any, error) {
	return driver.DefaultParameterConverter.ConvertValue(p)
}

func (s *Sql) Query(ctx context.Context, scan func(*sql.Rows) (bool, error)) (int64, error) {
	result, err := GET(ctx).Query(s.text.String(), s.params...)
	if err != nil {
		return 0, err
	}
	defer result.Close()
	var count int64
	isScan := true
	for result.Next() {
		count++
		if isScan {
			isScan, err = scan(result)
			if err != nil {
				return 0, err
			}
		}
	}
	return count, nil
}

func (s *Sql) Exec(ctx context.Context) (int64, int64, error) {
	result, err := GET(ctx).Exec(s.text.String(), s.params...)
	if err != nil {
		return 0, 0, err
	}
	count, err := result.RowsAffected()
	if err != nil {
		return 0, 0, err
	}
	id, err := result.LastInsertId()
	if err != nil {
		return 0, 0, err
	}
	return count, id, nil
}

type Execute interface {
	Query(query string, args ...any) (*sql.Rows, error)
	Exec(query string, args ...any) (sql.Result, error)
	// Table maps a declared table name to its name in this database.
	Table(name string) string
}

func GET(ctx context.Context) Execute { return &mem{trace.Of(ctx)} }

type mem struct{ t *trace.Trace }

func (m *mem) Table(name string) string { return m.t.Prefix + name }

func (m *mem) Query(query string, args ...any) (*sql.Rows, error) {
	return sql.OpenDB(&connector{m.t}).Query(query, args...)
}
func (m *mem) Exec(query string, args ...any) (sql.Result, error) {
	return sql.OpenDB(&connector{m.t}).Exec(query, args...)
}

// ConverterJson stores a value as JSON text in its column.
type ConverterJson struct{ data any }

func (t *ConverterJson) Scan(value any) error {
	switch v := value.(type) {
	case []byte:
		return json.Unmarshal(v, t.data)
	case string:
		return json.Unmarshal([]byte(v), t.data)
	}
	return fmt.Errorf("Can't convert %T to DbToJson", value)
}

func (t ConverterJson) Value() (driver.Value, error) { return json.Marshal(t.data) }

func NewJson(data any) *ConverterJson { return &ConverterJson{data: data} }

// ---- recording driver

type connector struct{ t *trace.Trace }

func (c *connector) Connect(context.Context) (driver.Conn, error) { return &conn{c.t}, nil }
func (c *connector) Driver() driver.Driver                        { return nil }

type conn struct{ t *trace.Trace }

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &stmt{c.t, q}, nil }
func (c *conn) Close() error                          { return nil }
func (c *conn) Begin() (driver.Tx, error)             { return nil, fmt.Errorf("no transactions") }

type stmt struct {
	t *trace.Trace
	q string
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }

func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	if s.t.Step(trace.Event{Op: "exec", Name: s.q, Args: Args(args)}) {
		return nil, trace.ErrInjected
	}
	return result{s.t.Count, s.t.ID}, nil
}

func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	if s.t.Step(trace.Event{Op: "query", Name: s.q, Args: Args(args)}) {
		return nil, trace.ErrInjected
	}
	if len(s.t.Results) == 0 {
		return &rows{}, nil
	}
	r := s.t.Results[0]
	s.t.Results = s.t.Results[1:]
	return &rows{r: r}, nil
}

type result struct{ n, id int64 }

func (r result) LastInsertId() (int64, error) { return r.id, nil }
func (r result) RowsAffected() (int64, error) { return r.n, nil }

type rows struct {
	r trace.Rows
	i int
}

func (r *rows) Columns() []string { return r.r.Columns }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for k := range dest {
		dest[k] = r.r.Rows[r.i][k]
	}
	r.i++
	return nil
}
