package checks

import (
	"encoding/json"
	"fmt"
	"hv/core"
	"hv/schema"
	"math"
	"math/big"
	"regexp"
	"strconv"
	"strings"
)

// The model of the database functions: from a declaration and a request value to the statement, its bound values and
// the shape of the result. It is written from the meaning of the annotations, not from the generator.

const zeroDate = "-62135596800000"

// arg is a bound value: a cell, or a JSON document.
type arg struct {
	cell any
	json bool
	f    schema.DBField
	v    any
}

type stmt struct {
	text string
	args []arg
	skip string // why the call is outside the judged domain
}

func (s *stmt) t(x string) { s.text += x }

var spaces = regexp.MustCompile(`\s+`)
var around = regexp.MustCompile(` ?([(),]) ?`)

// norm makes statements that differ in insignificant spacing equal.
func norm(s string) string {
	s = strings.TrimSpace(spaces.ReplaceAllString(s, " "))
	return around.ReplaceAllString(s, "$1")
}

type dbm struct {
	p     *schema.Program
	x     schema.Ref // the request (or table) the function belongs to
	t     schema.Ref // its table
	d     *schema.DB
	td    *schema.DB
	own   bool
	fs    []schema.DBField // of the request
	tf    []schema.DBField // of the table
	v     map[string]any
	group bool
}

func newDBM(p *schema.Program, x schema.Ref) *dbm {
	t := p.Table(x)
	if t == nil {
		return nil
	}
	return &dbm{p: p, x: x, t: *t, own: t.Decl == x.Decl, d: schema.DBOf(x.Decl.Name, x.Decl.Tags), td: schema.DBOf(t.Decl.Name, t.Decl.Tags), fs: p.DBFields(x), tf: p.DBFields(*t)}
}

func str(f schema.DBField, k string) string { v, _ := f.DB.Tag.Get(k); return v }

// cellOf is the driver value of a scalar or enumeration value.
func cellOf(typ string, v any) any {
	if v == nil {
		return nil
	}
	switch typ {
	case "bool":
		return "b:" + strconv.FormatBool(v.(bool))
	case "string":
		return "s:" + v.(string)
	case "decimal":
		return "s:" + v.(string)
	case "date":
		return "t:" + v.(string)
	case "float", "double":
		bits := 64
		if typ == "float" {
			bits = 32
		}
		g, _ := strconv.ParseFloat(v.(string), bits)
		return "f:" + strconv.FormatFloat(g, 'g', -1, 64)
	}
	return "i:" + v.(string)
}

func (m *dbm) bind(s *stmt, f schema.DBField, v any) {
	if str(f, "converter") != "" {
		s.args = append(s.args, arg{json: true, f: f, v: v})
	} else {
		s.args = append(s.args, arg{cell: cellOf(f.Field.Type.Name, v)})
	}
	s.t(" ? ")
}

var placeRe = regexp.MustCompile(`\?\{\w+\}|\?`)

// expand writes a declared text with its placeholders bound: ? to the field itself (or one element of it), ?{name} to another.
func (m *dbm) expand(s *stmt, text string, f schema.DBField, fs []schema.DBField, elem *any) {
	at := 0
	for _, loc := range placeRe.FindAllStringIndex(text, -1) {
		s.t(text[at:loc[0]])
		at = loc[1]
		g, e := f, elem
		if tok := text[loc[0]:loc[1]]; tok != "?" {
			for _, o := range fs {
				if o.Field.Name == tok[2:len(tok)-1] {
					g = o
				}
			}
			e = nil
		}
		v := m.v[g.Field.Name]
		switch {
		case e != nil:
			s.args = append(s.args, arg{cell: cellOf(g.Field.Type.Name, *e)})
			s.t(" ? ")
		case g.Field.Type.Shape == "array" && str(g, "converter") == "":
			l, _ := v.([]any)
			if len(l) == 0 {
				s.skip = "empty list filter"
			}
			for i, x := range l {
				if i > 0 {
					s.t(",")
				}
				s.args = append(s.args, arg{cell: cellOf(g.Field.Type.Name, x)})
				s.t(" ? ")
			}
		default:
			m.bind(s, g, v)
		}
	}
	s.t(text[at:])
}

// where applies the conditions of the set filters, then grouping, ordering and paging as far as they apply.
func (m *dbm) where(s *stmt, fs []schema.DBField, group, order, page bool) {
	for _, f := range fs {
		ws := f.DB.Tag.All("where")
		v := m.v[f.Field.Name]
		l, _ := v.([]any)
		arr := f.Field.Type.Shape == "array"
		for i, w := range ws {
			if w == "" {
				continue
			}
			switch {
			case arr && len(ws) > 1:
				if i < len(l) && l[i] != nil {
					s.t(" ")
					m.expand(s, w, f, fs, &l[i])
				}
			case f.Field.Type.Nullable() && (v == nil || arr && len(l) == 0):
			default:
				s.t(" ")
				m.expand(s, w, f, fs, nil)
			}
		}
	}
	if group {
		n := 0
		for _, f := range fs {
			if g := str(f, "group"); g != "" && !(f.Field.Type.Nullable() && m.v[f.Field.Name] == nil) {
				s.t([]string{" GROUP BY ", " , "}[min(n, 1)])
				m.expand(s, g, f, fs, nil)
				n++
			}
		}
	}
	if order {
		n := 0
		for _, f := range fs {
			o := str(f, "order")
			v, _ := m.v[f.Field.Name].(string)
			if o == "" || v != "ASC" && v != "DESC" {
				continue
			}
			s.t([]string{" ORDER BY ", " , "}[min(n, 1)])
			s.t(strings.ReplaceAll(o, "$", " "+v+" "))
			n++
		}
	}
	if page {
		var lim, off *schema.DBField
		for i := range fs {
			if str(fs[i], "limit") != "" {
				lim = &fs[i]
			}
			if str(fs[i], "offset") != "" {
				off = &fs[i]
			}
		}
		if lim == nil || m.v[lim.Field.Name] == nil {
			return
		}
		if off != nil && m.v[off.Field.Name] != nil {
			s.t(" LIMIT ")
			m.bind(s, *off, m.v[off.Field.Name])
			s.t(" , ")
			m.bind(s, *lim, m.v[lim.Field.Name])
			return
		}
		s.t(" LIMIT ")
		m.bind(s, *lim, m.v[lim.Field.Name])
	}
}

func (m *dbm) guard() string {
	if m.td.Fake {
		return " WHERE delete_time IS NULL "
	}
	return " WHERE 1 = 1 "
}

func (m *dbm) key(s *stmt) {
	k := schema.Key(m.fs)
	s.t(" AND " + k.DB.Name + " = ")
	m.bind(s, *k, m.v[k.Field.Name])
}

// read is a select: the result type and the columns scanned into it.
func (m *dbm) read(fn, mode, prefix string) (s *stmt, typ schema.Ref, cols []schema.DBField) {
	s = &stmt{}
	typ = m.x
	fs, cm := m.fs, "self"
	if !m.own && mode == "parent" {
		typ, fs = m.t, m.tf
	}
	if m.own && fn != "DbGet" {
		cm = mode
	}
	var text []string
	if fn == "DbCount" {
		s.t("SELECT COUNT(1) FROM ")
	} else {
		cols, text = schema.Columns(fs, cm)
		s.t("SELECT " + strings.Join(text, ", ") + " FROM ")
	}
	s.t(prefix + m.td.FullName() + m.guard())
	switch {
	case fn == "DbGet" && m.own:
		m.key(s)
	default:
		m.where(s, m.fs, true, fn != "DbCount", fn == "DbList" || fn == "DbMap")
	}
	if fn == "DbGet" {
		s.t(" LIMIT 1")
	}
	return
}

// write is an update, insert or delete.
func (m *dbm) write(fn, mode, prefix string, list []map[string]any) *stmt {
	s := &stmt{}
	table := prefix + m.td.FullName()
	rows := func() {
		if m.own {
			m.key(s)
		} else {
			m.where(s, m.fs, false, false, fn == "DbDel" || fn == "DbRemove")
		}
	}
	switch fn {
	case "DbDel", "DbRemove":
		if fn == "DbDel" && m.td.Fake {
			s.t("UPDATE " + table + " SET delete_time = NOW() WHERE 1 = 1 ")
		} else {
			s.t("DELETE FROM " + table + " WHERE 1 = 1 ")
		}
		rows()
		return s
	case "DbInsertList":
		fs := m.fs
		if mode == "parent" {
			fs = m.tf
		}
		if len(list) == 0 {
			return nil
		}
		s.t("INSERT INTO " + table + " (")
		for i, f := range fs {
			if i > 0 {
				s.t(",")
			}
			s.t(f.DB.Name)
		}
		s.t(") VALUES ")
		for i, v := range list {
			if i > 0 {
				s.t(",")
			}
			s.t("(")
			for k, f := range fs {
				if k > 0 {
					s.t(",")
				}
				m.bind(s, f, v[f.Field.Name])
			}
			s.t(")")
		}
		return s
	}
	fs := m.fs
	if mode == "parent" {
		fs = m.tf
	}
	if fn == "DbInsert" {
		s.t("INSERT INTO " + table + " SET ")
	} else {
		s.t("UPDATE " + table + " SET ")
	}
	n := 0
	for _, f := range fs {
		text := "?"
		if t := str(f, "set"); t != "" {
			text = t
		} else if !m.own || mode == "parent" {
			continue
		}
		if fn != "DbSet" && f.Field.Type.Nullable() && m.v[f.Field.Name] == nil && strings.ToLower(str(f, "force")) != "true" {
			continue
		}
		if n > 0 {
			s.t(" , ")
		}
		n++
		s.t(f.DB.Name + " = ")
		m.expand(s, text, f, fs, nil)
	}
	if n == 0 {
		s.skip = "nothing to assign"
	}
	if fn != "DbInsert" {
		s.t(" WHERE 1 = 1 ")
		rows()
	}
	return s
}

// ---- calls

type dbCall struct {
	Type    string   `json:"type"`
	Fn      string   `json:"fn"`
	Value   any      `json:"value"`
	List    []any    `json:"list,omitempty"`
	Results []dbRows `json:"results,omitempty"`
	Fail    []int    `json:"fail,omitempty"`
	Taken   []string `json:"taken,omitempty"`
	Count   int64    `json:"count,omitempty"`
	ID      int64    `json:"id,omitempty"`
}
type dbRows struct {
	Columns []string `json:"columns"`
	Rows    [][]any  `json:"rows"`
}
type dbEvent struct {
	Op   string `json:"op"`
	Name string `json:"name"`
	Args []any  `json:"args"`
	Val  string `json:"val"`
	TTL  int64  `json:"ttl"`
	Fail bool   `json:"fail"`
}
type dbRep struct {
	Events []dbEvent `json:"events"`
	Out    []any     `json:"out"`
	Null   bool      `json:"null"`
	Err    string    `json:"err"`
	Mine   bool      `json:"mine"`
	Panic  string    `json:"panic"`
	Held   []string  `json:"held"`
	After  any       `json:"after"`
}

// dbIn is a generated call as stored in a case.
type dbIn struct {
	Value map[string]any   `json:"value"`
	List  []map[string]any `json:"list,omitempty"`
	Rows  []map[string]any `json:"rows,omitempty"`
	Bad   int              `json:"bad,omitempty"` // 1+row whose integer column holds a text
	Fail  []int            `json:"fail,omitempty"`
	Taken bool             `json:"taken,omitempty"`
	Count int64            `json:"count,omitempty"`
	ID    int64            `json:"id,omitempty"`
}

// dbJob is a call with what must happen.
type dbJob struct {
	op    core.Op
	m     *dbm
	fn    string
	mode  string
	in    dbIn
	call  *dbCall
	want  *stmt
	typ   schema.Ref // result type of reads
	cols  []schema.DBField
	rows  []map[string]any
	write bool
	bad   bool
	cache *schema.Tag
}

func isWrite(fn string) bool {
	return fn != "DbList" && fn != "DbMap" && fn != "DbGet" && fn != "DbCount"
}

// clampDB keeps what a database column can hold.
func clampDB(p *schema.Program, x schema.Ref, v map[string]any) map[string]any {
	big63 := big.NewInt(math.MaxInt64)
	fix := func(e any) any {
		if s, ok := e.(string); ok {
			if n, ok := new(big.Int).SetString(s, 10); ok && n.Cmp(big63) > 0 {
				return "7"
			}
		}
		return e
	}
	for _, f := range p.AllFields(x) {
		if f.Field.Type.Name != "uint64" {
			continue
		}
		e := v[f.Field.Name]
		if l, ok := e.([]any); ok && f.Field.Type.Shape == "array" {
			for i := range l {
				l[i] = fix(l[i])
			}
		} else if f.Field.Type.Shape == "" {
			v[f.Field.Name] = fix(e)
		}
	}
	return v
}

func genDBValue(r *schema.R, p *schema.Program, x schema.Ref) map[string]any {
	v := p.GenData(r, x, schema.ValCfg{Depth: 1, MaxLen: 4})
	for _, f := range p.DBFields(x) {
		t := f.Field.Type
		if str(f, "order") != "" && !(t.Null && r.P(30)) {
			v[f.Field.Name] = schema.Pick(r, []string{"ASC", "DESC", "ASC", "DESC", "asc", "", "DESC; DROP TABLE x", "ASC "})
		}
		if (str(f, "limit") != "" || str(f, "offset") != "") && !(t.Null && r.P(30)) {
			v[f.Field.Name] = strconv.Itoa(r.Int(100))
		}
		if t.Shape == "array" && !t.Nullable() && str(f, "where") != "" && len(v[f.Field.Name].([]any)) == 0 {
			v[f.Field.Name] = []any{p.GenElem(r, f.File, t.Name, schema.ValCfg{})}
		}
	}
	return clampDB(p, x, v)
}

// genDBOp makes a call of one database function of a type.
func genDBOp(r *schema.R, p *schema.Program, x schema.Ref, fn string) core.Op {
	m := newDBM(p, x)
	in := dbIn{Value: genDBValue(r, p, x), Count: int64(r.Int(5)), ID: int64(r.U64() >> 2)}
	if fn == "DbInsertList" {
		for i := r.Int(4); i > 0; i-- {
			in.List = append(in.List, genDBValue(r, p, x))
		}
	}
	if !isWrite(fn) {
		typ := x
		if !m.own && p.DBOps(x)[fn] == "parent" {
			typ = m.t
		}
		for i := r.Geo(5); i > 0; i-- {
			in.Rows = append(in.Rows, clampDB(p, typ, p.GenData(r, typ, schema.ValCfg{Depth: 1, MaxLen: 3})))
		}
	}
	b, _ := json.Marshal(in)
	return core.Op{Op: "db", Args: map[string]string{"type": x.Decl.Name, "fn": fn}, J: b}
}

// dbJobOf prepares a stored call for the (possibly shrunk) program; nil when it no longer exists.
func dbJobOf(p *schema.Program, o core.Op, prefix string) *dbJob {
	x := declOf(p, schema.Data, o.Args["type"])
	if x == nil {
		return nil
	}
	mode, ok := p.DBOps(*x)[o.Args["fn"]]
	if !ok {
		return nil
	}
	j := &dbJob{op: o, fn: o.Args["fn"], mode: mode, write: isWrite(o.Args["fn"]), cache: schema.GetTag(x.Decl.Tags, "cache")}
	if json.Unmarshal(o.J, &j.in) != nil {
		return nil
	}
	m := newDBM(p, *x)
	j.m = m
	m.v = clampDB(p, *x, p.Fit(*x, any(j.in.Value)))
	c := &dbCall{Type: x.Decl.Name, Fn: j.fn, Value: goValue(p, *x, m.v), Fail: j.in.Fail, Count: j.in.Count, ID: j.in.ID}
	j.call = c
	table := prefix + m.td.FullName()
	if j.in.Taken {
		c.Taken = []string{table}
	}
	if j.write {
		var list []map[string]any
		for _, e := range j.in.List {
			w := clampDB(p, *x, p.Fit(*x, any(e)))
			list = append(list, w)
			c.List = append(c.List, goValue(p, *x, w))
		}
		j.want = m.write(j.fn, mode, prefix, list)
		return j
	}
	j.want, j.typ, j.cols = m.read(j.fn, mode, prefix)
	if j.fn == "DbCount" {
		r := dbRows{Columns: []string{"n"}}
		if len(j.in.Rows) > 0 {
			r.Rows = [][]any{{"i:" + strconv.FormatInt(j.in.Count, 10)}}
		}
		c.Results = []dbRows{r}
		return j
	}
	r := dbRows{}
	for i := range j.cols {
		r.Columns = append(r.Columns, fmt.Sprintf("c%d", i))
	}
	keys := map[string]bool{}
	for _, e := range j.in.Rows {
		v := clampDB(p, j.typ, p.Fit(j.typ, any(e)))
		if j.fn == "DbMap" {
			k := j.rowKey(v)
			if keys[k] {
				continue
			}
			keys[k] = true
		}
		var cells []any
		for _, f := range j.cols {
			w := v[f.Field.Name]
			if str(f, "converter") != "" {
				b, _ := json.Marshal(p.JSON(f.File, f.Field.Type, w, true))
				cells = append(cells, "y:"+string(b))
				continue
			}
			cells = append(cells, cellOf(f.Field.Type.Name, w))
		}
		if j.in.Bad == len(r.Rows)+1 {
			for i, f := range j.cols {
				if c, ok := cells[i].(string); ok && strings.HasPrefix(c, "i:") && str(f, "converter") == "" && f.Field.Type.Name != "bool" {
					cells[i] = "s:abc"
					j.bad = j.fn != "DbGet" || len(r.Rows) == 0
					break
				}
			}
		}
		r.Rows = append(r.Rows, cells)
		j.rows = append(j.rows, v)
	}
	c.Results = []dbRows{r}
	return j
}

// row is a result row: the scanned columns, and nothing in the other fields.
func (j *dbJob) row(v map[string]any) any {
	o := j.m.p.ZeroData(j.typ, zeroDate)
	for _, f := range j.cols {
		o[f.Field.Name] = v[f.Field.Name]
	}
	return toAny(goValue(j.m.p, j.typ, o))
}

// result is what a successful read must return.
func (j *dbJob) result() any {
	switch j.fn {
	case "DbCount":
		if len(j.in.Rows) == 0 {
			return "0"
		}
		return strconv.FormatInt(j.in.Count, 10)
	case "DbGet":
		if len(j.rows) == 0 {
			return nil
		}
		return j.row(j.rows[0])
	case "DbMap":
		o := []any{}
		for _, v := range j.rows {
			o = append(o, []any{j.rowKey(v), j.row(v)})
		}
		return o
	}
	o := []any{}
	for _, v := range j.rows {
		o = append(o, j.row(v))
	}
	return o
}

// rowKey is the key of a row in the result of DbMap.
func (j *dbJob) rowKey(v map[string]any) string {
	for _, f := range j.cols {
		if f.Field.Name == j.m.d.MapKey() {
			return schema.MapKeyText(f.Field.Type, v[f.Field.Name])
		}
	}
	return fmt.Sprint(v[j.m.d.MapKey()])
}

// sameArgs compares bound values.
func (j *dbJob) sameArgs(got []any) string {
	if len(got) != len(j.want.args) {
		return fmt.Sprintf("%d bound values instead of %d: %s", len(got), len(j.want.args), show(got))
	}
	for i, a := range j.want.args {
		if !a.json {
			if fmt.Sprint(got[i]) != fmt.Sprint(a.cell) {
				return fmt.Sprintf("bound value %d is %v instead of %v", i, got[i], a.cell)
			}
			continue
		}
		s, ok := got[i].(string)
		if !ok || !strings.HasPrefix(s, "s:") {
			return fmt.Sprintf("bound value %d is %v instead of the JSON of %s", i, got[i], show(a.v))
		}
		tree, err := numTree(s[2:])
		if err != nil {
			return fmt.Sprintf("bound value %d is not JSON: %s", i, s)
		}
		w := schema.Wire{P: j.m.p, Base64: true, OmitZero: true}
		if d := w.Field("value", a.f.File, a.f.Field.Type, a.v, tree); d != "" {
			return fmt.Sprintf("bound value %d: %s", i, d)
		}
	}
	return ""
}

func (j *dbJob) at() string {
	return fmt.Sprintf("%s of %s with %s\n", j.fn, j.m.x.Decl.Name, show(j.call.Value))
}

// statement judges the statement of a call.
func (j *dbJob) statement(e dbEvent) *core.Result {
	if norm(e.Name) != norm(j.want.text) {
		return core.Failf("statement", "%sstatement %s\nexpected  %s", j.at(), norm(e.Name), norm(j.want.text))
	}
	if d := j.sameArgs(e.Args); d != "" {
		return core.Failf("arguments", "%s%s\nstatement %s", j.at(), d, e.Name)
	}
	return nil
}

func readReps(rep *grep) ([]*dbRep, error) {
	b, _ := json.Marshal(rep.Value)
	var out []*dbRep
	err := json.Unmarshal(b, &out)
	return out, err
}

func genDBProg(r *schema.R, cachePct int) *schema.Program {
	cfg := goCfg
	cfg.MaxServers = 0
	cfg.MinDatas, cfg.MaxDatas, cfg.MaxFields = 2, 6, 7
	cfg.MapKeys = jsonGoKeys
	cfg.MaxFiles = 3
	for {
		p := schema.Generate(r, cfg)
		p.Pattern = "*"
		schema.DecorateDB(r, p, cachePct)
		for _, x := range p.Decls(schema.Data) {
			if len(p.DBOps(x)) > 0 {
				return p
			}
		}
	}
}

func validDBCase(c *core.Case) bool { return validGo(c.Prog) && jsonGo(c.Prog) }
