package schema

import "path"

// FaultKinds are the ways Inject can break a program.
var FaultKinds = []string{"dup-decl", "dup-decl-import", "dup-field", "dup-item", "dup-method", "dup-field-number", "dup-item-number", "dup-data-parent", "dup-server-parent",
	"dup-tag", "dup-key", "reserved-decl", "reserved-member", "reserved-param", "reserved-parent", "unknown-type", "unknown-key", "unknown-method-type", "unknown-parent", "server-as-type", "data-as-key", "server-as-key",
	"bad-method-type", "wrong-parent", "two-hops", "two-hops-parent", "null-key", "shaped-key", "null-method", "shaped-method", "missing-import", "cycle-self", "cycle-data", "cycle-server",
	"bad-verify", "bad-verify-data", "bad-bind"}

func (p *Program) pickDecl(r *R, kind string, ok func(f *File, d *Decl) bool) (*File, *Decl) {
	var c []Ref
	for _, x := range p.Decls(kind) {
		if ok == nil || ok(x.File, x.Decl) {
			c = append(c, x)
		}
	}
	if len(c) == 0 {
		return nil, nil
	}
	x := Pick(r, c)
	return x.File, x.Decl
}

func insertAt[T any](r *R, xs []T, x T) []T {
	i := r.Int(len(xs) + 1)
	out := append([]T{}, xs[:i]...)
	out = append(out, x)
	return append(out, xs[i:]...)
}

// respell writes a number in another base.
func respell(r *R, id string) string {
	if r.Bool() || len(id) > 9 {
		return id
	}
	n := 0
	if len(id) > 1 && id[0] == '0' {
		return id
	}
	for _, c := range id {
		n = n*10 + int(c-'0')
	}
	const hex = "0123456789abcdef"
	s := ""
	for n > 0 || s == "" {
		s = string(hex[n%16]) + s
		n /= 16
	}
	return "0x" + s
}

// Inject breaks the program in the given way; false if it has no place for it.
func Inject(r *R, p *Program, kind string) bool {
	fresh := func(s string) string {
		for p.anyDecl(s) {
			s += "Q"
		}
		return s
	}
	free := func(ids map[string]bool) string {
		for i := 700; ; i++ {
			s := itoa(i)
			if !ids[s] {
				return s
			}
		}
	}
	anyField := func() *Field {
		_, d := p.pickDecl(r, Data, func(f *File, d *Decl) bool { return len(d.Fields) > 0 })
		if d == nil {
			return nil
		}
		return Pick(r, d.Fields)
	}
	anyMethod := func() *Method {
		_, d := p.pickDecl(r, Server, func(f *File, d *Decl) bool { return len(d.Methods) > 0 })
		if d == nil {
			return nil
		}
		return Pick(r, d.Methods)
	}
	switch kind {
	case "dup-decl", "dup-decl-import":
		f, d := p.pickDecl(r, "", nil)
		if d == nil {
			return false
		}
		e := &Decl{Kind: Pick(r, []string{Enum, Data, Server}), Name: d.Name}
		switch e.Kind {
		case Enum:
			e.Items = []*Item{{Name: "Aa", ID: "0"}}
		case Data:
			e.Fields = []*Field{{Name: "fld", ID: "0", Type: Type{Name: "int32"}}}
		}
		if kind == "dup-decl" {
			f.Decls = insertAt(r, f.Decls, e)
			return true
		}
		for i, g := range p.Files {
			for k := range g.Imports {
				if t := p.ImportTarget(i, k); t >= 0 && p.Files[t] == f && g != f {
					g.Decls = insertAt(r, g.Decls, e)
					return true
				}
			}
		}
		return false
	case "dup-field", "dup-field-number":
		_, d := p.pickDecl(r, Data, func(f *File, d *Decl) bool { return len(d.Fields) > 0 })
		if d == nil {
			return false
		}
		x := *Pick(r, d.Fields)
		ids := map[string]bool{}
		for _, y := range d.Fields {
			ids[y.ID] = true
		}
		if kind == "dup-field" {
			x.ID = free(ids)
			x.Type = Type{Name: Pick(r, Scalars)}
		} else {
			x.Name = "zzFresh"
			x.ID = respell(r, x.ID)
		}
		x.Tags, x.Doc = nil, nil
		d.Fields = insertAt(r, d.Fields, &x)
	case "dup-item", "dup-item-number":
		_, d := p.pickDecl(r, Enum, func(f *File, d *Decl) bool { return len(d.Items) > 0 })
		if d == nil {
			return false
		}
		x := *Pick(r, d.Items)
		ids := map[string]bool{}
		for _, y := range d.Items {
			ids[y.ID] = true
		}
		if kind == "dup-item" {
			x.ID = free(ids)
		} else {
			x.Name = "zzFresh"
			x.ID = respell(r, x.ID)
		}
		x.Tags, x.Doc = nil, nil
		d.Items = insertAt(r, d.Items, &x)
	case "dup-method":
		_, d := p.pickDecl(r, Server, func(f *File, d *Decl) bool { return len(d.Methods) > 0 })
		if d == nil {
			return false
		}
		x := *Pick(r, d.Methods)
		x.ID = "701"
		x.Tags, x.Doc = nil, nil
		d.Methods = insertAt(r, d.Methods, &x)
	case "dup-data-parent", "dup-server-parent":
		k := Data
		if kind == "dup-server-parent" {
			k = Server
		}
		_, d := p.pickDecl(r, k, func(f *File, d *Decl) bool { return len(d.Parents) > 0 })
		if d == nil {
			return false
		}
		d.Parents = insertAt(r, d.Parents, Parent{Pick(r, d.Parents).Name, "703"})
	case "dup-tag", "dup-key":
		var lists []*[]Tag
		p.eachTags(func(t *[]Tag) { lists = append(lists, t) })
		if len(lists) == 0 {
			return false
		}
		l := Pick(r, lists)
		n := r.Range(1, 3)
		for len(*l) < n {
			*l = append(*l, Tag{Name: "note" + itoa(len(*l)), KV: []KV{{"k1", []string{"v"}}, {"k2", []string{"w"}}}[:r.Range(1, 2)]})
		}
		if kind == "dup-tag" {
			*l = insertAt(r, *l, Tag{Name: Pick(r, *l).Name, KV: []KV{{"other", []string{"z"}}}})
			return true
		}
		i := r.Int(len(*l))
		(*l)[i].KV = insertAt(r, (*l)[i].KV, KV{Pick(r, (*l)[i].KV).K, []string{"again"}})
	case "reserved-decl":
		_, d := p.pickDecl(r, "", nil)
		if d == nil {
			return false
		}
		p.rename(d.Name, Pick(r, Scalars))
	case "reserved-member":
		_, d := p.pickDecl(r, "", func(f *File, d *Decl) bool { return len(d.Fields)+len(d.Items)+len(d.Methods) > 0 })
		if d == nil {
			return false
		}
		n := Pick(r, Scalars)
		switch d.Kind {
		case Enum:
			Pick(r, d.Items).Name = n
		case Data:
			Pick(r, d.Fields).Name = n
		case Server:
			Pick(r, d.Methods).Name = n
		}
	case "reserved-param":
		m := anyMethod()
		if m == nil {
			return false
		}
		m.ParamName = Pick(r, Scalars)
	case "reserved-parent":
		_, d := p.pickDecl(r, "", func(f *File, d *Decl) bool { return d.Kind != Enum })
		if d == nil {
			return false
		}
		d.Parents = insertAt(r, d.Parents, Parent{Pick(r, Scalars), "704"})
	case "unknown-type":
		x := anyField()
		if x == nil {
			return false
		}
		x.Type.Name = fresh("NoSuchType")
	case "unknown-key", "null-key", "shaped-key", "data-as-key", "server-as-key":
		f, d := p.pickDecl(r, Data, func(f *File, d *Decl) bool { return len(d.Fields) > 0 })
		if d == nil {
			return false
		}
		x := Pick(r, d.Fields)
		x.Type.Shape = "map"
		if x.Type.Key == "" {
			x.Type.Key = "string"
		}
		switch kind {
		case "unknown-key":
			x.Type.Key = fresh("NoSuchKey")
		case "null-key":
			x.Type.KeyRaw = x.Type.Key + "?"
		case "shaped-key":
			x.Type.KeyRaw = x.Type.Key + Pick(r, []string{"[]", "<string>", "<int64>"})
		case "data-as-key":
			x.Type.Key = d.Name
		case "server-as-key":
			for _, e := range f.Decls {
				if e.Kind == Server {
					x.Type.Key = e.Name
					return true
				}
			}
			return false
		}
	case "unknown-method-type", "null-method", "shaped-method", "bad-method-type":
		f, d := p.pickDecl(r, Server, func(f *File, d *Decl) bool { return len(d.Methods) > 0 })
		if d == nil {
			return false
		}
		m := Pick(r, d.Methods)
		t := &m.Param
		if r.Bool() && m.Result != "void" {
			t = &m.Result
		}
		switch kind {
		case "unknown-method-type":
			*t = fresh("NoSuchData")
		case "null-method":
			*t += "?"
		case "shaped-method":
			*t += Pick(r, []string{"[]", "<string>"})
		default:
			c := append([]string{"int32", "string", "decimal"}, d.Name)
			for _, e := range f.Decls {
				if e.Kind != Data {
					c = append(c, e.Name, e.Name)
				}
			}
			*t = Pick(r, c)
		}
	case "unknown-parent":
		_, d := p.pickDecl(r, "", func(f *File, d *Decl) bool { return d.Kind != Enum })
		if d == nil {
			return false
		}
		d.Parents = insertAt(r, d.Parents, Parent{fresh("NoSuchParent"), "705"})
	case "server-as-type":
		f, d := p.pickDecl(r, Data, func(f *File, d *Decl) bool { return len(d.Fields) > 0 })
		if d == nil {
			return false
		}
		for _, e := range f.Decls {
			if e.Kind == Server {
				x := Pick(r, d.Fields)
				x.Type.Name = e.Name
				return true
			}
		}
		return false
	case "wrong-parent":
		f, d := p.pickDecl(r, "", func(f *File, d *Decl) bool { return d.Kind != Enum })
		if d == nil {
			return false
		}
		for _, k := range r.Perm(len(f.Decls)) {
			if e := f.Decls[k]; e.Kind != d.Kind {
				d.Parents = insertAt(r, d.Parents, Parent{e.Name, "706"})
				return true
			}
		}
		return false
	case "two-hops", "two-hops-parent":
		// a name declared in a file that is imported only indirectly, or not at all
		for _, i := range r.Perm(len(p.Files)) {
			f := p.Files[i]
			vis := map[int]bool{i: true}
			for k := range f.Imports {
				vis[p.ImportTarget(i, k)] = true
			}
			for _, j := range r.Perm(len(p.Files)) {
				if vis[j] {
					continue
				}
				for _, e := range p.Files[j].Decls {
					if e.Kind != Data {
						continue
					}
					for _, d := range f.Decls {
						if d.Kind != Data {
							continue
						}
						if kind == "two-hops-parent" {
							d.Parents = insertAt(r, d.Parents, Parent{e.Name, "707"})
							return true
						}
						if len(d.Fields) > 0 {
							Pick(r, d.Fields).Type.Name = e.Name
							return true
						}
					}
				}
			}
		}
		return false
	case "bad-verify", "bad-verify-data", "bad-bind":
		k := Data
		if kind == "bad-bind" {
			k = Server
		}
		f, d := p.pickDecl(r, k, func(f *File, d *Decl) bool { return kind == "bad-verify-data" || len(d.Fields)+len(d.Methods) > 0 })
		if d == nil {
			return false
		}
		bad := []string{"", "Nodot", "NoSuch.item", "."}
		for _, e := range f.Decls {
			bad = append(bad, e.Name+".nosuch", e.Name)
		}
		var ts *[]Tag
		vs := []string{Pick(r, bad)}
		for _, e := range f.Decls { // good values around the bad one
			if e.Kind == Enum && len(e.Items) > 0 && r.P(40) {
				vs = insertAt(r, vs, e.Name+"."+Pick(r, e.Items).Name)
			}
		}
		t := Tag{Name: "verify", KV: []KV{{"format", vs}}}
		switch kind {
		case "bad-verify":
			ts = &Pick(r, d.Fields).Tags
		case "bad-verify-data":
			ts = &d.Tags
		default:
			ts = &Pick(r, d.Methods).Tags
			t = Tag{Name: "bind", KV: []KV{{"value", []string{Pick(r, bad)}}}}
		}
		for i := range *ts {
			if (*ts)[i].Name == t.Name {
				kv := &(*ts)[i].KV
				for n := range *kv {
					if (*kv)[n].K == t.KV[0].K {
						if kind != "bad-bind" {
							for _, v := range t.KV[0].V {
								(*kv)[n].V = insertAt(r, (*kv)[n].V, v)
							}
						} else {
							(*kv)[n].V[0] = t.KV[0].V[0]
						}
						return true
					}
				}
				*kv = insertAt(r, *kv, t.KV[0])
				return true
			}
		}
		*ts = insertAt(r, *ts, t)
	case "missing-import":
		f := Pick(r, p.Files)
		f.Imports = insertAt(r, f.Imports, Pick(r, []string{"nosuch.hbuf", "no/such.hbuf", "../nosuch9.hbuf", path.Base(f.Path) + "x"}))
	case "cycle-self":
		_, d := p.pickDecl(r, "", func(f *File, d *Decl) bool { return d.Kind != Enum })
		if d == nil {
			return false
		}
		d.Parents = insertAt(r, d.Parents, Parent{d.Name, "708"})
	case "cycle-data", "cycle-server":
		k := Data
		if kind == "cycle-server" {
			k = Server
		}
		f, d := p.pickDecl(r, k, nil)
		if d == nil {
			return false
		}
		// a chain of fresh declarations back to d, possibly through another file
		n := r.Range(1, 3)
		prev := d
		pf := f
		for i := 0; i < n; i++ {
			e := &Decl{Kind: k, Name: fresh("Cyc" + itoa(i) + "le")}
			g := Pick(r, p.Files)
			ok := g == pf
			for x := range pf.Imports {
				if t := p.ImportTarget(p.indexOf(pf), x); t >= 0 && p.Files[t] == g {
					ok = true
				}
			}
			if !ok {
				g = pf
			}
			g.Decls = insertAt(r, g.Decls, e)
			prev.Parents = insertAt(r, prev.Parents, Parent{e.Name, itoa(710 + i)})
			prev, pf = e, g
		}
		if pf != f {
			back := false
			for x := range pf.Imports {
				if t := p.ImportTarget(p.indexOf(pf), x); t >= 0 && p.Files[t] == f {
					back = true
				}
			}
			if !back {
				pf.Imports = append(pf.Imports, relPath(pf.Path, f.Path))
			}
		}
		prev.Parents = append(prev.Parents, Parent{d.Name, "720"})
	default:
		return false
	}
	return true
}

func itoa(i int) string {
	s := ""
	for i > 0 || s == "" {
		s = string(rune('0'+i%10)) + s
		i /= 10
	}
	return s
}

func (p *Program) indexOf(f *File) int {
	for i, g := range p.Files {
		if g == f {
			return i
		}
	}
	return -1
}
func (p *Program) anyDecl(n string) bool {
	for _, x := range p.Decls("") {
		if x.Decl.Name == n {
			return true
		}
	}
	return false
}

func (p *Program) rename(from, to string) {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			if d.Name == from {
				d.Name = to
			}
			for i := range d.Parents {
				if d.Parents[i].Name == from {
					d.Parents[i].Name = to
				}
			}
			for _, x := range d.Fields {
				if x.Type.Name == from {
					x.Type.Name = to
				}
				if x.Type.Key == from {
					x.Type.Key = to
				}
			}
			for _, m := range d.Methods {
				if m.Param == from {
					m.Param = to
				}
				if m.Result == from {
					m.Result = to
				}
			}
		}
	}
}
