package schema

import (
	"fmt"
	"math/big"
	"path"
	"strings"
)

// Root at the start of an import stands for the absolute path of the source directory, filled in when files are written.
const Root = "/@ROOT@/"

// Loc is a construct of a file.
type Loc struct {
	File int
	Mark string
}

// Fault is a reason to reject a program; the message may point at any of the places.
type Fault struct {
	Kind string
	At   []Loc
}

func isReserved(n string) bool {
	for _, r := range Reserved {
		if r == n {
			return true
		}
	}
	return false
}

func sameNum(a, b string) bool {
	x, ok1 := new(big.Int).SetString(a, 0)
	y, ok2 := new(big.Int).SetString(b, 0)
	return a == b || ok1 && ok2 && x.Cmp(y) == 0
}

// Reachable lists the indexes of the files that match none of the pattern but are read anyway: all files reached from start.
func (p *Program) fileIndex(q string) int {
	for i, f := range p.Files {
		if path.Clean(f.Path) == path.Clean(q) {
			return i
		}
	}
	return -1
}

func (p *Program) ImportTarget(i, k int) int {
	f := p.Files[i]
	im := f.Imports[k]
	if strings.HasPrefix(im, Root) {
		return p.fileIndex(path.Clean(strings.TrimPrefix(im, Root)))
	}
	if strings.HasPrefix(im, "/") {
		return -1
	}
	return p.fileIndex(path.Join(path.Dir(f.Path), im))
}

// Validate lists the faults of the files in read (all of them when read is nil).
func (p *Program) Validate(read map[int]bool) []Fault {
	var out []Fault
	add := func(kind string, at ...Loc) { out = append(out, Fault{kind, at}) }
	for i, f := range p.Files {
		if read != nil && !read[i] {
			continue
		}
		visible := []int{i}
		for k := range f.Imports {
			t := p.ImportTarget(i, k)
			if t < 0 {
				add("missing-import", Loc{i, fmt.Sprintf("import#%d", k)})
				continue
			}
			visible = append(visible, t)
		}
		find := func(n string, kinds ...string) *Decl {
			for _, v := range visible {
				for _, d := range p.Files[v].Decls {
					if d.Name == n {
						for _, k := range kinds {
							if d.Kind == k {
								return d
							}
						}
					}
				}
			}
			return nil
		}
		tags := func(ts []Tag, at string) {
			for a := range ts {
				for b := a + 1; b < len(ts); b++ {
					if ts[a].Name == ts[b].Name {
						add("dup-tag", Loc{i, fmt.Sprintf("%s.t%d", at, a)}, Loc{i, fmt.Sprintf("%s.t%d", at, b)})
					}
				}
				kv := ts[a].KV
				for x := range kv {
					for y := x + 1; y < len(kv); y++ {
						if kv[x].K == kv[y].K {
							add("dup-key", Loc{i, fmt.Sprintf("%s.t%d.k%d", at, a, x)}, Loc{i, fmt.Sprintf("%s.t%d.k%d", at, a, y)})
						}
					}
				}
			}
		}
		// references inside annotations: verify formats and method bindings
		refs := func(ts []Tag, at, tag, key string, all bool) {
			for a, t := range ts {
				if t.Name != tag {
					continue
				}
				for b, kv := range t.KV {
					if kv.K != key {
						continue
					}
					for n, v := range kv.V {
						if n > 0 && !all {
							break
						}
						if why := badRef(v, tag, find); why != "" {
							l := Loc{i, fmt.Sprintf("%s.t%d.k%d", at, a, b)}
							if all {
								l.Mark += fmt.Sprintf(".v%d", n)
							}
							add("bad-"+tag+": "+why, l)
						}
					}
				}
				break // only the first annotation of a name counts, and a second one is a fault
			}
		}
		for j, d := range f.Decls {
			dk := fmt.Sprintf("d%d", j)
			here := Loc{i, dk}
			tags(d.Tags, dk)
			if d.Kind == Data {
				refs(d.Tags, dk, "verify", "format", true)
				for a, x := range d.Fields {
					refs(x.Tags, fmt.Sprintf("%s.m%d", dk, a), "verify", "format", true)
				}
			}
			if d.Kind == Server {
				for a, x := range d.Methods {
					refs(x.Tags, fmt.Sprintf("%s.m%d", dk, a), "bind", "value", false)
				}
			}
			if isReserved(d.Name) {
				add("reserved", here)
			}
			for j2 := j + 1; j2 < len(f.Decls); j2++ {
				if f.Decls[j2].Name == d.Name {
					add("dup-decl", here, Loc{i, fmt.Sprintf("d%d", j2)})
				}
			}
			for _, v := range visible[1:] {
				if v == i {
					continue
				}
				for j2, e := range p.Files[v].Decls {
					if e.Name == d.Name {
						add("dup-decl", here, Loc{v, fmt.Sprintf("d%d", j2)})
					}
				}
			}
			for a, q := range d.Parents {
				pk := Loc{i, fmt.Sprintf("%s.p%d", dk, a)}
				if isReserved(q.Name) {
					add("reserved", pk)
					continue
				}
				for b := a + 1; b < len(d.Parents); b++ {
					if d.Parents[b].Name == q.Name {
						add("dup-parent", pk, Loc{i, fmt.Sprintf("%s.p%d", dk, b)})
					}
				}
				if find(q.Name, d.Kind) == nil {
					if find(q.Name, Data, Enum, Server) != nil {
						add("wrong-kind-parent", pk)
					} else {
						add("unknown-parent", pk)
					}
				}
			}
			members := func(names, ids []string, tg [][]Tag, word string) {
				for a := range names {
					mk := Loc{i, fmt.Sprintf("%s.m%d", dk, a)}
					tags(tg[a], mk.Mark)
					nk := Loc{i, mk.Mark + ".name"}
					if isReserved(names[a]) {
						add("reserved", nk)
					}
					for b := a + 1; b < len(names); b++ {
						ml := Loc{i, fmt.Sprintf("%s.m%d", dk, b)}
						if names[a] == names[b] {
							add("dup-"+word, nk, Loc{i, ml.Mark + ".name"})
						}
						if ids != nil && sameNum(ids[a], ids[b]) {
							add("dup-"+word+"-number", Loc{i, mk.Mark + ".id"}, Loc{i, ml.Mark + ".id"})
						}
					}
				}
			}
			var names, ids []string
			var tg [][]Tag
			switch d.Kind {
			case Enum:
				for _, x := range d.Items {
					names, ids, tg = append(names, x.Name), append(ids, x.ID), append(tg, x.Tags)
				}
				members(names, ids, tg, "item")
			case Data:
				for a, x := range d.Fields {
					names, ids, tg = append(names, x.Name), append(ids, x.ID), append(tg, x.Tags)
					mk := Loc{i, fmt.Sprintf("%s.m%d", dk, a)}
					if !IsScalar(x.Type.Name) && find(x.Type.Name, Data, Enum) == nil {
						if find(x.Type.Name, Server) != nil {
							add("wrong-kind-type", Loc{i, mk.Mark + ".type"})
						} else {
							add("unknown-type", Loc{i, mk.Mark + ".type"})
						}
					}
					if x.Type.Shape == "map" {
						switch k := x.Type.Key; {
						case x.Type.KeyRaw != "":
							if strings.HasSuffix(x.Type.KeyRaw, "?") {
								add("null-key", Loc{i, mk.Mark + ".key"})
							} else {
								add("shaped-key", Loc{i, mk.Mark + ".key"})
							}
						case IsScalar(k), find(k, Enum) != nil:
						case find(k, Data, Server) != nil:
							add("wrong-kind-key", Loc{i, mk.Mark + ".key"})
						default:
							add("unknown-key", Loc{i, mk.Mark + ".key"})
						}
					}
				}
				members(names, ids, tg, "field")
			case Server:
				for a, x := range d.Methods {
					names, tg = append(names, x.Name), append(tg, x.Tags)
					mk := Loc{i, fmt.Sprintf("%s.m%d", dk, a)}
					one := func(t string, mk Loc) {
						switch {
						case strings.HasSuffix(t, "?"):
							add("null-method-type", mk)
						case strings.ContainsAny(t, "[<"):
							add("shaped-method-type", mk)
						case find(t, Data) != nil:
						case IsScalar(t), find(t, Enum, Server) != nil:
							add("wrong-kind-method-type", mk)
						default:
							add("unknown-method-type", mk)
						}
					}
					if x.Result != "void" {
						one(x.Result, Loc{i, mk.Mark + ".type"})
					}
					one(x.Param, Loc{i, mk.Mark + ".param"})
					if isReserved(x.ParamName) {
						add("reserved", Loc{i, mk.Mark + ".pname"})
					}
				}
				members(names, nil, tg, "method")
			}
		}
	}
	out = append(out, p.cycles(read)...)
	return out
}

// cycles finds inheritance cycles: the message may point at any parent clause on the cycle.
func (p *Program) cycles(read map[int]bool) []Fault {
	type node struct{ f, d int }
	next := func(n node) map[node]Loc {
		out := map[node]Loc{}
		f := p.Files[n.f]
		d := f.Decls[n.d]
		for a, q := range d.Parents {
			vis := []int{n.f}
			for k := range f.Imports {
				if t := p.ImportTarget(n.f, k); t >= 0 {
					vis = append(vis, t)
				}
			}
		search:
			for _, v := range vis {
				for j, e := range p.Files[v].Decls {
					if e.Name == q.Name && e.Kind == d.Kind {
						out[node{v, j}] = Loc{n.f, fmt.Sprintf("d%d.p%d", n.d, a)}
						break search
					}
				}
			}
		}
		return out
	}
	var all []node
	for i, f := range p.Files {
		if read != nil && !read[i] {
			continue
		}
		for j := range f.Decls {
			all = append(all, node{i, j})
		}
	}
	reach := func(a, b node) bool {
		seen := map[node]bool{}
		st := []node{a}
		for len(st) > 0 {
			n := st[len(st)-1]
			st = st[:len(st)-1]
			for m := range next(n) {
				if m == b {
					return true
				}
				if !seen[m] {
					seen[m] = true
					st = append(st, m)
				}
			}
		}
		return false
	}
	var at []Loc
	for _, a := range all {
		for b, l := range next(a) {
			if b == a || reach(b, a) {
				at = append(at, l)
			}
		}
	}
	if len(at) == 0 {
		return nil
	}
	return []Fault{{"cycle", at}}
}

// ReadFiles gives the files matched by the pattern (a predicate on base names, applied to all directories) and their imports.
func (p *Program) ReadFiles(match func(string) bool) map[int]bool {
	out := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if i < 0 || out[i] {
			return
		}
		out[i] = true
		for k := range p.Files[i].Imports {
			visit(p.ImportTarget(i, k))
		}
	}
	for i, f := range p.Files {
		if match(path.Base(f.Path)) {
			visit(i)
		}
	}
	return out
}

func badRef(v, tag string, find func(string, ...string) *Decl) string {
	parts := strings.Split(v, ".")
	if len(parts) < 2 {
		return "no member"
	}
	if tag == "verify" {
		d := find(parts[0], Enum)
		if d == nil {
			return "no such enum"
		}
		for _, x := range d.Items {
			if x.Name == parts[1] {
				return ""
			}
		}
		return "no such item"
	}
	d := find(parts[0], Server)
	if d == nil {
		return "no such server"
	}
	for _, x := range d.Methods {
		if x.Name == parts[1] {
			return ""
		}
	}
	return "no such method"
}

// Ambiguous tells whether a file imports one name from two files (what such a name means is not specified).
func (p *Program) Ambiguous() bool {
	for i, f := range p.Files {
		seen := map[string]int{}
		for k := range f.Imports {
			t := p.ImportTarget(i, k)
			if t < 0 || t == i {
				continue
			}
			for _, d := range p.Files[t].Decls {
				if o, ok := seen[d.Name]; ok && o != t {
					return true
				}
				seen[d.Name] = t
			}
		}
	}
	return false
}

// Mentions lists the parents, members and annotations that refer to the name.
func (p *Program) Mentions(name string) []Loc {
	var out []Loc
	for i, f := range p.Files {
		tags := func(ts []Tag, at string) {
			for a, t := range ts {
				for b, kv := range t.KV {
					for n, v := range kv.V {
						if strings.HasPrefix(v, name+".") {
							out = append(out, Loc{i, fmt.Sprintf("%s.t%d.k%d", at, a, b)}, Loc{i, fmt.Sprintf("%s.t%d.k%d.v%d", at, a, b, n)})
						}
					}
				}
			}
		}
		for j, d := range f.Decls {
			dk := fmt.Sprintf("d%d", j)
			tags(d.Tags, dk)
			for a, q := range d.Parents {
				if q.Name == name {
					out = append(out, Loc{i, fmt.Sprintf("%s.p%d", dk, a)})
				}
			}
			for a, x := range d.Fields {
				mk := fmt.Sprintf("%s.m%d", dk, a)
				tags(x.Tags, mk)
				if x.Type.Name == name {
					out = append(out, Loc{i, mk + ".type"})
				}
				if x.Type.Key == name {
					out = append(out, Loc{i, mk + ".key"})
				}
			}
			for a, x := range d.Methods {
				mk := fmt.Sprintf("%s.m%d", dk, a)
				tags(x.Tags, mk)
				if x.Result == name {
					out = append(out, Loc{i, mk + ".type"})
				}
				if x.Param == name {
					out = append(out, Loc{i, mk + ".param"})
				}
			}
		}
	}
	return out
}
