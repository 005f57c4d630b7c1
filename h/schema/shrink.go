package schema

import "path"

// ProgShrinks proposes smaller programs that stay valid with respect to references.
func ProgShrinks(p *Program) []*Program {
	var out []*Program
	add := func(f func(q *Program) bool) {
		q := p.Clone()
		if f(q) {
			out = append(out, q)
		}
	}
	if p.Layout != 0 {
		add(func(q *Program) bool { q.Layout = 0; return true })
	}
	for i := range p.Files {
		add(func(q *Program) bool { return q.dropFile(i) })
	}
	for i, f := range p.Files {
		for j := range f.Decls {
			add(func(q *Program) bool { return q.dropDecl(i, j) })
		}
		if len(f.Imports) > 0 {
			for j := range f.Imports {
				add(func(q *Program) bool {
					g := q.Files[i]
					g.Imports = append(append([]string{}, g.Imports[:j]...), g.Imports[j+1:]...)
					return q.refsOK()
				})
			}
		}
		if len(f.Pkgs) > 0 {
			for j := range f.Pkgs {
				add(func(q *Program) bool {
					g := q.Files[i]
					g.Pkgs = append(append([]Pkg{}, g.Pkgs[:j]...), g.Pkgs[j+1:]...)
					return true
				})
			}
		}
	}
	// drop all docs / all tags
	add(func(q *Program) bool {
		n := 0
		q.eachDoc(func(d *[]string) { n += len(*d); *d = nil })
		return n > 0
	})
	add(func(q *Program) bool {
		n := 0
		q.eachTags(func(d *[]Tag) { n += len(*d); *d = nil })
		return n > 0
	})
	for i, f := range p.Files {
		for j, d := range f.Decls {
			for k := range d.Fields {
				add(func(q *Program) bool {
					e := q.Files[i].Decls[j]
					e.Fields = append(append([]*Field{}, e.Fields[:k]...), e.Fields[k+1:]...)
					return true
				})
			}
			for k := range d.Methods {
				add(func(q *Program) bool {
					e := q.Files[i].Decls[j]
					e.Methods = append(append([]*Method{}, e.Methods[:k]...), e.Methods[k+1:]...)
					return true
				})
			}
			for k := range d.Items {
				if len(d.Items) > 1 {
					add(func(q *Program) bool {
						e := q.Files[i].Decls[j]
						e.Items = append(append([]*Item{}, e.Items[:k]...), e.Items[k+1:]...)
						return true
					})
				}
			}
			for k := range d.Parents {
				add(func(q *Program) bool {
					e := q.Files[i].Decls[j]
					e.Parents = append(append([]Parent{}, e.Parents[:k]...), e.Parents[k+1:]...)
					return true
				})
			}
		}
	}
	n := 0
	p.eachTags(func(d *[]Tag) { n++ })
	for t := 0; t < n; t++ {
		var tl []Tag
		c := 0
		p.eachTags(func(d *[]Tag) {
			if c == t {
				tl = *d
			}
			c++
		})
		for x := range tl {
			add(func(q *Program) bool {
				c := 0
				q.eachTags(func(d *[]Tag) {
					if c == t {
						*d = append(append([]Tag{}, (*d)[:x]...), (*d)[x+1:]...)
					}
					c++
				})
				return true
			})
			for y := range tl[x].KV {
				add(func(q *Program) bool {
					c := 0
					q.eachTags(func(d *[]Tag) {
						if c == t {
							kv := (*d)[x].KV
							(*d)[x].KV = append(append([]KV{}, kv[:y]...), kv[y+1:]...)
						}
						c++
					})
					return true
				})
				for z := range tl[x].KV[y].V {
					if len(tl[x].KV[y].V) > 1 {
						add(func(q *Program) bool {
							c := 0
							q.eachTags(func(d *[]Tag) {
								if c == t {
									kv := &(*d)[x].KV[y]
									kv.V = append(append([]string{}, kv.V[:z]...), kv.V[z+1:]...)
								}
								c++
							})
							return true
						})
					}
				}
			}
		}
	}
	for i, f := range p.Files {
		for j, d := range f.Decls {
			for k, fl := range d.Fields {
				t := fl.Type
				var alts []Type
				if t.Shape != "" {
					alts = append(alts, Type{Name: t.Name, Null: t.Null})
				}
				if t.Null && IsScalar(t.Name) {
					u := t
					u.Null = false
					alts = append(alts, u)
				}
				if t.ONull {
					u := t
					u.ONull = false
					alts = append(alts, u)
				}
				if t.Name != "int32" {
					u := t
					u.Name = "int32"
					alts = append(alts, u)
				}
				if t.Shape == "map" && t.Key != "string" {
					u := t
					u.Key = "string"
					alts = append(alts, u)
				}
				for _, a := range alts {
					if a.Shape == "" && !a.Null && !IsScalar(a.Name) && t.Shape != "" {
						a.Null = true
					}
					add(func(q *Program) bool { q.Files[i].Decls[j].Fields[k].Type = a; return true })
				}
			}
		}
	}
	m := 0
	p.eachDoc(func(d *[]string) { m++ })
	for t := 0; t < m; t++ {
		var dl []string
		c := 0
		p.eachDoc(func(d *[]string) {
			if c == t {
				dl = *d
			}
			c++
		})
		if len(dl) > 0 {
			add(func(q *Program) bool {
				c := 0
				q.eachDoc(func(d *[]string) {
					if c == t {
						*d = (*d)[1:]
					}
					c++
				})
				return true
			})
		}
	}
	return out
}

func (p *Program) eachDoc(f func(d *[]string)) {
	for _, x := range p.Files {
		for _, d := range x.Decls {
			f(&d.Doc)
			for _, y := range d.Items {
				f(&y.Doc)
			}
			for _, y := range d.Fields {
				f(&y.Doc)
			}
			for _, y := range d.Methods {
				f(&y.Doc)
			}
		}
	}
}
func (p *Program) eachTags(f func(d *[]Tag)) {
	for _, x := range p.Files {
		for _, d := range x.Decls {
			f(&d.Tags)
			for _, y := range d.Items {
				f(&y.Tags)
			}
			for _, y := range d.Fields {
				f(&y.Tags)
			}
			for _, y := range d.Methods {
				f(&y.Tags)
			}
		}
	}
}

func (p *Program) EachTags(f func(d *[]Tag))   { p.eachTags(f) }
func (p *Program) EachDoc(f func(d *[]string)) { p.eachDoc(f) }

func (p *Program) dropDecl(i, j int) bool {
	f := p.Files[i]
	name := f.Decls[j].Name
	f.Decls = append(append([]*Decl{}, f.Decls[:j]...), f.Decls[j+1:]...)
	// remove what referred to it
	for _, g := range p.Files {
		for _, d := range g.Decls {
			var fs []*Field
			for _, x := range d.Fields {
				if x.Type.Name != name && x.Type.Key != name {
					fs = append(fs, x)
				}
			}
			d.Fields = fs
			var ps []Parent
			for _, x := range d.Parents {
				if x.Name != name {
					ps = append(ps, x)
				}
			}
			d.Parents = ps
			var ms []*Method
			for _, x := range d.Methods {
				if x.Param != name && x.Result != name {
					ms = append(ms, x)
				}
			}
			d.Methods = ms
		}
	}
	return true
}

func (p *Program) dropFile(i int) bool {
	if len(p.Files) < 2 {
		return false
	}
	for len(p.Files[i].Decls) > 0 {
		p.dropDecl(i, 0)
	}
	dead := p.Files[i].Path
	p.Files = append(append([]*File{}, p.Files[:i]...), p.Files[i+1:]...)
	for _, f := range p.Files {
		var im []string
		for _, x := range f.Imports {
			if path.Join(path.Dir(f.Path), x) != path.Clean(dead) {
				im = append(im, x)
			}
		}
		f.Imports = im
	}
	return true
}

func (p *Program) refsOK() bool {
	for _, f := range p.Files {
		for _, d := range f.Decls {
			for _, x := range d.Parents {
				if p.Visible(f, x.Name) == nil {
					return false
				}
			}
			for _, x := range d.Fields {
				if !IsScalar(x.Type.Name) && p.Visible(f, x.Type.Name) == nil {
					return false
				}
				if x.Type.Shape == "map" && !IsScalar(x.Type.Key) && p.Visible(f, x.Type.Key) == nil {
					return false
				}
			}
			for _, x := range d.Methods {
				if p.Visible(f, x.Param) == nil || (x.Result != "void" && p.Visible(f, x.Result) == nil) {
					return false
				}
			}
		}
	}
	return true
}
