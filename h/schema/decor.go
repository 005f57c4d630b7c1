package schema

// DecorateRefs adds valid verify and bind references to a program.
func DecorateRefs(r *R, p *Program, pct int) {
	for _, f := range p.Files {
		var enums, servers []*Decl
		add := func(g *File) {
			for _, d := range g.Decls {
				switch {
				case d.Kind == Enum && len(d.Items) > 0:
					enums = append(enums, d)
				case d.Kind == Server && len(d.Methods) > 0:
					servers = append(servers, d)
				}
			}
		}
		add(f)
		i := p.indexOf(f)
		for k := range f.Imports {
			if t := p.ImportTarget(i, k); t >= 0 && t != i {
				add(p.Files[t])
			}
		}
		verify := func() Tag {
			kv := KV{K: "format"}
			for n := 1 + r.Geo(2); n > 0; n-- {
				e := Pick(r, enums)
				kv.V = append(kv.V, e.Name+"."+Pick(r, e.Items).Name)
			}
			return Tag{"verify", []KV{kv}}
		}
		for _, d := range f.Decls {
			if d.Kind == Data && len(enums) > 0 && GetTag(d.Tags, "verify") == nil {
				if r.P(pct) {
					d.Tags = append(d.Tags, verify())
				}
				for _, x := range d.Fields {
					if r.P(pct) && GetTag(x.Tags, "verify") == nil {
						x.Tags = append(x.Tags, verify())
					}
				}
			}
			if d.Kind == Server && len(servers) > 0 {
				for _, m := range d.Methods {
					if r.P(pct) && GetTag(m.Tags, "bind") == nil {
						s := Pick(r, servers)
						m.Tags = append(m.Tags, Tag{"bind", []KV{{"value", []string{s.Name + "." + Pick(r, s.Methods).Name}}}})
					}
				}
			}
		}
	}
}

// AddImport makes file a import file b.
func (p *Program) AddImport(a, b *File) { a.Imports = append(a.Imports, relPath(a.Path, b.Path)) }
