package schema

import "fmt"

// Edit makes one small change in one file, as a user would between two builds.
func Edit(r *R, p *Program) string {
	for try := 0; try < 20; try++ {
		i := r.Int(len(p.Files))
		f := p.Files[i]
		if len(f.Decls) == 0 {
			continue
		}
		j := r.Int(len(f.Decls))
		d := f.Decls[j]
		switch r.Int(10) {
		case 0:
			if len(d.Fields) > 0 {
				k := r.Int(len(d.Fields))
				d.Fields = append(append([]*Field{}, d.Fields[:k]...), d.Fields[k+1:]...)
				return "drop field"
			}
		case 1:
			if len(d.Items) > 1 {
				d.Items = d.Items[:len(d.Items)-1]
				return "drop item"
			}
		case 2:
			if len(d.Methods) > 0 {
				d.Methods = d.Methods[1:]
				return "drop method"
			}
		case 3:
			q := p.Clone()
			if q.dropDecl(i, j) {
				*p = *q
				return "drop declaration"
			}
		case 4:
			if d.Kind == Data {
				d.Fields = append(d.Fields, &Field{Name: fmt.Sprintf("added%d", 100+r.Int(900)), ID: fmt.Sprint(5000 + r.Int(900)), Type: Type{Name: Pick(r, Scalars), Null: r.Bool()}})
				return "add field"
			}
		case 5:
			n := 0
			p.eachDoc(func(x *[]string) {
				if len(*x) > 0 && n == 0 && r.P(40) {
					n++
					*x = nil
				}
			})
			if n > 0 {
				return "drop doc"
			}
		case 6:
			n := 0
			p.eachTags(func(x *[]Tag) {
				if len(*x) > 0 && n == 0 && r.P(40) {
					n++
					*x = (*x)[1:]
				}
			})
			if n > 0 {
				return "drop annotation"
			}
		case 7:
			if len(d.Items) > 0 {
				Pick(r, d.Items).Name = fmt.Sprintf("renamed%d", r.Int(900))
				return "rename item"
			}
		case 8:
			if len(d.Fields) > 0 {
				x := Pick(r, d.Fields)
				x.Type = Type{Name: Pick(r, Scalars), Null: !x.Type.Null}
				return "change type"
			}
		case 9:
			if len(f.Decls) > 1 {
				k := r.Int(len(f.Decls))
				f.Decls[j], f.Decls[k] = f.Decls[k], f.Decls[j]
				return "swap"
			}
		}
	}
	return "none"
}
