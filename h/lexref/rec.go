package lexref

// Verdict of the recogniser.
type Verdict int

const (
	No Verdict = iota
	Yes
	Unknown // corners the language description leaves open
)

func (v Verdict) String() string { return [...]string{"no", "yes", "unknown"}[v] }

type rec struct {
	t    []Tok
	i    int
	open bool
	stmt int // token that began the package or import clause being read, or -1
}
type bad struct{}

func (r *rec) at(k Kind) bool { return r.t[r.i].Kind == k }
func (r *rec) must(k Kind) Tok {
	if !r.at(k) {
		panic(bad{})
	}
	r.i++
	return r.t[r.i-1]
}
func (r *rec) semi() {
	if r.at(")") || r.at("}") {
		return
	}
	r.must(Semi)
}

// Recognise decides whether the text is a schema file.
func Recognise(src string) (v Verdict) {
	_, errs := Lex(src)
	if len(errs) > 0 {
		return No
	}
	v, _, _ = recognise(src)
	return v
}

// Locate finds the first place where the text stops being a schema file: the byte range from the last token that still fits
// to the end of the first token (or bad lexeme) that does not.
func Locate(src string) (v Verdict, from, to int) {
	_, errs := Lex(src)
	v, from, to = recognise(src)
	if len(errs) == 0 || v == Unknown {
		return
	}
	first := errs[0]
	for _, e := range errs {
		if e.At < first.At {
			first = e
		}
	}
	if v == Yes || first.At <= from {
		return No, first.At, first.End
	}
	v = No
	from, to = min(from, first.At), max(to, first.At)
	return
}

func recognise(src string) (v Verdict, from, to int) {
	ts, _ := Lex(src)
	var t []Tok
	for _, x := range ts {
		if x.Kind != Comment {
			t = append(t, x)
		}
	}
	r := &rec{t: t, stmt: -1}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(bad); !ok {
				panic(e)
			}
			if r.open {
				v = Unknown
			} else {
				v = No
			}
			i := min(r.i, len(t)-1)
			to = t[i].End
			if i > 0 {
				from = t[i-1].Start
			}
			if r.stmt >= 0 {
				from = t[r.stmt].Start
			}
		}
	}()
	for r.at("package") {
		r.stmt = r.i
		r.i++
		r.must(Ident)
		r.must("=")
		r.must(Str)
		r.semi()
	}
	for r.at("import") {
		r.stmt = r.i
		r.i++
		s := r.must(Str)
		for _, c := range s.Text[1:max(1, len(s.Text)-1)] {
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '.' || c == '/' || c == '_' || c == '-') {
				r.open = true
			}
		}
		if len(s.Text) <= 2 {
			panic(bad{})
		}
		r.semi()
	}
	r.stmt = -1
	for !r.at(EOF) {
		r.decl()
	}
	if r.open {
		v = Unknown
		return
	}
	v = Yes
	return
}

func (r *rec) tags() {
	for r.at("[") {
		r.i++
		r.must(Ident)
		r.must(":")
		n := 0
		for !r.at("]") {
			if r.at(EOF) {
				panic(bad{})
			}
			if n > 0 && r.t[r.i-1].Kind != Semi {
				r.open = true // two keys with no separator
			}
			r.must(Ident)
			r.must("=")
			r.must(Str)
			for r.at(",") {
				r.i++
				r.must(Str)
			}
			n++
			if r.at(Semi) {
				r.i++
			}
		}
		if n == 0 {
			r.open = true
		}
		r.i++
		r.semi()
	}
}

func (r *rec) decl() {
	r.tags()
	switch {
	case r.at("data"), r.at("server"):
		k := r.t[r.i].Kind
		r.i++
		r.must(Ident)
		if r.at(":") {
			for {
				r.i++
				r.must(Ident)
				r.must("=")
				r.must(Int)
				if r.at(":") {
					r.open = true
					continue
				}
				if !r.at(",") {
					break
				}
			}
		} else if r.at(",") { // parents without the colon
			r.must("{")
		}
		r.must("{")
		for !r.at("}") {
			if k == "data" {
				r.field()
			} else {
				r.method()
			}
		}
		r.i++
	case r.at("enum"):
		r.i++
		r.must(Ident)
		r.must("{")
		for !r.at("}") {
			r.tags()
			r.must(Ident)
			r.must("=")
			r.must(Int)
			r.semi()
		}
		r.i++
	default:
		panic(bad{})
	}
	if r.at("=") {
		r.open = true
		r.i++
	}
	r.semi()
}

func (r *rec) typ(key bool) {
	r.must(Ident)
	if r.at("?") {
		if key {
			r.open = true
		}
		r.i++
	}
	if r.at("[") {
		if key {
			r.open = true
		}
		r.i++
		r.must("]")
		if r.at("?") {
			r.i++
		}
	} else if r.at("<") {
		if key {
			r.open = true
		}
		r.i++
		r.typ(true)
		r.must(">")
		if r.at("?") {
			r.i++
		}
	}
}

func (r *rec) field() {
	r.tags()
	r.typ(false)
	r.must(Ident)
	r.must("=")
	r.must(Int)
	if r.at(Str) {
		r.open = true
		r.i++
	}
	r.semi()
}

func (r *rec) mtyp() {
	r.must(Ident)
	if r.at("?") || r.at("[") || r.at("<") {
		r.open = true // rejected, by the parser or by the checks
		r.i--
		r.typ(false)
	}
}
func (r *rec) method() {
	r.tags()
	r.mtyp()
	r.must(Ident)
	r.must("(")
	r.mtyp()
	r.must(Ident)
	r.must(")")
	r.must("=")
	r.must(Int)
	r.semi()
}
