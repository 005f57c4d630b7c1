// Package dartx reads, checks and runs generated Dart: a lexer and parser for the part of the language that generated code
// uses, a resolver that reports names without a declaration and other mistakes a compiler would reject, and an interpreter
// with stand-ins for the libraries that the code imports.
package dartx

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

type tokKind int

const (
	tEOF tokKind = iota
	tIdent
	tInt
	tDouble
	tString
	tOp
)

type token struct {
	kind  tokKind
	text  string
	parts []part // of a string
	line  int
	glue  bool // directly follows the token before
	docs  []string
}

// part of a string literal: text, or the tokens of an interpolated expression
type part struct {
	text string
	toks []token
	expr *Node
}

// Error is a mistake in a file.
type Error struct {
	Line int
	Msg  string
}

func (e *Error) Error() string { return fmt.Sprintf("line %d: %s", e.Line, e.Msg) }

type lexer struct {
	s    string
	i    int
	line int
	out  []token
	docs []string
	com  int // comments seen
}

func fail(line int, f string, a ...any) { panic(&Error{line, fmt.Sprintf(f, a...)}) }

func isStart(r rune) bool { return r == '_' || r == '$' || r < 128 && unicode.IsLetter(r) }
func isPart(r rune) bool  { return isStart(r) || r >= '0' && r <= '9' }

var ops = []string{"...?", "...", "??=", "<<=", "~/=", "=>", "==", "!=", "<=", "&&", "||", "??", "?.", "?[", "..", "++", "--", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "<<", "~/"}

// Tokens splits a source text into tokens without comments; it panics with *Error.
func lex(s string, line int) []token {
	l := &lexer{s: s, line: line}
	for l.next() {
	}
	l.out = append(l.out, token{kind: tEOF, line: l.line, docs: l.docs})
	return l.out
}

func (l *lexer) add(t token) {
	t.docs = l.docs
	l.docs = nil
	l.out = append(l.out, t)
}

func (l *lexer) next() bool {
	glue := true
	for l.i < len(l.s) {
		c := l.s[l.i]
		switch {
		case c == '\n':
			l.line++
			l.i++
			glue = false
			continue
		case c == ' ' || c == '\t' || c == '\r':
			l.i++
			glue = false
			continue
		case strings.HasPrefix(l.s[l.i:], "//"):
			j := strings.IndexAny(l.s[l.i:], "\n\r")
			if j < 0 {
				j = len(l.s) - l.i
			}
			l.docs = append(l.docs, l.s[l.i:l.i+j])
			l.i += j
			glue = false
			continue
		case strings.HasPrefix(l.s[l.i:], "/*"):
			d, j := 1, l.i+2
			for d > 0 {
				if j >= len(l.s) {
					fail(l.line, "a comment is not closed")
				}
				switch {
				case strings.HasPrefix(l.s[j:], "/*"):
					d++
					j += 2
				case strings.HasPrefix(l.s[j:], "*/"):
					d--
					j += 2
				default:
					j++
				}
			}
			l.docs = append(l.docs, l.s[l.i:j])
			l.line += strings.Count(l.s[l.i:j], "\n")
			l.i = j
			glue = false
			continue
		}
		break
	}
	if l.i >= len(l.s) {
		return false
	}
	r, n := utf8.DecodeRuneInString(l.s[l.i:])
	start, line := l.i, l.line
	switch {
	case r == 'r' && l.i+1 < len(l.s) && (l.s[l.i+1] == '"' || l.s[l.i+1] == '\''):
		l.i++
		l.str(true, glue)
		return true
	case isStart(r):
		for l.i < len(l.s) {
			r, n = utf8.DecodeRuneInString(l.s[l.i:])
			if !isPart(r) {
				break
			}
			l.i += n
		}
		l.add(token{kind: tIdent, text: l.s[start:l.i], line: line, glue: glue})
		return true
	case r >= '0' && r <= '9':
		l.number(glue)
		return true
	case r == '"' || r == '\'':
		l.str(false, glue)
		return true
	}
	for _, o := range ops {
		if strings.HasPrefix(l.s[l.i:], o) {
			l.i += len(o)
			l.add(token{kind: tOp, text: o, line: line, glue: glue})
			return true
		}
	}
	if strings.ContainsRune("(){}[]<>;:,.?!=+-*/%^|&~@#", r) {
		l.i++
		l.add(token{kind: tOp, text: string(r), line: line, glue: glue})
		return true
	}
	fail(l.line, "unexpected character %q", r)
	return false
}

func (l *lexer) number(glue bool) {
	start := l.i
	k := tInt
	digit := func() {
		for l.i < len(l.s) && l.s[l.i] >= '0' && l.s[l.i] <= '9' {
			l.i++
		}
	}
	if l.s[l.i] == '0' && l.i+1 < len(l.s) && (l.s[l.i+1] == 'x' || l.s[l.i+1] == 'X') {
		l.i += 2
		n := l.i
		for l.i < len(l.s) && strings.IndexByte("0123456789abcdefABCDEF", l.s[l.i]) >= 0 {
			l.i++
		}
		if n == l.i {
			fail(l.line, "a hexadecimal number has no digits")
		}
	} else {
		digit()
		if l.i+1 < len(l.s) && l.s[l.i] == '.' && l.s[l.i+1] >= '0' && l.s[l.i+1] <= '9' {
			k = tDouble
			l.i++
			digit()
		}
		if l.i < len(l.s) && (l.s[l.i] == 'e' || l.s[l.i] == 'E') {
			k = tDouble
			l.i++
			if l.i < len(l.s) && (l.s[l.i] == '+' || l.s[l.i] == '-') {
				l.i++
			}
			n := l.i
			digit()
			if n == l.i {
				fail(l.line, "a number has no exponent")
			}
		}
	}
	if l.i < len(l.s) {
		if r, _ := utf8.DecodeRuneInString(l.s[l.i:]); isStart(r) {
			fail(l.line, "a letter follows the number %s", l.s[start:l.i])
		}
	}
	l.add(token{kind: k, text: l.s[start:l.i], line: l.line, glue: glue})
}

func (l *lexer) str(raw, glue bool) {
	line := l.line
	q := l.s[l.i : l.i+1]
	if strings.HasPrefix(l.s[l.i:], strings.Repeat(q, 3)) {
		q = strings.Repeat(q, 3)
	}
	l.i += len(q)
	var ps []part
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			ps = append(ps, part{text: b.String()})
			b.Reset()
		}
	}
	for {
		if l.i >= len(l.s) {
			fail(line, "a string is not closed")
		}
		if strings.HasPrefix(l.s[l.i:], q) {
			l.i += len(q)
			break
		}
		c := l.s[l.i]
		if (c == '\n' || c == '\r') && len(q) == 1 {
			fail(line, "a string is not closed at the end of the line")
		}
		if c == '\n' {
			l.line++
		}
		if raw || c != '\\' && c != '$' {
			b.WriteByte(c)
			l.i++
			continue
		}
		l.i++
		if l.i >= len(l.s) {
			fail(line, "a string is not closed")
		}
		if c == '\\' {
			l.escape(&b)
			continue
		}
		flush()
		if l.s[l.i] == '{' {
			// the tokens up to the matching brace
			sub := &lexer{s: l.s, i: l.i + 1, line: l.line}
			d := 1
			for d > 0 {
				n := len(sub.out)
				if !sub.next() {
					fail(line, "an interpolation is not closed")
				}
				if len(sub.out) > n {
					switch t := sub.out[n]; {
					case t.kind == tOp && t.text == "{":
						d++
					case t.kind == tOp && t.text == "}":
						d--
					}
				}
			}
			ts := sub.out[:len(sub.out)-1]
			l.i, l.line = sub.i, sub.line
			ps = append(ps, part{toks: append(ts[:len(ts):len(ts)], token{kind: tEOF, line: l.line})})
			continue
		}
		n := l.i
		for l.i < len(l.s) {
			r, k := utf8.DecodeRuneInString(l.s[l.i:])
			if !isPart(r) || r == '$' || l.i == n && r >= '0' && r <= '9' {
				break
			}
			l.i += k
		}
		if n == l.i {
			fail(l.line, "'$' in a string is followed by no name")
		}
		ps = append(ps, part{toks: []token{{kind: tIdent, text: l.s[n:l.i], line: l.line}, {kind: tEOF, line: l.line}}})
	}
	flush()
	l.add(token{kind: tString, parts: ps, line: line, glue: glue})
}

func (l *lexer) escape(b *strings.Builder) {
	c := l.s[l.i]
	hex := func(n int) {
		if l.i+n > len(l.s) {
			fail(l.line, "an escape is cut short")
		}
		var v rune
		for _, d := range l.s[l.i : l.i+n] {
			k := strings.IndexRune("0123456789abcdef", unicode.ToLower(d))
			if k < 0 {
				fail(l.line, "an escape has no hexadecimal digits")
			}
			v = v*16 + rune(k)
		}
		l.i += n
		b.WriteRune(v)
	}
	switch c {
	case 'n':
		b.WriteByte('\n')
	case 'r':
		b.WriteByte('\r')
	case 't':
		b.WriteByte('\t')
	case 'b':
		b.WriteByte('\b')
	case 'f':
		b.WriteByte('\f')
	case 'v':
		b.WriteByte('\v')
	case 'x':
		l.i++
		hex(2)
		return
	case 'u':
		l.i++
		if l.i < len(l.s) && l.s[l.i] == '{' {
			j := strings.IndexByte(l.s[l.i:], '}')
			if j < 2 || j > 7 {
				fail(l.line, "an escape is malformed")
			}
			l.i++
			hex(j - 1)
			l.i++
			return
		}
		hex(4)
		return
	default:
		_, n := utf8.DecodeRuneInString(l.s[l.i:])
		b.WriteString(l.s[l.i : l.i+n])
		l.i += n
		return
	}
	l.i++
}

// Code lists the token texts of a source without its comments, for comparing programs; "" and an error text if it does
// not lex.
func Code(src string) (ts []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Error)
			if !ok {
				panic(r)
			}
			err = e
		}
	}()
	var flat func(ts []token) []string
	flat = func(in []token) []string {
		var o []string
		for _, t := range in {
			switch t.kind {
			case tEOF:
			case tString:
				o = append(o, "\"")
				for _, p := range t.parts {
					if p.toks != nil {
						o = append(o, "${")
						o = append(o, flat(p.toks)...)
					} else {
						o = append(o, fmt.Sprintf("%q", p.text))
					}
				}
				o = append(o, "\"")
			default:
				o = append(o, t.text)
			}
		}
		return o
	}
	return flat(lex(src, 1)), nil
}
