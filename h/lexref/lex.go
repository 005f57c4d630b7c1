// Package lexref is an independent lexer and recogniser for the schema language, written from its description:
// blanks, // and /* */ comments, identifiers, integer numbers, strings, a dozen operators, and a statement end inserted at
// a line break after an identifier, number, string or closing bracket.
package lexref

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

type Kind string

const (
	Ident   Kind = "IDENT"
	Int     Kind = "INT"
	Str     Kind = "STRING"
	Comment Kind = "COMMENT"
	Semi    Kind = ";"
	EOF     Kind = "EOF"
	Illegal Kind = "ILLEGAL"
)

type Tok struct {
	Kind  Kind
	Text  string
	Start int
	End   int
	Auto  bool // inserted semicolon
}

type LexErr struct{ At, End int }

var keywords = map[string]bool{"import": true, "package": true, "data": true, "server": true, "enum": true}

const ops = ",:;()[]{}<>=?"

func isLetter(c rune) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c >= 0x80 && unicode.IsLetter(c)
}
func isDigit(c rune) bool { return c >= '0' && c <= '9' || c >= 0x80 && unicode.IsDigit(c) }

// ends says whether a token lets a line break end the statement.
func ends(k Kind) bool {
	switch k {
	case Ident, Int, Str, ")", "]", "}", ">":
		return true
	}
	return false
}

// Lex splits the text. Inserted semicolons are placed at the newline (or at the comment that hides it, or at the end).
func Lex(src string) (toks []Tok, errs []LexErr) {
	i := 0
	if strings.HasPrefix(src, "\xef\xbb\xbf") {
		i = 3
	}
	// characters that are wrong wherever they occur
	for k := 0; k < len(src); {
		c, w := utf8.DecodeRuneInString(src[k:])
		if c == 0 || c == utf8.RuneError && w == 1 || c == 0xFEFF && k > 0 {
			errs = append(errs, LexErr{k, k + w})
		}
		k += w
	}
	end := false // the previous token ends a statement
	add := func(k Kind, a, b int) {
		toks = append(toks, Tok{Kind: k, Text: src[a:b], Start: a, End: b})
		end = ends(k)
	}
	for {
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r' || src[i] == '\n' && !end) {
			i++
		}
		if i >= len(src) {
			if end {
				toks = append(toks, Tok{Semi, "\n", i, i, true})
			}
			toks = append(toks, Tok{EOF, "", i, i, false})
			return
		}
		c, w := utf8.DecodeRuneInString(src[i:])
		switch {
		case c == '\n':
			toks = append(toks, Tok{Semi, "\n", i, i + 1, true})
			end = false
			i++
		case isLetter(c):
			j := i
			for j < len(src) {
				d, dw := utf8.DecodeRuneInString(src[j:])
				if !isLetter(d) && !isDigit(d) {
					break
				}
				j += dw
			}
			if keywords[src[i:j]] {
				add(Kind(src[i:j]), i, j)
			} else {
				add(Ident, i, j)
			}
			i = j
		case c >= '0' && c <= '9':
			j, bad := number(src, i)
			if bad {
				errs = append(errs, LexErr{i, j})
			}
			add(Int, i, j)
			i = j
		case c == '"':
			j := i + 1
			bad := false
			for {
				if j >= len(src) || src[j] == '\n' {
					bad = true
					break
				}
				if src[j] == '"' {
					j++
					break
				}
				if src[j] == '\\' {
					n, ok := escape(src, j)
					if !ok {
						bad = true
					}
					j = n
					continue
				}
				j++
			}
			if bad {
				errs = append(errs, LexErr{i, j})
			}
			add(Str, i, j)
			i = j
		case c == '`':
			k := strings.IndexByte(src[i+1:], '`')
			j := i + 1 + k + 1
			if k < 0 {
				j = len(src)
				errs = append(errs, LexErr{i, j})
			}
			add(Str, i, j)
			i = j
		case c == '/' && i+1 < len(src) && (src[i+1] == '/' || src[i+1] == '*'):
			if end && breakAhead(src, i) {
				toks = append(toks, Tok{Semi, "\n", i, i, true})
				end = false
				continue
			}
			j, bad := comment(src, i)
			if bad {
				errs = append(errs, LexErr{i, j})
			}
			toks = append(toks, Tok{Kind: Comment, Text: src[i:j], Start: i, End: j})
			end = false
			i = j
		case strings.ContainsRune(ops, c) && c < 0x80:
			k := Kind(string(c))
			add(k, i, i+1)
			i++
		case c == '/':
			// a lone slash is no token of the language
			errs = append(errs, LexErr{i, i + 1})
			toks = append(toks, Tok{Kind: Illegal, Text: "/", Start: i, End: i + 1})
			end = false
			i++
		default:
			errs = append(errs, LexErr{i, i + w})
			e := end
			toks = append(toks, Tok{Kind: Illegal, Text: src[i : i+w], Start: i, End: i + w})
			end = e
			i += w
		}
	}
}

// comment gives the end of the comment at i.
func comment(src string, i int) (int, bool) {
	if src[i+1] == '/' {
		k := strings.IndexByte(src[i:], '\n')
		j := len(src)
		if k >= 0 {
			j = i + k
		}
		return j, false
	}
	k := strings.Index(src[i+2:], "*/")
	if k < 0 {
		return len(src), true
	}
	return i + 2 + k + 2, false
}

// breakAhead: only comments and blanks up to a line break or the end of the text.
func breakAhead(src string, i int) bool {
	for {
		if src[i+1] == '/' {
			return true
		}
		j, bad := comment(src, i)
		if bad || strings.Contains(src[i:j], "\n") {
			return true
		}
		i = j
		for i < len(src) && (src[i] == ' ' || src[i] == '\t' || src[i] == '\r') {
			i++
		}
		if i >= len(src) || src[i] == '\n' {
			return true
		}
		if !(src[i] == '/' && i+1 < len(src) && (src[i+1] == '/' || src[i+1] == '*')) {
			return false
		}
	}
}

func number(src string, i int) (int, bool) {
	j := i
	get := func(k int) byte {
		if k < len(src) {
			return src[k]
		}
		return 0
	}
	low := func(b byte) byte { return b | 0x20 }
	base := 10
	if get(j) == '0' {
		switch low(get(j + 1)) {
		case 'x':
			base = 16
		case 'o':
			base = 8
		case 'b':
			base = 2
		default:
			base = 8
		}
		if base == 16 || base == 2 || base == 8 && low(get(j+1)) == 'o' {
			j += 2
		} else {
			base = 80 // leading zero
			j++
		}
	}
	st := j
	bad := false
	for j < len(src) {
		b := src[j]
		if b == '_' || b >= '0' && b <= '9' || base == 16 && low(b) >= 'a' && low(b) <= 'f' {
			j++
			continue
		}
		break
	}
	ds := src[st:j]
	if strings.Trim(ds, "_") == "" && base != 80 && base != 10 {
		bad = true
	}
	limit := byte('9')
	switch base {
	case 2:
		limit = '1'
	case 8, 80:
		limit = '7'
	}
	prev := byte('_')
	if base != 10 {
		prev = '0' // the prefix counts as a digit
	}
	for k := 0; k < len(ds); k++ {
		b := ds[k]
		if b == '_' && prev == '_' {
			bad = true
		}
		if b >= '0' && b <= '9' && b > limit {
			bad = true
		}
		prev = b
	}
	if len(ds) > 0 && ds[len(ds)-1] == '_' {
		bad = true
	}
	return j, bad
}

// escape handles the escape starting at the backslash; on error it ends at the offending character.
func escape(src string, i int) (int, bool) {
	j := i + 1
	if j >= len(src) {
		return j, false
	}
	n, base, max := 0, 16, 0x10FFFF
	switch src[j] {
	case 'a', 'b', 'f', 'n', 'r', 't', 'v', '\\', '"':
		return j + 1, true
	case '0', '1', '2', '3', '4', '5', '6', '7':
		n, base, max = 3, 8, 255
	case 'x':
		n, max = 2, 255
		j++
	case 'u':
		n = 4
		j++
	case 'U':
		n = 8
		j++
	default:
		return j, false
	}
	v := 0
	for ; n > 0; n-- {
		if j >= len(src) {
			return j, false
		}
		d := strings.IndexByte("0123456789abcdef", src[j]|0x20)
		if src[j] >= '0' && src[j] <= '9' {
			d = int(src[j] - '0')
		} else if src[j] < 'A' {
			d = -1
		}
		if d < 0 || d >= base {
			return j, false
		}
		v = v*base + d
		if v > 1<<40 {
			v = 1 << 40
		}
		j++
	}
	if v > max || v >= 0xD800 && v < 0xE000 {
		return j, false
	}
	return j, true
}
