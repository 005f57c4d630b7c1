package checks

import (
	"fmt"
	"hv/core"
	"hv/lexref"
	"hv/schema"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// C05: the message of a rejected build names the file and line of the fault.
func init() {
	core.Register(&core.Check{
		ID:    "C05",
		Rule:  "a program with a fault whose place is known by construction: semantic faults by the validity rules, syntax faults by the independent recogniser (the range from the last fitting to the first unfitting token)",
		Quick: 60000, Thorough: 3000000, Batch: 40,
		Gen: func(r *schema.R, idx int) *core.Case {
			c := &core.Case{Prog: genSem(r), Seed: r.U64(), Args: map[string]string{}}
			if r.P(55) {
				for i := 0; i < 5; i++ {
					k := schema.Pick(r, schema.FaultKinds)
					if schema.Inject(r, c.Prog, k) {
						c.Kind = "check"
						return c
					}
				}
			}
			c.Kind = "syntax"
			f := r.Int(len(c.Prog.Files))
			text, _ := c.Prog.Files[f].Render(c.Prog.FileSeed(f))
			if r.P(60) {
				text = spoil(r, text)
			} else {
				text = string(mutateBytes(r, []byte(text)))
			}
			c.Text = []byte(text)
			c.Args["file"] = c.Prog.Files[f].Path
			return c
		},
		Eval1: evalC05,
	})
}

// spoil removes, repeats, replaces or inserts one token in place, keeping the layout.
func spoil(r *schema.R, src string) string {
	ts, _ := lexref.Lex(src)
	var xs []lexref.Tok
	for _, t := range ts {
		if t.Kind != lexref.EOF && t.Kind != lexref.Comment && !t.Auto {
			xs = append(xs, t)
		}
	}
	if len(xs) == 0 {
		return src + " #"
	}
	t := schema.Pick(r, xs)
	junk := schema.Pick(r, []string{"#", "@", "%", "~", "'", "\"open", "`", "/*", "1x", "0x", "08", "=", "?", "<", ">", "{", "}", "(", ")", "[", "]", ",", ":", ";", "data", "import", "name", "7", "\"str\""})
	switch r.Int(4) {
	case 0:
		return src[:t.Start] + src[t.End:]
	case 1:
		return src[:t.Start] + junk + src[t.End:]
	case 2:
		return src[:t.Start] + junk + " " + src[t.Start:]
	default:
		return src[:t.End] + " " + junk + src[t.End:]
	}
}

var located = regexp.MustCompile(`^(.+?):(\d+):(\d+): (?s:.+)`)

func evalC05(c *core.Case) *core.Result {
	p := c.Prog
	res := &core.Result{}
	dir := scratch()
	defer os.RemoveAll(dir)
	src := filepath.Join(dir, "src")
	marks := writeSources(src, p)
	texts := map[string]string{}
	for i, f := range p.Files {
		t, _ := f.Render(p.FileSeed(i))
		texts[filepath.Join(src, filepath.FromSlash(f.Path))] = t
	}
	match := matcher(pattern(p))
	read := p.ReadFiles(match)
	type place struct {
		file     string
		from, to int
	}
	var places []place
	desc := ""
	if c.Kind == "check" {
		for _, f := range p.Validate(read) {
			for _, l := range f.At {
				m, ok := marks[l.File][l.Mark]
				if !ok {
					return &core.Result{Infra: "no mark " + l.Mark}
				}
				places = append(places, place{filepath.Join(src, filepath.FromSlash(p.Files[l.File].Path)), m[0], m[1]})
			}
			desc += f.Kind + " "
			if f.Kind == "dup-decl" { // what the name means elsewhere is open: a complaint about a use of it is as good
				d := 0
				fmt.Sscanf(f.At[0].Mark, "d%d", &d)
				for _, l := range p.Mentions(p.Files[f.At[0].File].Decls[d].Name) {
					m := marks[l.File][l.Mark]
					places = append(places, place{filepath.Join(src, filepath.FromSlash(p.Files[l.File].Path)), m[0], m[1]})
				}
			}
			res.Labels = append(res.Labels, strings.SplitN(f.Kind, ":", 2)[0])
		}
		if len(places) == 0 {
			return res
		}
	} else {
		i := -1
		for k, f := range p.Files {
			if f.Path == c.Args["file"] {
				i = k
			}
		}
		if i < 0 || !read[i] {
			return res
		}
		text := string(c.Text)
		path := filepath.Join(src, filepath.FromSlash(p.Files[i].Path))
		writeFile(path, text)
		texts[path] = text
		v, from, to := lexref.Locate(text)
		if v != lexref.No {
			return res
		}
		line := func(off int) int { return 1 + strings.Count(text[:min(off, len(text))], "\n") }
		places = append(places, place{path, line(from), line(to)})
		desc = fmt.Sprintf("syntax at %q", text[from:max(from, min(to, len(text)))])
		res.Labels = append(res.Labels, "syntax")
	}
	typ := targets[c.Seed%4]
	err, _ := buildQuiet(filepath.Join(dir, "out"), filepath.Join(src, pattern(p)), typ, "m/")
	if err == nil {
		return core.Failf("accepted", "%s: no error for %s", typ, desc)
	}
	msg := err.Error()
	m := located.FindStringSubmatch(msg)
	if m == nil {
		return core.Failf("unlocated", "%s: the message names no place: %q (%s)", typ, msg, desc)
	}
	line, _ := strconv.Atoi(m[2])
	col, _ := strconv.Atoi(m[3])
	text, ok := texts[m[1]]
	if !ok {
		return core.Failf("file", "%s: the message names a file that is not a source: %q (%s)", typ, msg, desc)
	}
	good := false
	for _, q := range places {
		if q.file == m[1] && line >= q.from && line <= q.to {
			good = true
		}
	}
	if !good {
		s := ""
		for _, q := range places {
			s += fmt.Sprintf(" %s:%d-%d", strings.TrimPrefix(q.file, dir), q.from, q.to)
		}
		return core.Failf("place", "%s: message %q; the fault (%s) is at%s", typ, strings.TrimPrefix(msg, dir), desc, s)
	}
	lines := strings.Split(text, "\n")
	if line > len(lines) || col < 1 || col > len(lines[line-1])+2 { // the end of the text counts as part of its last line
		return core.Failf("column", "%s: message %q names a column outside its line", typ, msg)
	}
	if c.Kind == "check" {
		for _, l := range errList(err) {
			if l.Pos.Filename != m[1] || l.Pos.Line != line || l.Pos.Column != col {
				return core.Failf("message", "message %q but position %+v", msg, l.Pos)
			}
		}
	}
	if len(p.Files) > 1 {
		res.Labels = append(res.Labels, "many-files")
	}
	if strings.Contains(text, "\r") {
		res.Labels = append(res.Labels, "crlf")
	}
	res.NonTrivial = true
	res.Sample = fmt.Sprintf("%s -> %s", desc, strings.TrimPrefix(msg, src))
	return res
}
