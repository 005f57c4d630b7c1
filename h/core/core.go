// Package core is the check runner: generation, isolated evaluation, shrinking, replay files, evidence.
package core

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hv/schema"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Case is one generated input; everything a check needs to evaluate it again.
type Case struct {
	Prop  string            `json:"property"`
	Kind  string            `json:"kind,omitempty"`
	Prog  *schema.Program   `json:"prog,omitempty"`
	Text  []byte            `json:"text,omitempty"` // raw bytes (base64 in files)
	Ops   []Op              `json:"ops,omitempty"`
	Seed  uint64            `json:"seed,omitempty"` // seed for value generation inside the evaluation
	Args  map[string]string `json:"args,omitempty"`
	Index int               `json:"index"`
}

// Op is one step of a history.
type Op struct {
	Op   string            `json:"op"`
	Args map[string]string `json:"args,omitempty"`
	J    json.RawMessage   `json:"j,omitempty"`
}

func (c *Case) Clone() *Case {
	d := *c
	if c.Prog != nil {
		d.Prog = c.Prog.Clone()
	}
	d.Text = append([]byte(nil), c.Text...)
	d.Ops = append([]Op(nil), c.Ops...)
	if c.Args != nil {
		d.Args = map[string]string{}
		for k, v := range c.Args {
			d.Args[k] = v
		}
	}
	return &d
}

// Result of one case.
type Result struct {
	Fail       bool     `json:"fail,omitempty"`
	Sig        string   `json:"sig,omitempty"` // failure class, kept while shrinking
	Msg        string   `json:"msg,omitempty"`
	NonTrivial bool     `json:"nt,omitempty"`
	Labels     []string `json:"labels,omitempty"`
	Evals      int      `json:"evals,omitempty"` // sub-evaluations (values, calls) inside the case
	Sample     string   `json:"sample,omitempty"`
	Infra      string   `json:"infra,omitempty"` // the harness itself failed (never a violation)
}

func Failf(sig, f string, a ...any) *Result {
	return &Result{Fail: true, Sig: sig, Msg: fmt.Sprintf(f, a...)}
}

// Check is one property's decision procedure.
type Check struct {
	ID    string
	Rule  string
	Level string
	// Quick and Thorough are numbers of generated cases.
	Quick, Thorough int
	Batch           int // cases evaluated per worker request
	Workers         int
	Timeout         time.Duration // per batch
	Gen             func(r *schema.R, idx int) *Case
	Eval            func(cs []*Case) []*Result // batch evaluation, or
	Eval1           func(c *Case) *Result      // one at a time
	// Shrinks proposes smaller cases, most aggressive first; nil uses the generic one.
	Shrinks        func(c *Case) []*Case
	MaxShrinkBatch int
	Assumptions    []string
	// CrashIsViolation: crash or hang of the code under test breaks this property (always true for build-based checks).
	Probes func() []*Case // fixed cases always run first
	Setup  func() error   // preparation in the runner process, before any worker starts
}

var Checks = map[string]*Check{}

// Commands are helper processes of the checks (hv <name> args).
var Commands = map[string]func(args []string) int{}

func Register(c *Check) {
	if c.Batch == 0 {
		c.Batch = 1
	}
	if c.Timeout == 0 {
		c.Timeout = 60 * time.Second
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	Checks[c.ID] = c
}

// ---- worker side

type req struct {
	Cases []*Case `json:"cases"`
}

// msg is one line from a worker: a result for case I, or (R nil) the news that case I is being worked on (-1: all of them).
type msg struct {
	I int     `json:"i"`
	R *Result `json:"r,omitempty"`
}

var replies *os.File

func send(m msg) {
	b, err := json.Marshal(m)
	if err != nil {
		fmt.Fprintln(os.Stderr, "worker: bad reply", err)
		os.Exit(3)
	}
	if _, err := replies.Write(append(b, '\n')); err != nil {
		os.Exit(0)
	}
}

// Progress tells the runner which case of a batch is being worked on, so that a crash or hang is attributed to it.
func Progress(i int) {
	if replies != nil {
		send(msg{I: i})
	}
}

// Worker serves requests on stdin; replies go to fd 3 so that prints of the code under test cannot interfere.
func Worker(id string) {
	debug.SetMaxStack(256 << 20)
	ck := Checks[id]
	replies = os.NewFile(3, "reply")
	go func() { // hard memory limit: run-away allocation in the code under test is a crash
		var m [1]metrics.Sample
		m[0].Name = "/memory/classes/heap/objects:bytes"
		for {
			time.Sleep(100 * time.Millisecond)
			metrics.Read(m[:])
			if m[0].Value.Uint64() > 3<<30 {
				fmt.Fprintln(os.Stderr, "fatal error: more than 3 GB of memory in use")
				os.Exit(4)
			}
		}
	}()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q req
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, "worker: bad request", err)
			os.Exit(3)
		}
		if ck.Eval1 != nil {
			for i, c := range q.Cases {
				Progress(i)
				r := Guard("panic", func() *Result { return ck.Eval1(c) })
				if r == nil {
					r = &Result{}
				}
				send(msg{i, r})
			}
			continue
		}
		for i, r := range ck.Eval(q.Cases) {
			if r == nil {
				r = &Result{}
			}
			send(msg{i, r})
		}
	}
}

// Guard runs f and turns a panic into a failing result.
func Guard(sig string, f func() *Result) (res *Result) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if t := trimStack(st); t == "" {
				res = &Result{Infra: fmt.Sprintf("panic in the checker: %v\n%s", e, st)}
			} else {
				res = Failf(sig, "panic: %v\n%s", e, t)
			}
		}
	}()
	return f()
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "hv/") {
			continue
		}
		if strings.Contains(l, "/repo/") || strings.Contains(l, "hbuf/pkg") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// ---- parent side

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 8000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func startWorker(id string) (*worker, error) {
	exe, err := os.Executable()
	if err != nil {
		return nil, err
	}
	cmd := exec.Command(exe, "worker", id)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{pw}
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = nil
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	pw.Close()
	return &worker{cmd: cmd, in: in, out: bufio.NewReaderSize(pr, 1<<20), errb: t}, nil
}

func (w *worker) kill() {
	if w == nil {
		return
	}
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	_ = w.cmd.Wait()
}

type death struct {
	timeout bool
	at      int // the case being worked on, or -1
	stderr  string
}

func (w *worker) ask(cs []*Case, to time.Duration) ([]*Result, *death) {
	b, err := json.Marshal(req{cs})
	if err != nil {
		panic(err)
	}
	b = append(b, '\n')
	ch := make(chan *msg, 64)
	go func() {
		defer close(ch)
		if _, err := w.in.Write(b); err != nil {
			return
		}
		for n := 0; n < len(cs); {
			line, err := w.out.ReadBytes('\n')
			if err != nil {
				return
			}
			var m msg
			if err := json.Unmarshal(line, &m); err != nil {
				return
			}
			if m.R != nil {
				n++
			}
			ch <- &m
		}
	}()
	rs := make([]*Result, len(cs))
	n, at := 0, -1
	tm := time.NewTimer(to)
	defer tm.Stop()
	for {
		select {
		case m, ok := <-ch:
			if !ok {
				if n == len(cs) {
					return rs, nil
				}
				time.Sleep(50 * time.Millisecond)
				w.kill()
				return rs, &death{at: at, stderr: w.errb.String()}
			}
			if m.R != nil {
				rs[m.I] = m.R
				n++
			} else {
				at = m.I
			}
			if !tm.Stop() {
				select {
				case <-tm.C:
				default:
				}
			}
			tm.Reset(to)
		case <-tm.C:
			w.kill()
			go func() {
				for range ch {
				}
			}()
			return rs, &death{timeout: true, at: at, stderr: w.errb.String()}
		}
	}
}

// Pool evaluates batches in isolated workers.
type Pool struct {
	ck   *Check
	off  atomic.Bool  // stop: answer nothing more
	end  atomic.Int64 // no new work after this moment (unix ms), 0 = never
	mu   sync.Mutex
	idle []*worker
}

func NewPool(ck *Check) *Pool { return &Pool{ck: ck} }

func (p *Pool) get() *worker {
	p.mu.Lock()
	if n := len(p.idle); n > 0 {
		w := p.idle[n-1]
		p.idle = p.idle[:n-1]
		p.mu.Unlock()
		return w
	}
	p.mu.Unlock()
	for i := 0; ; i++ {
		w, err := startWorker(p.ck.ID)
		if err == nil {
			return w
		}
		if i > 5 {
			fmt.Println("cannot start worker:", err)
			os.Exit(2)
		}
		time.Sleep(time.Second)
	}
}
func (p *Pool) put(w *worker) {
	p.mu.Lock()
	p.idle = append(p.idle, w)
	p.mu.Unlock()
}
func (p *Pool) Close() {
	p.mu.Lock()
	for _, w := range p.idle {
		w.kill()
	}
	p.idle = nil
	p.mu.Unlock()
}

// Eval evaluates the batch; a case that kills or hangs its worker is evaluated again alone before it is believed.
func (p *Pool) Eval(cs []*Case) []*Result {
	if p.closed() {
		return make([]*Result, len(cs))
	}
	w := p.get()
	rs, d := w.ask(cs, p.ck.Timeout)
	if d == nil {
		p.put(w)
		return rs
	}
	if len(cs) == 1 {
		return []*Result{p.alone(cs[0])}
	}
	var todo []int
	for i := range cs {
		if rs[i] != nil {
			continue
		}
		if i == d.at {
			rs[i] = p.alone(cs[i])
			continue
		}
		todo = append(todo, i)
	}
	if d.at < 0 && len(todo) == len(cs) { // unknown culprit: halve
		h := len(cs) / 2
		return append(p.Eval(cs[:h]), p.Eval(cs[h:])...)
	}
	if len(todo) > 0 {
		var sub []*Case
		for _, i := range todo {
			sub = append(sub, cs[i])
		}
		for k, r := range p.Eval(sub) {
			rs[todo[k]] = r
		}
	}
	return rs
}

func (p *Pool) closed() bool {
	e := p.end.Load()
	return p.off.Load() || e != 0 && time.Now().UnixMilli() > e
}

func (p *Pool) alone(c *Case) *Result {
	if p.closed() {
		return nil
	}
	w := p.get0()
	rs, d := w.ask([]*Case{c}, 2*p.ck.Timeout)
	if d == nil {
		p.put(w)
		return rs[0]
	}
	if d.timeout {
		return Failf("hang", "no answer within %v, twice (the second time alone)", 2*p.ck.Timeout)
	}
	if strings.Contains(d.stderr, "worker:") {
		return &Result{Infra: d.stderr}
	}
	if !strings.Contains(d.stderr, "goroutine stack exceeds") && !strings.Contains(d.stderr, "panic:") && !strings.Contains(d.stderr, "fatal error:") {
		return &Result{Infra: "worker died: " + d.stderr}
	}
	return Failf("crash", "process died: %s", head(d.stderr, 1500))
}

func (p *Pool) get0() *worker {
	w, err := startWorker(p.ck.ID)
	if err != nil {
		fmt.Println("cannot start worker:", err)
		os.Exit(2)
	}
	return w
}

// Head is the beginning of a text.
func Head(s string, n int) string { return head(s, n) }

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// ---- known findings

type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	Sig      string `json:"sig,omitempty"`
	Case     *Case  `json:"case,omitempty"`
}

func VerifDir() string {
	if d := os.Getenv("HV_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func LoadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(VerifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println("known_findings.json:", err)
		os.Exit(2)
	}
	return f.Findings
}

// ---- main loop

func key(c *Case) string {
	d := *c
	d.Index = 0
	b, _ := json.Marshal(&d)
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:8])
}

func Run(id, tier string, seed uint64) int {
	ck := Checks[id]
	if ck == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	start := time.Now()
	n := ck.Quick
	budget := 400 * time.Second
	if tier == "thorough" {
		n = ck.Thorough
		budget = 3 * time.Hour
	}
	if v := os.Getenv("HV_CASES"); v != "" {
		if k, err := strconv.Atoi(v); err == nil {
			n = k
		}
	}
	if ck.Setup != nil {
		if err := ck.Setup(); err != nil {
			fmt.Println("setup:", err)
			return 2
		}
	}
	pool := NewPool(ck)
	defer pool.Close()
	nw := ck.Workers
	if nw == 0 {
		nw = runtime.NumCPU()
	}
	type failure struct {
		c *Case
		r *Result
	}
	var (
		mu       sync.Mutex
		fails    []failure
		distinct = map[string]bool{}
		evals    int
		subs     int
		labels   = map[string]int{}
		samples  []string
		infra    []string
		stop     bool
	)
	consume := func(cs []*Case, rs []*Result) {
		mu.Lock()
		defer mu.Unlock()
		for i, r := range rs {
			evals++
			if r == nil { // not evaluated: the run is being stopped
				evals--
				continue
			}
			if r.Infra != "" {
				infra = append(infra, r.Infra)
				continue
			}
			subs += r.Evals
			for _, l := range r.Labels {
				labels[l]++
			}
			if r.NonTrivial {
				k := key(cs[i])
				if !distinct[k] {
					distinct[k] = true
					if len(samples) < 3 && r.Sample != "" {
						samples = append(samples, head(r.Sample, 1200))
					}
				}
			}
			if r.Fail {
				fails = append(fails, failure{cs[i], r})
				if len(fails) >= 3 {
					stop = true
					pool.off.Store(true)
				}
			}
		}
	}
	jobs := make(chan []*Case, nw)
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for cs := range jobs {
				mu.Lock()
				s := stop
				mu.Unlock()
				if s {
					continue
				}
				consume(cs, pool.Eval(cs))
			}
		}()
	}
	truncated := false
	if ck.Probes != nil {
		var b []*Case
		for i, c := range ck.Probes() {
			c.Prop, c.Index = id, -1-i
			b = append(b, c)
			if len(b) == ck.Batch {
				jobs <- b
				b = nil
			}
		}
		if len(b) > 0 {
			jobs <- b
		}
	}
	for i := 0; i < n; {
		mu.Lock()
		s := stop
		mu.Unlock()
		if s {
			break
		}
		if time.Since(start) > budget {
			truncated = true
			break
		}
		var b []*Case
		for ; i < n && len(b) < ck.Batch; i++ {
			c := ck.Gen(schema.NewR(seed, id, i), i)
			c.Prop, c.Index = id, i
			b = append(b, c)
		}
		jobs <- b
	}
	close(jobs)
	wg.Wait()
	pool.off.Store(false)

	// known findings: each probe must still fail the listed way; anything else is reported as usual
	for _, k := range LoadKnown() {
		if len(fails) >= 3 {
			break
		}
		if k.Property != id || k.Status != "known" || k.Case == nil {
			continue
		}
		k.Case.Prop = id
		r := pool.Eval([]*Case{k.Case})[0]
		evals++
		if r != nil && r.Infra != "" {
			infra = append(infra, r.Infra)
		} else if r != nil && r.Fail && r.Sig == k.Sig {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", id, k.ID, k.What)
		} else if r != nil && r.Fail {
			fails = append(fails, failure{k.Case, r})
		}
	}

	code := 0
	viol := 0
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return fails[i].c.Index < fails[j].c.Index })
		seen := map[string]bool{}
		for _, f := range fails {
			if seen[f.r.Sig] {
				continue
			}
			seen[f.r.Sig] = true
			c, r := Shrink(pool, f.c, f.r, 60*time.Second)
			path := WriteReplay(c, r)
			fmt.Printf("--- %s: %s\n%s\n", id, r.Sig, head(r.Msg, 3000))
			if c.Prog != nil {
				fmt.Println(head(c.Prog.Text(), 3000))
			} else if len(c.Text) > 0 {
				fmt.Printf("input: %q\n", head(string(c.Text), 1000))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			viol++
			code = 1
		}
	}
	if len(infra) > 0 {
		fmt.Printf("%d cases could not be evaluated: %s\n", len(infra), head(infra[0], 2000))
		if code == 0 && (len(infra) > 2 && len(infra)*20 > evals || evals == len(infra)) {
			code = 2
		}
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(distinct),
		"rule":                ck.Rule,
		"samples":             samples,
		"classes":             labels,
		"not_evaluated":       len(infra),
	}
	if subs > 0 {
		cov["inner_evaluations"] = subs
	}
	if truncated {
		cov["stopped_early"] = "time budget"
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": viol, "assumptions": ck.Assumptions,
	}
	if ck.Assumptions == nil {
		delete(ev, "assumptions")
	}
	if os.Getenv("HV_NOEVIDENCE") == "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(VerifDir(), "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(VerifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Println("evidence:", err)
			if code == 0 {
				code = 2
			}
		}
	}
	fmt.Printf("%s %s: %d cases (%d inner), %d distinct non-trivial, %d violations, %.1fs %s\n", id, tier, evals, subs, len(distinct), viol, time.Since(start).Seconds(), labelText(labels))
	return code
}

func labelText(m map[string]int) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b bytes.Buffer
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d ", k, m[k])
	}
	return b.String()
}

func WriteReplay(c *Case, r *Result) string {
	dir := filepath.Join(VerifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%s.json", c.Prop, strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, r.Sig), key(c)))
	b, _ := json.MarshalIndent(map[string]any{"case": c, "result": r}, "", " ")
	_ = os.WriteFile(p, b, 0o644)
	return p
}

func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Case *Case `json:"case"`
	}
	if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
		fmt.Println("bad replay file", err)
		return 2
	}
	ck := Checks[f.Case.Prop]
	if ck == nil {
		fmt.Println("unknown property", f.Case.Prop)
		return 2
	}
	if ck.Setup != nil {
		if err := ck.Setup(); err != nil {
			fmt.Println("setup:", err)
			return 2
		}
	}
	pool := NewPool(ck)
	defer pool.Close()
	r := pool.Eval([]*Case{f.Case})[0]
	if f.Case.Prog != nil {
		fmt.Println(f.Case.Prog.Text())
	} else {
		fmt.Printf("input: %q\n", f.Case.Text)
	}
	if r == nil || (!r.Fail && r.Infra == "") {
		fmt.Println("holds")
		return 0
	}
	if r.Infra != "" {
		fmt.Println("not evaluated:", r.Infra)
		return 2
	}
	fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", r.Sig, r.Msg, f.Case.Prop, path)
	return 1
}

// Show prints a generated case.
func Show(id string, seed uint64, idx int) {
	c := Checks[id].Gen(schema.NewR(seed, id, idx), idx)
	if c.Prog != nil {
		fmt.Println(c.Prog.Text())
	}
	if len(c.Text) > 0 {
		fmt.Printf("%q\n", c.Text)
	}
	b, _ := json.MarshalIndent(map[string]any{"kind": c.Kind, "args": c.Args, "ops": c.Ops}, "", " ")
	fmt.Println(string(b))
}
