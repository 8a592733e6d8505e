// vrun runs the monitors of one property against the library under test.
//
// The parent process starts itself as a child, in which the workload runs, and
// turns what becomes of the child (violations it recorded, a race report, a
// fatal error of the Go runtime, a hang, runaway memory) into the verdict.
package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/gen"
)

// Check is the monitor and workload of one property
type Check struct {
	Run     func(c *C)
	Rule    string // how cases are made and what makes one non-trivial
	Workers int    // 0: all cores
	Note    string
}

var checks = map[string]*Check{}

// Failure is one observed violation
type Failure struct {
	Section string   `json:"section"`
	Case    int      `json:"case"`
	Msg     string   `json:"message"`
	Inputs  []string `json:"inputs,omitempty"`
}

const shards = 64

// C is the context of a run
type C struct {
	nfail    int64 // atomic, first: 64-bit alignment on 32-bit platforms
	evals    int64
	ID       string
	Seed     uint64
	Thorough bool
	Smoke    bool
	Workers  int
	Only     string // section/case to replay
	mu       sync.Mutex
	fails    []Failure
	known    map[string]string
	set      [shards]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	cmu      sync.Mutex
	counts   map[string]int64
	samples  []string
	slots    []slot
	exhaust  []string
	knownIDs map[string]string
	begin    time.Time
	short    int32 // stopped at the time limit
}

type slot struct {
	mu    sync.Mutex
	start time.Time
	desc  string
	in    []byte
}

// T is one case
type T struct {
	*C
	R       *gen.R
	I       int
	section string
	sl      *slot
	failed  bool
	local   map[string]int64
	ev      int64
}

// Scale picks the quick or the thorough amount
func (c *C) Scale(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	if c.Smoke && quick > 1 { // tools/muttest.py: a first, cheap pass
		return (quick + 7) / 8
	}
	return quick
}

// enough has been seen: there are violations and going on takes long, or the run would not end in time
// (slow machine or slow code under test; what has been explored then counts, the evidence says so)
func (c *C) enough() bool {
	if c.Thorough {
		return false
	}
	lim := quickLimit
	if c.Smoke {
		lim = smokeLimit
	}
	d := time.Since(c.begin)
	if d > lim {
		atomic.StoreInt32(&c.short, 1)
		return true
	}
	return atomic.LoadInt64(&c.nfail) > 0 && d > violationLimit
}

const (
	quickLimit     = 420 * time.Second
	smokeLimit     = 200 * time.Second
	violationLimit = 100 * time.Second
)

type stopCase struct{}

// Each runs n cases of a section on all workers. A case that fails or panics
// is recorded; the section goes on with the next case.
func (c *C) Each(section string, n int, f func(t *T)) {
	c.EachN(section, n, c.Workers, f)
}

// EachN with a number of workers
func (c *C) EachN(section string, n, workers int, f func(t *T)) {
	var only = -1
	if c.Only != "" {
		i := strings.LastIndexByte(c.Only, ':')
		if i < 0 || c.Only[:i] != section {
			return
		}
		fmt.Sscan(c.Only[i+1:], &only)
	}
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		sl := &c.slots[w]
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &T{C: c, section: section, sl: sl, local: map[string]int64{}}
			defer func() {
				atomic.AddInt64(&c.evals, t.ev)
				c.cmu.Lock()
				for k, v := range t.local {
					c.counts[k] += v
				}
				c.cmu.Unlock()
			}()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || atomic.LoadInt64(&c.nfail) > 40 || c.enough() {
					return
				}
				if only >= 0 && i != only {
					continue
				}
				t.I, t.failed = i, false
				t.R = gen.NewS(c.Seed, c.ID+"/"+section, uint64(i))
				sl.mu.Lock()
				sl.start, sl.desc, sl.in = time.Now(), fmt.Sprintf("%s:%d", section, i), nil
				sl.mu.Unlock()
				t.run(f)
				sl.mu.Lock()
				sl.start = time.Time{}
				sl.mu.Unlock()
			}
		}()
	}
	wg.Wait()
}

func (t *T) run(f func(t *T)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopCase); ok {
				return
			}
			st := string(debug.Stack())
			if !strings.Contains(afterPanic(st), "vlapi") {
				panic(r) // a bug of the harness: no verdict
			}
			t.Failf("the library panicked: %v\n%s", r, st)
		}
	}()
	f(t)
}

// afterPanic is the part of a stack above the harness frame that caught the panic
func afterPanic(st string) string {
	if i := strings.Index(st, "panic("); i >= 0 {
		st = st[i:]
	}
	// the first frames after panic() are where it happened: library code counts
	lines := strings.Split(st, "\n")
	if len(lines) > 12 {
		lines = lines[:12]
	}
	return strings.Join(lines, "\n")
}

// Input notes the bytes the case is working on, for the watchdog and reports
func (t *T) Input(b []byte) {
	t.sl.mu.Lock()
	t.sl.in = b
	t.sl.mu.Unlock()
}

// Step restarts the watchdog within a long case
func (t *T) Step() {
	t.sl.mu.Lock()
	t.sl.start = time.Now()
	t.sl.mu.Unlock()
}

// Failf records a violation
func (t *T) Failf(format string, a ...interface{}) {
	t.failed = true
	atomic.AddInt64(&t.nfail, 1)
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.fails) < 20 {
		f := Failure{Section: t.section, Case: t.I, Msg: fmt.Sprintf(format, a...)}
		if t.sl.in != nil {
			in := t.sl.in
			if len(in) > 4096 {
				in = in[:4096]
			}
			f.Inputs = append(f.Inputs, hex.EncodeToString(in))
		}
		t.fails = append(t.fails, f)
	}
}

// Fatalf records a violation and ends the case
func (t *T) Fatalf(format string, a ...interface{}) {
	t.Failf(format, a...)
	panic(stopCase{})
}

// KnownFinding is reported, not failed, if the committed file lists its key
func (t *T) KnownFinding(key, format string, a ...interface{}) {
	if _, ok := t.knownIDs[key]; !ok {
		t.Failf(format, a...)
		return
	}
	t.mu.Lock()
	t.known[key] = t.knownIDs[key]
	t.mu.Unlock()
}

// Eval counts one decision of the oracle
func (t *T) Eval() { t.ev++ }

// EvalN counts n decisions
func (t *T) EvalN(n int) { t.ev += int64(n) }

// Count an observed event
func (t *T) Count(k string) { t.local[k]++ }

// CountN events
func (t *T) CountN(k string, n int) { t.local[k] += int64(n) }

// Distinct notes a non-trivial case by its content
func (t *T) Distinct(parts ...interface{}) {
	h := uint64(14695981039346656037)
	mix := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			for i := 0; i < len(x); i++ {
				mix(x[i])
			}
		case []byte:
			for _, b := range x {
				mix(b)
			}
		case byte:
			mix(x)
		case int:
			for k := uint(0); k < 64; k += 8 {
				mix(byte(uint64(x) >> k))
			}
		case uint64:
			for k := uint(0); k < 64; k += 8 {
				mix(byte(x >> k))
			}
		case uint32:
			for k := uint(0); k < 32; k += 8 {
				mix(byte(x >> k))
			}
		default:
			s := fmt.Sprint(p)
			for i := 0; i < len(s); i++ {
				mix(s[i])
			}
		}
		mix(0xfe)
	}
	s := &t.set[h%shards]
	s.Lock()
	if s.m == nil {
		s.m = map[uint64]struct{}{}
	}
	if len(s.m) < 1<<19 {
		s.m[h] = struct{}{}
	}
	s.Unlock()
}

// Sample keeps a few cases written out
func (t *T) Sample(format string, a ...interface{}) {
	t.cmu.Lock()
	if len(t.samples) < 12 {
		t.samples = append(t.samples, fmt.Sprintf(format, a...))
	}
	t.cmu.Unlock()
}

// Exhausted notes a space that was enumerated completely
func (c *C) Exhausted(s string) {
	c.cmu.Lock()
	c.exhaust = append(c.exhaust, s)
	c.cmu.Unlock()
}

type outcome struct {
	started  bool
	Done     bool
	Fails    []Failure
	NFail    int64
	Known    map[string]string
	Evals    int64
	Distinct int64
	Counts   map[string]int64
	Samples  []string
	Exhaust  []string
}

func (c *C) outcome(done bool) *outcome {
	o := &outcome{Done: done, Known: c.known, Evals: atomic.LoadInt64(&c.evals), Counts: map[string]int64{}}
	c.mu.Lock()
	o.Fails, o.NFail = append([]Failure(nil), c.fails...), c.nfail
	c.mu.Unlock()
	for i := range c.set {
		c.set[i].Lock()
		o.Distinct += int64(len(c.set[i].m))
		c.set[i].Unlock()
	}
	c.cmu.Lock()
	for k, v := range c.counts {
		o.Counts[k] = v
	}
	o.Samples, o.Exhaust = c.samples, c.exhaust
	if atomic.LoadInt32(&c.short) != 0 {
		o.Exhaust = nil
		o.Counts["stopped at the time limit"] = 1
	}
	c.cmu.Unlock()
	return o
}

func writeOutcome(path string, o *outcome) {
	b, err := json.Marshal(o)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "vrun: cannot write outcome:", err)
		os.Exit(70)
	}
}

const caseLimit = 150 * time.Second
const heapLimit = 12 << 30

// watchdog turns a hang or runaway memory of a single library call into a violation
func (c *C) watchdog(out string) {
	stop := func(msg string) {
		var oldest *slot
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			st := s.start
			s.mu.Unlock()
			if !st.IsZero() && (oldest == nil || st.Before(oldest.start)) {
				oldest = s
			}
		}
		f := Failure{Section: "watchdog", Msg: msg}
		if oldest != nil {
			f.Section = oldest.desc
			in := oldest.in
			if len(in) > 4096 {
				in = in[:4096]
			}
			f.Inputs = []string{hex.EncodeToString(in)}
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if !bytes.Contains(buf, []byte("github.com/VolantMQ/vlapi")) {
			fmt.Fprintf(os.Stderr, "vrun: %s, but not inside the library\n%s", msg, printable(string(buf)))
			os.Exit(71)
		}
		if len(buf) > 20000 {
			buf = buf[:20000]
		}
		f.Msg += "\n" + string(buf)
		c.mu.Lock()
		c.fails, c.nfail = append(c.fails, f), c.nfail+1
		c.mu.Unlock()
		writeOutcome(out, c.outcome(false))
		os.Exit(3)
	}
	for {
		time.Sleep(500 * time.Millisecond)
		now := time.Now()
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			late := !s.start.IsZero() && now.Sub(s.start) > caseLimit
			d := s.desc
			s.mu.Unlock()
			if late {
				stop(fmt.Sprintf("case %s did not terminate within %v", d, caseLimit))
			}
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		lim := uint64(heapLimit)
		if c.ID == "C09" {
			lim = 24 << 30 // huge payloads are the workload there
		}
		if ms.HeapAlloc > lim {
			stop(fmt.Sprintf("live heap grew to %d bytes", ms.HeapAlloc))
		}
	}
}

func readKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	re := regexp.MustCompile(`^finding: property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if x := re.FindStringSubmatch(l); x != nil && x[1] == id {
			m[x[2]] = x[3]
		}
	}
	return m
}

func child(id string, seed uint64, thorough, smoke bool, only, out, known string) {
	ck := checks[id]
	n := runtime.NumCPU()
	if n < 4 {
		n = 4
	}
	if n > 16 {
		n = 16
	}
	if ck.Workers > 0 {
		n = ck.Workers
	}
	c := &C{ID: id, Seed: seed, Thorough: thorough, Smoke: smoke, Workers: n, Only: only, known: map[string]string{}, counts: map[string]int64{},
		slots: make([]slot, 64), knownIDs: readKnown(known, id), begin: time.Now()}
	// the library prints recovered panics on stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	debug.SetMaxStack(256 << 20)
	if id != "C24" {
		go c.watchdog(out)
	}
	ck.Run(c)
	writeOutcome(out, c.outcome(true))
	if c.nfail > 0 {
		os.Exit(3)
	}
}

const leg32 = "386/"

// run the monitors in a child process
func run(bin, tmp string, args []string) (o outcome, vio []Failure, werr error, stderr string) {
	of := filepath.Join(tmp, "outcome.json")
	_ = os.Remove(of)
	cmd := exec.Command(bin, append(append([]string(nil), args...), "-child", "-out", of)...)
	errb := &stderrBuf{}
	cmd.Stderr = errb
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66 history_size=3", "GOTRACEBACK=all")
	if werr = cmd.Start(); werr != nil {
		return
	}
	o.started = true
	errb.tooMany = func() { _ = cmd.Process.Kill() }
	errb.armed()
	werr = cmd.Wait()
	if b, e := os.ReadFile(of); e == nil {
		_ = json.Unmarshal(b, &o)
	}
	stderr = errb.String()
	vio = append([]Failure(nil), o.Fails...)
	for _, r := range raceRe.FindAllString(stderr, 3) {
		if strings.Contains(r, "github.com/VolantMQ/vlapi") {
			o.NFail++
			vio = append(vio, Failure{Section: "race detector", Msg: r})
		}
	}
	if werr != nil && len(vio) == 0 && !o.Done {
		if (strings.Contains(stderr, "fatal error: ") || strings.Contains(stderr, "panic: ")) && blames(stderr) {
			o.NFail++
			vio = append(vio, Failure{Section: "crash", Msg: head(stderr, 20000)})
		}
	}
	return
}

// stderrBuf keeps what the child prints and ends it when it does nothing but report races of the library
type stderrBuf struct {
	mu      sync.Mutex
	b       bytes.Buffer
	done    int // reports in b up to here have been counted
	reports int
	ready   bool
	tooMany func()
}

func (w *stderrBuf) armed() {
	w.mu.Lock()
	w.ready = true
	w.mu.Unlock()
}

func (w *stderrBuf) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.b.Len() > 64<<20 {
		return len(p), nil
	}
	w.b.Write(p)
	for {
		m := raceRe.FindIndex(w.b.Bytes()[w.done:])
		if m == nil {
			break
		}
		if bytes.Contains(w.b.Bytes()[w.done+m[0]:w.done+m[1]], []byte("github.com/VolantMQ/vlapi")) {
			w.reports++
		}
		w.done += m[1]
	}
	if w.reports >= 20 && w.ready {
		w.tooMany()
	}
	return len(p), nil
}

func (w *stderrBuf) String() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.b.String()
}

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

func main() {
	id := flag.String("prop", "", "property id")
	isChild := flag.Bool("child", false, "")
	out := flag.String("out", "", "")
	only := flag.String("only", "", "replay one case: section:index")
	seedF := flag.Uint64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	verif := flag.String("verif", "/verif", "")
	alt := flag.String("alt", "", "the same monitors built for a 32-bit platform, run after the others")
	smoke := flag.Bool("smoke", os.Getenv("VRUN_SMOKE") != "", "1/8 of the quick amount")
	race := flag.Bool("race", false, "built with the race detector")
	flag.Parse()
	ck := checks[*id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "vrun: unknown property", *id)
		os.Exit(2)
	}
	knownFile := filepath.Join(*verif, "known_findings")
	if *isChild {
		child(*id, *seedF, *tier == "thorough", *smoke, *only, *out, knownFile)
		return
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "vrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	var o outcome
	var vio []Failure
	var werr error
	var stderr string
	alone := strings.HasPrefix(*only, leg32) // replay of a case of the 32-bit leg
	if !alone {
		o, vio, werr, stderr = run(os.Args[0], tmp, os.Args[1:])
	}
	leg := map[string]interface{}{}
	if *alt != "" && (alone || *only == "" && o.Done && len(vio) == 0 && o.NFail == 0) {
		args := []string{"-prop", *id, "-seed", fmt.Sprint(*seedF + 386), "-tier", "quick", "-verif", *verif}
		if alone {
			args = append(args, "-only", strings.TrimPrefix(*only, leg32))
		}
		if *tier != "thorough" && !alone {
			args = append(args, "-smoke")
		}
		p, v, e, se := run(*alt, tmp, args)
		short := strings.Contains(se, "out of memory") || strings.Contains(se, "cannot allocate memory")
		switch {
		case len(v) > 0 && !short:
			for i := range v {
				v[i].Section = leg32 + v[i].Section
			}
			vio, o.NFail = append(vio, v...), o.NFail+p.NFail
			leg["violations"] = p.NFail
		case p.Done:
			leg["evaluations"], leg["distinct_nontrivial"] = p.Evals, p.Distinct
		case short:
			leg["not_run"] = "address space exhausted"
		case p.started:
			fmt.Fprintf(os.Stderr, "vrun: no verdict: 32-bit child ended with %v\n%s\n", e, printable(head(se, 8000)))
			os.RemoveAll(tmp)
			os.Exit(2)
		default:
			leg["not_run"] = fmt.Sprintf("32-bit programs do not run here: %v", e)
		}
		if alone {
			o.Done = true
		}
	}
	evdir := filepath.Join(*verif, "evidence")
	_ = os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	if *only == "" && (o.Done || len(vio) > 0) {
		for k, v := range o.Counts { // no count under two names
			if v == o.Evals || v == o.Distinct {
				delete(o.Counts, k)
			}
		}
		cov := map[string]interface{}{
			"evaluations": o.Evals, "distinct_nontrivial": o.Distinct, "rule": ck.Rule, "samples": o.Samples, "observed": o.Counts,
		}
		if len(o.Exhaust) > 0 {
			cov["exhaustive_parts"] = o.Exhaust
		}
		if len(o.Samples) == 0 {
			cov["samples"] = []string{"none: the run ended early"}
		}
		ev := map[string]interface{}{"property": *id, "tier": *tier, "seed": *seedF, "level": "exploration", "coverage": cov,
			"assumptions": []string{"the reference model in /verif/harness/ref states the specification correctly", ck.Note},
			"wall_s":      time.Since(start).Seconds(), "violations": o.NFail}
		if *race {
			cov["race_detector"] = "on; reports mentioning the library count as violations"
		}
		if len(leg) > 0 {
			cov["leg_32bit"] = leg
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if e := os.WriteFile(filepath.Join(evdir, *id+".json"), append(b, '\n'), 0o644); e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(2)
		}
	}
	keys := []string{}
	for k := range o.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *id, k, o.Known[k])
	}
	if len(vio) > 0 {
		rp := filepath.Join(evdir, "replay", *id+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": *id, "seed": *seedF, "tier": *tier, "total_violations": o.NFail,
			"violations": vio, "how_to_replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s -only SECTION:CASE", *seedF, *tier, *id)}, "", " ")
		_ = os.WriteFile(rp, append(b, '\n'), 0o644)
		for i, f := range vio {
			if i < 3 {
				fmt.Printf("%s case %d: %s\n", f.Section, f.Case, printable(head(f.Msg, 1500)))
				for _, in := range f.Inputs {
					fmt.Printf("  input %s\n", head(in, 400))
				}
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rp)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if !o.Done {
		fmt.Fprintf(os.Stderr, "vrun: no verdict: child ended with %v\n%s\n", werr, printable(head(stderr, 8000)))
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	if werr != nil && strings.Contains(stderr, "DATA RACE") {
		fmt.Fprintf(os.Stderr, "vrun: race outside the library\n%s\n", printable(head(stderr, 8000)))
		os.RemoveAll(tmp)
		os.Exit(2)
	}
	if n, ok := leg["evaluations"]; ok {
		fmt.Printf("ok %s on 32 bits: %d evaluations\n", *id, n)
	}
	fmt.Printf("ok %s: %d evaluations, %d distinct, %.1fs\n", *id, o.Evals, o.Distinct, time.Since(start).Seconds())
	os.RemoveAll(tmp)
}

// blames the library for a crash: it is on the stack of the crashing goroutine
func blames(stderr string) bool {
	i := strings.Index(stderr, "[running]:")
	if i < 0 {
		return strings.Contains(stderr, "github.com/VolantMQ/vlapi")
	}
	s := stderr[i:]
	if j := strings.Index(s, "\n\n"); j > 0 {
		s = s[:j]
	}
	return strings.Contains(s, "github.com/VolantMQ/vlapi")
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// printable makes s text that any reader of the output can decode
func printable(s string) string {
	return strings.Map(func(r rune) rune {
		if r < ' ' && r != '\n' && r != '\t' || r == 0x7f {
			return '?'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}
