//go:build go1.21

// Command hx runs the checks.  A parent process hands out jobs to worker
// processes (so that a crash or hang of the code under test is contained),
// collects what they covered, confirms violations by running the failing case
// again in fresh processes, and writes the evidence file.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Job is a unit of work for a worker.
type Job struct {
	Kind  string          `json:"k"`
	Build string          `json:"b"` // plain, inst, race or mock
	Args  json.RawMessage `json:"a,omitempty"`
	Only  string          `json:"o,omitempty"` // run only this case
}

// Viol is a violation found.
type Viol struct {
	Case string `json:"case"`
	Msg  string `json:"msg"`
}

// Out is what a worker reports for a job.
type Out struct {
	Evals    int            `json:"e"`
	Sigs     []uint64       `json:"s,omitempty"` // hashes of distinct non-trivial outcomes
	Counters map[string]int `json:"c,omitempty"`
	Maxima   map[string]int `json:"m,omitempty"`
	Samples  []string       `json:"p,omitempty"`
	Viols    []Viol         `json:"v,omitempty"`
	More     []Job          `json:"j,omitempty"`
	Capped   bool           `json:"x,omitempty"` // some bound or time limit was hit
	Notes    []string       `json:"n,omitempty"`
	States   []StateOut     `json:"st,omitempty"`
}

// StateOut is a state reached by an explicit-state search, deduplicated by
// the parent, which makes a job of each new one.
type StateOut struct {
	Key uint64 `json:"k"`
	Job Job    `json:"j"`
}

// Check is one property's check.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	Explain     string
	Plan        func(t Tier) []Job
	Budget      [2]int // seconds, quick and thorough
}

// Tier describes how deep to go.
type Tier struct {
	Thorough bool
	Seed     int
	Race     bool // the race build is available
}

var checks = map[string]*Check{}
var kinds = map[string]func(c *Ctx){}

func register(c *Check)                  { checks[c.ID] = c }
func handle(kind string, f func(c *Ctx)) { kinds[kind] = f }
func mkjob(build, kind string, a any) Job {
	b, err := json.Marshal(a)
	if err != nil {
		panic(err)
	}
	return Job{Kind: kind, Build: build, Args: b}
}

// Ctx is what a job handler works with.
type Ctx struct {
	Job
	Tier     Tier
	Out      Out
	deadline time.Time
	sigs     map[uint64]bool
	cur      string
	maxViol  int
}

func (c *Ctx) Arg(v any) {
	if err := json.Unmarshal(c.Args, v); err != nil {
		panic(err)
	}
}

// Case announces a case and tells whether to run it.
func (c *Ctx) Case(name string) bool {
	if c.Only != "" && name != c.Only {
		return false
	}
	c.cur = name
	setStatus(name)
	c.Out.Evals++
	return true
}

// Sig records the outcome of a non-trivial case.
func (c *Ctx) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.SigHash(h.Sum64())
}

func (c *Ctx) SigHash(v uint64) {
	if !c.sigs[v] {
		c.sigs[v] = true
		c.Out.Sigs = append(c.Out.Sigs, v)
	}
}

func (c *Ctx) Count(name string, n int) { c.Out.Counters[name] += n }
func (c *Ctx) Max(name string, n int) {
	if n > c.Out.Maxima[name] {
		c.Out.Maxima[name] = n
	}
}
func (c *Ctx) Sample(f string, a ...any) {
	if len(c.Out.Samples) < 2 {
		c.Out.Samples = append(c.Out.Samples, fmt.Sprintf(f, a...))
	}
}

// Violation reports that the current case breaks the property.
func (c *Ctx) Violation(f string, a ...any) {
	if len(c.Out.Viols) < 3 {
		m := fmt.Sprintf(f, a...)
		if len(m) > 6000 {
			m = m[:6000]
		}
		c.Out.Viols = append(c.Out.Viols, Viol{c.cur, m})
	}
}

// Stop tells whether to stop early: enough violations, or out of time.
func (c *Ctx) Stop() bool {
	if len(c.Out.Viols) >= 3 {
		return true
	}
	if c.Only == "" && time.Now().After(c.deadline) {
		c.Out.Capped = true
		return true
	}
	return false
}

func (c *Ctx) More(j Job) { c.Out.More = append(c.Out.More, j) }

var statusMem []byte

func setStatus(s string) {
	if statusMem == nil {
		return
	}
	n := copy(statusMem[4:], s)
	statusMem[0], statusMem[1] = byte(n>>8), byte(n)
	statusMem[2]++
}

func readStatus(b []byte) (string, byte) {
	n := int(b[0])<<8 | int(b[1])
	if n > len(b)-4 {
		n = len(b) - 4
	}
	return string(b[4 : 4+n]), b[2]
}

const statusSize = 1 << 14

func worker(tier Tier) {
	if p := os.Getenv("HX_STATUS"); p != "" {
		f, err := os.OpenFile(p, os.O_RDWR, 0)
		if err == nil {
			statusMem, _ = syscall.Mmap(int(f.Fd()), 0, statusSize,
				syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			f.Close()
		}
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	outf := os.NewFile(3, "out")
	outw := bufio.NewWriter(outf)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var msg struct {
			Job      Job
			Deadline int64
		}
		if err := json.Unmarshal(line, &msg); err != nil {
			panic(err)
		}
		out := runJob(msg.Job, tier, time.Unix(0, msg.Deadline))
		b, _ := json.Marshal(out)
		outw.Write(b)
		outw.WriteByte('\n')
		outw.Flush()
	}
}

func runJob(j Job, tier Tier, deadline time.Time) *Out {
	c := &Ctx{Job: j, Tier: tier, deadline: deadline, sigs: map[uint64]bool{}}
	c.Out.Counters = map[string]int{}
	c.Out.Maxima = map[string]int{}
	h := kinds[j.Kind]
	if h == nil {
		panic("no such job kind: " + j.Kind)
	}
	setStatus("-")
	h(c)
	return &c.Out
}

// Parent

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	outf   *os.File
	status []byte
	stderr *tail
	build  string
	spath  string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 20000 {
		// keep the first and last parts
		t.b = append(append([]byte(nil), t.b[:8000]...), t.b[len(t.b)-8000:]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

var bins = map[string]string{}
var workDir string

// noAVX2 at the end of the name of a build means that it runs as if the
// machine had no AVX2, and thus without four-way hashes.
const noAVX2 = "-noavx2"

func binOf(build string) string { return bins[strings.TrimSuffix(build, noAVX2)] }

var procCount int
var procMu sync.Mutex

func startProc(build string, tier Tier) (*proc, error) {
	bin := binOf(build)
	if bin == "" {
		return nil, fmt.Errorf("no %s build", build)
	}
	procMu.Lock()
	procCount++
	spath := filepath.Join(workDir, fmt.Sprintf("status%d", procCount))
	procMu.Unlock()
	if err := os.WriteFile(spath, make([]byte, statusSize), 0600); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(spath, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	st, err := syscall.Mmap(int(f.Fd()), 0, statusSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	f.Close()
	if err != nil {
		return nil, err
	}
	args := []string{"-worker", "-seed", strconv.Itoa(tier.Seed)}
	if tier.Thorough {
		args = append(args, "-tier", "thorough")
	}
	cmd := exec.Command(bin, args...)
	cmd.Env = append(os.Environ(), "HX_STATUS="+spath, "GOTRACEBACK=all", "HX_WORK="+workDir,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 atexit_sleep_ms=0", "GOMAXPROCS=2", "GOMEMLIMIT=1500MiB")
	if strings.HasSuffix(build, noAVX2) {
		cmd.Env = append(cmd.Env, "GODEBUG=cpu.avx2=off")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	t := &tail{}
	cmd.Stderr = t
	cmd.Stdout = t
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	w.Close()
	return &proc{cmd: cmd, in: in, out: bufio.NewReaderSize(r, 1<<20), outf: r, status: st, stderr: t, build: build, spath: spath}, nil
}

func (p *proc) kill() {
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.in.Close()
	p.outf.Close()
	syscall.Munmap(p.status)
	os.Remove(p.spath)
}

type death struct {
	kind   string // crashed, hangs or killed
	cas    string
	stderr string
}

// hangAfter is how long a single case may take before it counts as hanging.
var hangAfter = 90 * time.Second

func cpuTime(pid int) time.Duration {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	s := string(b)
	i := strings.LastIndex(s, ")")
	f := strings.Fields(s[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return time.Duration(u+k) * 10 * time.Millisecond
}

// run executes a job; death is non-nil if the worker did not survive it.
func (p *proc) run(j Job, deadline time.Time) (*Out, *death) {
	b, _ := json.Marshal(map[string]any{"Job": j, "Deadline": deadline.UnixNano()})
	b = append(b, '\n')
	type res struct {
		o   *Out
		err error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := p.in.Write(b); err != nil {
			ch <- res{nil, err}
			return
		}
		line, err := p.out.ReadBytes('\n')
		if err != nil {
			ch <- res{nil, err}
			return
		}
		var o Out
		if err := json.Unmarshal(line, &o); err != nil {
			ch <- res{nil, err}
			return
		}
		ch <- res{&o, nil}
	}()
	var last byte
	lastCase := ""
	lastChange := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case r := <-ch:
			if r.err == nil {
				return r.o, nil
			}
			cas, _ := readStatus(p.status)
			err := p.cmd.Wait()
			kind := "crashed"
			if ee, ok := err.(*exec.ExitError); ok {
				if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
					kind = "killed"
				}
			}
			return nil, &death{kind, cas, p.stderr.String()}
		case <-tick.C:
			cas, n := readStatus(p.status)
			if n != last || cas != lastCase {
				last, lastCase = n, cas
				lastChange = time.Now()
				continue
			}
			if time.Since(lastChange) > hangAfter {
				p.cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(2 * time.Second)
				return nil, &death{"hangs", cas, p.stderr.String()}
			}
		}
	}
}

type parent struct {
	check    *Check
	tier     Tier
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Job
	running  int
	stop     bool
	sigs     map[uint64]bool
	states   map[uint64]bool
	counters map[string]int
	maxima   map[string]int
	evals    int
	samples  []string
	capped   bool
	notes    map[string]int
	viols    []confirmed
	jobs     int
	deadline time.Time
	deaths   int
	skipped  int
}

// For development: time spent per kind of job.
var (
	profile map[string]time.Duration
	profKey = regexp.MustCompile(`,"(Start":\[|Image":"|Splits":)[^\]"}]*[\]"]?`)
)

func init() {
	if os.Getenv("HX_PROF") != "" {
		profile = map[string]time.Duration{}
	}
}

func printProfile() {
	var ks []string
	for k := range profile {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profile[ks[i]] > profile[ks[j]] })
	for i, k := range ks {
		if i < 10 {
			fmt.Fprintf(os.Stderr, "%8.1fs %s\n", profile[k].Seconds(), k)
		}
	}
}

type confirmed struct {
	Property string `json:"property"`
	Job      Job    `json:"job"`
	Case     string `json:"case"`
	Msg      string `json:"msg"`
	Repro    string `json:"reproduced"`
	Seed     int    `json:"seed"`
	Tier     string `json:"tier"`
}

func (p *parent) confirm(j Job, v Viol) (bool, string) {
	ok, n := 0, 3
	if strings.HasPrefix(v.Msg, "the process hangs") {
		n = 1 // (takes long)
	}
	j.Only = v.Case
	last := ""
	for i := 0; i < n; i++ {
		w, err := startProc(j.Build, p.tier)
		if err != nil {
			continue
		}
		o, d := w.run(j, time.Now().Add(10*time.Minute))
		w.kill()
		if d != nil {
			if d.kind != "killed" {
				ok++
				last = d.kind
			}
		} else if len(o.Viols) > 0 {
			ok++
			last = o.Viols[0].Msg
		}
	}
	_ = last
	return ok > 0, fmt.Sprintf("%d of %d", ok, n)
}

func (p *parent) workerLoop() {
	var w *proc
	defer func() {
		if w != nil {
			w.kill()
		}
	}()
	for {
		p.mu.Lock()
		for len(p.queue) == 0 && p.running > 0 && !p.stop {
			p.cond.Wait()
		}
		if p.stop || len(p.queue) == 0 {
			p.mu.Unlock()
			p.cond.Broadcast()
			return
		}
		if time.Now().After(p.deadline) {
			p.capped = true
			p.skipped += len(p.queue)
			p.queue = nil
			p.mu.Unlock()
			p.cond.Broadcast()
			return
		}
		j := p.queue[0]
		p.queue = p.queue[1:]
		p.running++
		p.jobs++
		p.mu.Unlock()

		if w != nil && w.build != j.Build {
			w.kill()
			w = nil
		}
		if w == nil {
			var err error
			w, err = startProc(j.Build, p.tier)
			if err != nil {
				p.mu.Lock()
				p.notes["cannot run: "+err.Error()]++
				p.capped = true
				p.running--
				p.cond.Broadcast()
				p.mu.Unlock()
				continue
			}
		}
		t0 := time.Now()
		o, d := w.run(j, p.deadline)
		if profile != nil {
			p.mu.Lock()
			k := profKey.ReplaceAllString(j.Build+" "+j.Kind+" "+string(j.Args), "")
			if len(k) > 200 {
				k = k[:200]
			}
			profile[k] += time.Since(t0)
			p.mu.Unlock()
		}
		var found []confirmed
		if d != nil {
			w.kill()
			w = nil
			if d.kind == "killed" {
				p.mu.Lock()
				p.notes["worker killed (out of memory?)"]++
				p.capped = true
				p.deaths++
				p.mu.Unlock()
			} else {
				msg := fmt.Sprintf("the process %s\n%s", d.kind, d.stderr)
				v := Viol{d.cas, msg}
				yes, rep := p.confirm(j, v)
				if yes {
					found = append(found, confirmed{p.check.ID, j, d.cas, msg, rep, p.tier.Seed, ""})
				} else {
					p.mu.Lock()
					p.notes["a worker "+d.kind+", not reproducible"]++
					p.capped = true
					p.mu.Unlock()
				}
			}
			o = &Out{}
		}
		for _, v := range o.Viols {
			if strings.HasPrefix(v.Msg, "data race") {
				time.Sleep(100 * time.Millisecond)
				v.Msg += "\n" + lastRace(w.stderr.String())
			}
			yes, rep := p.confirm(j, v)
			if yes {
				found = append(found, confirmed{p.check.ID, j, v.Case, v.Msg, rep, p.tier.Seed, ""})
				break
			}
			p.mu.Lock()
			p.notes["a violation could not be reproduced: "+firstLine(v.Msg)]++
			p.capped = true
			p.mu.Unlock()
		}
		p.mu.Lock()
		p.evals += o.Evals
		for _, s := range o.Sigs {
			p.sigs[s] = true
		}
		for k, n := range o.Counters {
			p.counters[k] += n
		}
		for k, n := range o.Maxima {
			if n > p.maxima[k] {
				p.maxima[k] = n
			}
		}
		if len(p.samples) < 6 {
			p.samples = append(p.samples, o.Samples...)
		}
		if o.Capped {
			p.capped = true
		}
		for _, n := range o.Notes {
			p.notes[n]++
		}
		p.queue = append(p.queue, o.More...)
		for _, st := range o.States {
			if !p.states[st.Key] {
				p.states[st.Key] = true
				p.queue = append(p.queue, st.Job)
			}
		}
		p.viols = append(p.viols, found...)
		if len(p.viols) > 0 && !known(p.viols) {
			p.stop = true
		}
		p.running--
		p.cond.Broadcast()
		p.mu.Unlock()
	}
}

// lastRace returns the last report of the race detector in a log.
func lastRace(s string) string {
	i := strings.LastIndex(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	s = s[i:]
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// known tells whether all violations are listed as known findings.
func known(vs []confirmed) bool {
	for _, v := range vs {
		if findKnown(v) == "" {
			return false
		}
	}
	return true
}

type knownFinding struct{ prop, key, text string }

var knownFindings []knownFinding

// loadKnown reads lines "finding: property=<id> key=<substring of case> <text>".
func loadKnown(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			knownFindings = append(knownFindings, knownFinding{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
}

func findKnown(v confirmed) string {
	for _, k := range knownFindings {
		if k.prop == v.Property && k.key == v.Case {
			return k.text
		}
	}
	return ""
}

func main() {
	isWorker := flag.Bool("worker", false, "")
	tierName := flag.String("tier", "quick", "")
	seed := flag.Int("seed", 1, "")
	plain := flag.String("plain", "", "plain binary")
	inst := flag.String("inst", "", "instrumented binary")
	race := flag.String("race", "", "instrumented binary with the race detector")
	mock := flag.String("mock", "", "instrumented binary with controllable hashes")
	id := flag.String("check", "", "property to check")
	evidence := flag.String("evidence", "", "evidence file to write")
	replayDir := flag.String("replays", "", "where to put replay files")
	replay := flag.String("replay", "", "replay file to run")
	work := flag.String("work", "", "scratch directory")
	knownFile := flag.String("known", "", "known findings")
	budget := flag.Int("budget", 0, "time budget in seconds")
	note := flag.String("note", "", "note to put in the evidence")
	par := flag.Int("j", runtime.NumCPU(), "workers")
	flag.Parse()
	tier := Tier{Thorough: *tierName == "thorough", Seed: *seed}
	if helper := os.Getenv("HX_HELPER"); helper != "" {
		helperMain(helper)
		return
	}
	if *isWorker {
		worker(tier)
		return
	}
	bins["plain"], bins["inst"], bins["race"], bins["mock"] = *plain, *inst, *race, *mock
	tier.Race = *race != ""
	workDir = *work
	loadKnown(*knownFile)
	start := time.Now()

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var v confirmed
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		v.Job.Only = v.Case
		tier.Seed = v.Seed
		tier.Thorough = v.Tier == "thorough"
		w, err := startProc(v.Job.Build, tier)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		o, d := w.run(v.Job, time.Now().Add(time.Hour))
		w.kill()
		switch {
		case d != nil:
			fmt.Printf("case %s: the process %s\n%s\n", v.Case, d.kind, d.stderr)
			os.Exit(1)
		case len(o.Viols) > 0:
			fmt.Printf("case %s:\n%s\n%s\n", v.Case, o.Viols[0].Msg, lastRace(w.stderr.String()))
			os.Exit(1)
		}
		fmt.Println("the case passes")
		return
	}

	ck := checks[*id]
	if ck == nil {
		fmt.Println("no such check:", *id)
		os.Exit(2)
	}
	secs := ck.Budget[0]
	if secs == 0 {
		secs = 120
	}
	if tier.Thorough {
		secs = ck.Budget[1]
		if secs == 0 {
			secs = 3000
		}
	}
	if *budget != 0 {
		secs = *budget
	}
	p := &parent{check: ck, tier: tier, sigs: map[uint64]bool{}, states: map[uint64]bool{},
		counters: map[string]int{}, maxima: map[string]int{}, notes: map[string]int{},
		deadline: start.Add(time.Duration(secs) * time.Second)}
	p.cond = sync.NewCond(&p.mu)
	for _, j := range ck.Plan(tier) {
		if binOf(j.Build) == "" {
			p.notes["no "+j.Build+" build: part skipped"]++
			p.capped = true
			continue
		}
		p.queue = append(p.queue, j)
	}
	var wg sync.WaitGroup
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			p.workerLoop()
		}()
	}
	wg.Wait()
	if *note != "" {
		p.notes[*note]++
		p.capped = true
	}

	newViols := 0
	code := 0
	for i, v := range p.viols {
		if t := findKnown(v); t != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, t)
			continue
		}
		newViols++
		code = 1
		v.Tier = *tierName
		path := filepath.Join(*replayDir, fmt.Sprintf("%s-%d.json", ck.ID, i))
		os.MkdirAll(*replayDir, 0755)
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Printf("--- case %s (reproduced %s)\n%s\n", v.Case, v.Repro, v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
	}
	cov := map[string]any{}
	for k, n := range p.counters {
		cov[k] = n
	}
	for k, n := range p.maxima {
		cov["max_"+k] = n
	}
	cov["evaluations"] = p.evals
	cov["distinct_nontrivial"] = len(p.sigs)
	cov["rule"] = ck.Rule
	cov["jobs"] = p.jobs
	cov["exhaustive"] = !p.capped
	if len(p.states) > 0 {
		cov["states"] = len(p.states)
	}
	if ck.Level == "model_checking" {
		if _, ok := cov["states"]; !ok {
			cov["states"] = len(p.sigs)
			delete(cov, "distinct_nontrivial")
		}
	}
	// Every case runs the real code.
	for _, k := range []string{"transitions", "traces_validated_against_impl"} {
		if _, ok := cov[k]; !ok {
			cov[k] = p.evals
		}
	}
	if len(p.samples) == 0 {
		p.samples = []string{"(none)"}
	}
	if len(p.samples) > 6 {
		p.samples = p.samples[:6]
	}
	cov["samples"] = p.samples
	if len(p.notes) > 0 {
		var ns []string
		for n, k := range p.notes {
			ns = append(ns, fmt.Sprintf("%s (%d)", n, k))
		}
		sort.Strings(ns)
		cov["notes"] = ns
	}
	if p.skipped > 0 {
		cov["jobs_skipped"] = p.skipped
	}
	ev := map[string]any{
		"property": ck.ID, "tier": *tierName, "seed": *seed, "level": ck.Level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": newViols,
	}
	if ck.Assumptions != nil {
		ev["assumptions"] = ck.Assumptions
	}
	if ck.Explain != "" {
		cov["explanation"] = ck.Explain
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if *evidence != "" {
		os.MkdirAll(filepath.Dir(*evidence), 0755)
		if err := os.WriteFile(*evidence, append(b, '\n'), 0644); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	}
	fmt.Printf("%s: %d evaluations, %d distinct outcomes, %d states, exhaustive=%v, %.1fs\n",
		ck.ID, p.evals, len(p.sigs), len(p.states), !p.capped, time.Since(start).Seconds())
	printProfile()
	if os.Getenv("HX_VERBOSE") != "" {
		fmt.Println(string(b))
	} else {
		for n, k := range p.notes {
			fmt.Printf("note: %s (%d)\n", n, k)
		}
	}
	os.Exit(code)
}
