//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vlock"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// C15: a key is open at most once at a time.

func init() {
	register(&Check{
		ID: "C15", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "all sequences of operations (open, sign, close, close again, kill, damage) up to a depth of two real processes that share a key, against a model of who has it open; all pairs of ways to name the key; all kinds of lock files found; all schedules up to a preemption bound, at all calls to the file system, of two simulated processes and of goroutines of one, with every point at which a process can be killed and every call that can fail; an outcome is who could open the key",
		Assumptions: append([]string{"schedules treat taking and releasing the file lock as atomic (that is the lockfile package; the sequences run the real one)"}, lifeAssume...),
		Plan:        c15Plan,
	})
	scens["procs"] = func(raw json.RawMessage) func([]int16) run {
		var a procArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		return a.prepare()
	}
	handle("c15seq", c15Seq)
	handle("c15names", c15Names)
	handle("c15lock", c15Lock)
	handle("c15fault", c15Fault)
	handle("c15kill", c15Kill)
}

type c15Job struct {
	First []string `json:",omitempty"`
	Depth int
}

func c15Plan(t Tier) []Job {
	var js []Job
	depth := 5
	if t.Thorough {
		depth = 6
	}
	for _, s := range c15Next(&c15State{}, nil) {
		m := &c15State{}
		m.step(s)
		for _, s2 := range c15Next(m, []string{s}) {
			js = append(js, mkjob("plain", "c15seq", c15Job{[]string{s, s2}, depth}))
		}
	}
	js = append(js, mkjob("plain", "c15names", nil), mkjob("plain", "c15lock", nil))
	js = append(js, mkjob("inst", "c15fault", nil))
	add := func(bound int, a procArg) {
		if t.Thorough {
			bound++
		}
		js = append(js, schedJob("inst", "procs", bound, 0, false, a))
	}
	p := tiny(4, 2)
	add(2, procArg{P: p, Start: 2, Threads: []string{"0 o c", "1 o c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o S c", "1 o S c"}})
	add(2, procArg{P: p, Start: 2, Threads: []string{"0 o c", "0 o c"}})
	add(2, procArg{P: p, Start: 2, Threads: []string{"0 n c", "0 n c", "0 n c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o S c", "0 o S c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o c z o c", "0 o S c", "1 o c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o c z z", "0 o S c", "0 o c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o B3 S c", "1 o S c o S c"}})
	add(1, procArg{P: p, Start: 2, Threads: []string{"0 o c", "0 o c", "1 o c"}})
	add(1, procArg{P: p, Start: 2, Cold: true, Threads: []string{"0 o S c", "1 o S c"}})
	add(1, procArg{P: p, Threads: []string{"0 g S c", "1 g S c"}, Empty: true})
	add(1, procArg{P: p, Threads: []string{"0 g S c", "0 g S c"}, Empty: true})
	add(1, procArg{P: p, Threads: []string{"0 g S c", "1 o S c"}, Start: 3})
	add(1, procArg{P: p, Threads: []string{"0 g S c", "0 o S c"}, Start: 3})
	add(1, procArg{P: p, Threads: []string{"0 n r c", "0 o S c"}, Start: 3})
	// killed
	for _, th := range [][]string{
		{"0 o S c", "1 o S c o S c"},
		{"0 o B3 S S c", "1 o S c o c"},
		{"0 g S c", "1 o S c o S c"},
	} {
		js = append(js, mkjob("inst", "c15kill", procArg{P: p, Start: 2, Threads: th}))
	}
	return js
}

// Real processes.

// helperMain is a process that opens keys.
func helperMain(string) {
	in := bufio.NewReader(os.Stdin)
	keys := map[string]*xmssmt.PrivateKey{}
	ctrs := map[string]xmssmt.PrivateKeyContainer{}
	out := func(s string, err xmssmt.Error) {
		if err != nil {
			s = fmt.Sprintf("err %v %q", err.Locked(), err.Error())
		}
		fmt.Println(s)
	}
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			return
		}
		f := strings.Fields(line)
		switch f[0] {
		case "chdir":
			if err := os.Chdir(f[1]); err != nil {
				panic(err)
			}
			fmt.Println("ok")
		case "pid":
			fmt.Println("ok", os.Getpid())
		case "load":
			sk, _, _, err := xmssmt.LoadPrivateKey(f[2])
			if err == nil {
				sk.Context().Threads = 1
				keys[f[1]] = sk
				out(fmt.Sprint("ok ", sk.SeqNo()), nil)
			} else if sk != nil {
				fmt.Println("bad: an error and a key")
			} else {
				out("", err)
			}
		case "derive":
			fx := fix(tiny(4, 2), f[3])
			sk, _, err := fx.derive(f[2])
			if err == nil {
				sk.Context().Threads = 1
				keys[f[1]] = sk
			}
			out("ok", err)
		case "ctr":
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(f[2])
			if err == nil {
				ctrs[f[1]] = ctr
				out("ok", nil)
			} else if ctr != nil {
				fmt.Println("bad: an error and a container")
			} else {
				out("", err)
			}
		case "seq":
			n, _, err := ctrs[f[1]].GetSeqNo()
			out(fmt.Sprint("ok ", n), err)
		case "sign":
			sig, err := keys[f[1]].Sign([]byte(f[2]))
			if err != nil {
				out("", err)
				break
			}
			b, e := sig.MarshalBinary()
			if e != nil {
				panic(e)
			}
			out(fmt.Sprint("ok ", sig.SeqNo(), " ", hex.EncodeToString(b)), nil)
		case "close":
			if sk := keys[f[1]]; sk != nil {
				out("ok", sk.Close())
			} else {
				out("ok", ctrs[f[1]].Close())
			}
		case "forget":
			keys = map[string]*xmssmt.PrivateKey{}
			ctrs = map[string]xmssmt.PrivateKeyContainer{}
			fmt.Println("ok")
		}
	}
}

type child struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	dir string
}

func startChild(dir string) *child {
	p := &child{dir: dir}
	p.start()
	return p
}

func (p *child) start() {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	p.cmd = exec.Command(exe)
	p.cmd.Env = append(os.Environ(), "HX_HELPER=1")
	p.cmd.Dir = p.dir
	p.cmd.Stderr = os.Stderr
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
}

func (p *child) kill() {
	p.cmd.Process.Kill()
	p.in.Close()
	p.cmd.Wait()
}

// do gives a command; ok tells whether it succeeded, locked whether it failed
// because of a lock.
func (p *child) do(f string, a ...any) (ok, locked bool, rest string) {
	fmt.Fprintf(p.in, f+"\n", a...)
	line, err := p.out.ReadString('\n')
	if err != nil {
		return false, false, "the process died"
	}
	line = strings.TrimSpace(line)
	switch {
	case line == "ok":
		return true, false, ""
	case strings.HasPrefix(line, "ok "):
		return true, false, line[3:]
	case strings.HasPrefix(line, "err true"):
		return false, true, line
	}
	return false, false, line
}

func writeImage(dir string, im *vfs.Image) {
	for n, d := range im.Files {
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(n)), d, 0600); err != nil {
			panic(err)
		}
	}
}

// realKey makes a key in the real file system and returns its directory.
func realKey(seq uint64) string {
	dir, err := os.MkdirTemp(os.Getenv("HX_WORK"), "c15")
	if err != nil {
		panic(err)
	}
	dir, err = filepath.EvalSymlinks(dir)
	if err != nil {
		panic(err)
	}
	f := fix(tiny(4, 2), "")
	sk, _, e := f.derive(filepath.Join(dir, "key"))
	must(e)
	sk.Context().Threads = 1
	for i := uint64(0); i < seq; i++ {
		_, e := sk.Sign([]byte("x"))
		must(e)
	}
	must(sk.Close())
	os.Remove(filepath.Join(dir, "key.lock"))
	return dir
}

// c15State is the model: who has the key open.
type c15State struct {
	held   int // 0: nobody, 1, 2: process
	ctr    bool
	stale  [3]int // number of closed handles
	handle [3]int // number of handles made
	broken bool
	seq    uint64
}

// c15Next lists the operations that can follow.
func c15Next(m *c15State, done []string) []string {
	var r []string
	for p := 1; p <= 2; p++ {
		if p == 2 && len(done) == 0 {
			break // the processes are interchangeable
		}
		for _, op := range []string{"o", "n", "s", "c", "z", "k", "g"} {
			switch op {
			case "s":
				if m.held != p || m.ctr || m.seq >= 14 {
					continue
				}
			case "c":
				if m.held != p {
					continue
				}
			case "z":
				if m.stale[p] == 0 {
					continue
				}
			case "k":
				if m.handle[p] == 0 {
					continue
				}
			case "g":
				if m.held == 0 {
					continue
				}
			}
			r = append(r, fmt.Sprint(op, p))
		}
	}
	if m.held == 0 && len(done) > 0 {
		r = append(r, "x")
	}
	return r
}

// step is the effect of an operation; it returns whether it succeeds.
func (m *c15State) step(op string) bool {
	if op == "x" {
		m.broken = !m.broken
		return true
	}
	p := int(op[1] - '0')
	switch op[0] {
	case 'o', 'n':
		if m.held != 0 || m.broken {
			return false
		}
		m.held = p
		m.ctr = op[0] == 'n'
		m.handle[p]++
	case 'g':
		return false
	case 's':
		m.seq++
	case 'c':
		m.held = 0
		m.stale[p]++
	case 'k':
		m.stale[p], m.handle[p] = 0, 0
		if m.held == p {
			m.held = 0
		}
	}
	return true
}

func c15Seq(c *Ctx) {
	var a c15Job
	c.Arg(&a)
	f := fix(tiny(4, 2), "")
	var seqs [][]string
	var rec func(m c15State, s []string)
	rec = func(m c15State, s []string) {
		if len(s) == a.Depth {
			seqs = append(seqs, append([]string(nil), s...))
			return
		}
		for _, op := range c15Next(&m, s) {
			n := m
			n.step(op)
			rec(n, append(s, op))
		}
	}
	m := c15State{}
	for _, op := range a.First {
		m.step(op)
	}
	rec(m, a.First)
	dir := realKey(2)
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "key")
	good, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	cache, _ := os.ReadFile(path + ".cache")
	procs := []*child{nil, startChild(dir), startChild(dir)}
	defer func() { procs[1].kill(); procs[2].kill() }()
	states := map[string]bool{}
	for _, q := range seqs {
		if c.Stop() {
			break
		}
		if !c.Case(fmt.Sprint("processes: ", strings.Join(q, " "))) {
			continue
		}
		os.Remove(path + ".lock")
		os.WriteFile(path, good, 0600)
		os.WriteFile(path+".cache", cache, 0600)
		m := &c15State{seq: 2}
		cur := [3]string{}     // the handle
		stale := [3][]string{} // closed ones
		bad, out := "", ""
		nh := 0
		ops := append(append([]string(nil), q...), "end")
		for i := 0; i < len(ops) && bad == ""; i++ {
			op := ops[i]
			what := fmt.Sprintf("operation %d (%s)", i, op)
			if op == "end" {
				// leave it closed and repaired, and open it in both
				ops = ops[:i]
				if m.held != 0 {
					ops = append(ops, fmt.Sprint("c", m.held))
				}
				if m.broken {
					ops = append(ops, "x")
				}
				ops = append(ops, "o2", "c2", "o1", "s1", "c1")
				i--
				continue
			}
			was := *m
			want := m.step(op)
			states[fmt.Sprint(m.held, m.ctr, m.broken, min(m.stale[1], 1), min(m.stale[2], 1))] = true
			if op == "x" {
				b := append([]byte(nil), readFile(path)...)
				for k := 0; k < 8; k++ {
					b[k] ^= 0x55
				}
				os.WriteFile(path, b, 0600)
				continue
			}
			pi := int(op[1] - '0')
			p := procs[pi]
			switch op[0] {
			case 'o', 'n':
				nh++
				h := fmt.Sprint("h", nh)
				cmd := map[byte]string{'o': "load", 'n': "ctr"}[op[0]]
				ok, locked, rest := p.do("%s %s %s", cmd, h, path)
				out += fmt.Sprint(ok, locked)
				switch {
				case ok && !want && was.held != 0:
					bad = fmt.Sprintf("%s succeeds while process %d has the key open", what, was.held)
				case ok && !want:
					bad = what + " succeeds on a broken key file"
				case !ok && want:
					bad = fmt.Sprintf("%s fails although nobody has the key open: %s", what, rest)
				case !ok && was.held != 0 && !locked:
					bad = fmt.Sprintf("%s fails without reporting that the key is locked: %s", what, rest)
				case !ok && was.held == 0 && locked:
					bad = fmt.Sprintf("%s reports a lock that nobody has: %s", what, rest)
				}
				if ok {
					cur[pi] = h
					if op[0] == 'o' && rest != fmt.Sprint(m.seq) && bad == "" {
						bad = fmt.Sprintf("%s: next number %s instead of %d", what, rest, m.seq)
					}
				}
			case 'g':
				nh++
				before := string(readFile(path))
				ok, locked, rest := p.do("derive h%d %s other", nh, path)
				out += fmt.Sprint(ok, locked)
				if ok {
					bad = fmt.Sprintf("%s: a new key is written while process %d has the old one open", what, was.held)
				} else if !locked {
					bad = fmt.Sprintf("%s fails without reporting that the key is locked: %s", what, rest)
				} else if string(readFile(path)) != before {
					bad = what + ": the key file changed"
				}
			case 's':
				ok, _, rest := p.do("sign %s m", cur[pi])
				var n uint64
				var h string
				fmt.Sscan(rest, &n, &h)
				out += fmt.Sprint(ok, n)
				if !ok {
					bad = what + " fails: " + rest
				} else if n != was.seq {
					bad = fmt.Sprintf("%s: number %d instead of %d", what, n, was.seq)
				} else {
					enc, _ := hex.DecodeString(h)
					bad = f.right(n, "m", enc)
				}
			case 'c':
				ok, _, rest := p.do("close %s", cur[pi])
				if !ok {
					bad = what + " fails: " + rest
				}
				stale[pi] = append(stale[pi], cur[pi])
				cur[pi] = ""
			case 'z':
				h := stale[pi][len(stale[pi])-1]
				if len(q)%2 == 0 {
					h = stale[pi][0]
				}
				_, _, rest := p.do("close %s", h)
				if rest == "the process died" {
					bad = what + " kills the process"
				}
			case 'k':
				p.kill()
				p.start()
				cur[pi], stale[pi] = "", nil
			}
		}
		c.Count("transitions", len(ops))
		c.Count("traces_validated_against_impl", 1)
		for _, p := range procs[1:] {
			if ok, _, _ := p.do("forget"); !ok || bad != "" {
				p.kill()
				p.start()
			}
		}
		if bad != "" {
			c.Violation("%s", bad)
			continue
		}
		c.SigHash(hashStr(fmt.Sprint(q), out))
	}
	c.Max("model_states", len(states))
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return b
}

// c15Names: a key is opened under one name and then under another.
func c15Names(c *Ctx) {
	dir := realKey(2)
	defer os.RemoveAll(dir)
	os.Mkdir(dir+"/sub", 0700)
	os.Symlink(dir+"/key", dir+"/abslink")
	os.Symlink("key", dir+"/rellink")
	os.Symlink("rellink", dir+"/linklink")
	os.Symlink("../key", dir+"/sub/up")
	os.Symlink(".", dir+"/self")
	os.Symlink(dir, dir+"/sub/dir")
	names := []string{dir + "/key", "key", "./key", "sub/../key", dir + "//key", dir + "/./sub/../key",
		"abslink", dir + "/rellink", "linklink", "sub/up", "self/key", "self/self/rellink", dir + "/sub/dir/key", "sub/dir/sub/up",
		"./././key"}
	a, b := startChild(dir), startChild(dir)
	defer func() { a.kill(); b.kill() }()
	try := func(names []string, key string) {
		for _, x := range names {
			for _, y := range names {
				for _, same := range []bool{false, true} {
					for _, cmd := range []string{"load", "ctr"} {
						if c.Stop() {
							return
						}
						if !c.Case(strings.ReplaceAll(fmt.Sprintf("%s opened as %s, then as %s by the same process: %v, with %s", key, x, y, same, cmd),
							dir, "...")) {
							continue
						}
						q := b
						if same {
							q = a
						}
						bad := ""
						if key == "new" {
							os.Remove(dir + "/new")
							os.Remove(dir + "/new.cache")
						}
						first := func() (bool, bool, string) {
							if key == "new" {
								return a.do("derive one %s other", x)
							}
							return a.do("load one %s", x)
						}
						if ok, _, rest := first(); !ok {
							bad = "opening it as " + x + " fails: " + rest
						} else {
							ok, locked, rest := q.do("%s two %s", cmd, y)
							if ok {
								bad = "it was opened twice"
							} else if !locked {
								bad = "the second attempt fails without reporting a lock: " + rest
							}
							if bad == "" {
								if ok, _, rest := a.do("sign one m"); !ok {
									bad = "signing fails: " + rest
								} else if ok, _, rest := a.do("close one"); !ok {
									bad = "closing fails: " + rest
								} else if ok, _, rest := q.do("%s two %s", cmd, y); !ok {
									bad = "opening it under the other name fails afterwards: " + rest
								} else if ok, locked, rest := a.do("ctr three %s", x); ok || !locked {
									bad = "a third attempt does not fail with a lock: " + rest
								} else if ok, _, rest := q.do("close two"); !ok {
									bad = "closing it under the other name fails: " + rest
								}
							}
						}
						a.do("forget")
						q.do("forget")
						c.Count("transitions", 6)
						c.Count("traces_validated_against_impl", 1)
						if bad != "" {
							c.Violation("%s", bad)
							a.kill()
							b.kill()
							a.start()
							b.start()
							continue
						}
						c.Sig(x, y, same, cmd)
						// numbers are used up: start over
						if key == "key" {
							ctrReset(dir + "/key")
						}
					}
				}
			}
		}
	}
	try(names, "key")
	// a key that does not exist yet
	os.Symlink("new", dir+"/newlink")
	try([]string{dir + "/new", "new", "sub/../new", "self/new", dir + "/sub/dir/new"}, "new")
	// keys that are different can be open at the same time
	if c.Case("different keys") {
		for i, n := range []string{"key", "sub/key", "key2"} {
			if i > 0 {
				os.WriteFile(dir+"/"+n, readFile(dir+"/key"), 0600)
			}
			if ok, _, rest := a.do("load k%d %s", i, n); !ok {
				c.Violation("opening %s fails: %s", n, rest)
			}
		}
		for i := 2; i >= 0; i-- {
			if ok, _, rest := a.do("close k%d", i); !ok {
				c.Violation("closing fails: %s", rest)
			}
		}
	}
}

func ctrReset(path string) {
	ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
	must(err)
	must(ctr.SetSeqNo(2))
	must(ctr.Close())
}

// c15Lock: what is found where the lock file should be.
func c15Lock(c *Ctx) {
	dir := realKey(2)
	defer os.RemoveAll(dir)
	path := dir + "/key"
	a, b := startChild(dir), startChild(dir)
	defer func() { a.kill(); b.kill() }()
	_, _, apid := a.do("pid")
	_, _, bpid := b.do("pid")
	dead := startChild(dir)
	_, _, dpid := dead.do("pid")
	dead.kill()
	lock := path + ".lock"
	const (
		opens = iota
		locked
		fails
	)
	cases := []struct {
		name string
		make func()
		want int
	}{
		{"nothing", func() {}, opens},
		{"its own pid", func() { os.WriteFile(lock, []byte(apid+"\n"), 0600) }, opens},
		{"the pid of another process", func() { os.WriteFile(lock, []byte(bpid+"\n"), 0600) }, locked},
		{"the pid of another process, read only", func() { os.WriteFile(lock, []byte(bpid+"\n"), 0400) }, locked},
		{"the pid of a dead process", func() { os.WriteFile(lock, []byte(dpid+"\n"), 0600) }, opens},
		{"a directory", func() { os.Mkdir(lock, 0700) }, fails},
		{"a directory with a file", func() { os.Mkdir(lock, 0700); os.WriteFile(lock+"/x", nil, 0600) }, fails},
		{"a symlink to itself", func() { os.Symlink("key.lock", lock) }, fails},
		{"a lock of another process behind a symlink", func() {
			os.WriteFile(dir+"/elsewhere", []byte(bpid+"\n"), 0600)
			os.Symlink("elsewhere", lock)
		}, locked},
	}
	for _, x := range cases {
		for _, cmd := range []string{"load", "ctr", "derive"} {
			if !c.Case(fmt.Sprintf("lock file: %s, %s", x.name, cmd)) {
				continue
			}
			p := path
			arg := ""
			if cmd == "derive" {
				arg = "other"
			}
			os.RemoveAll(lock)
			keep := readFile(path)
			keepCache, _ := os.ReadFile(path + ".cache")
			x.make()
			before := describe(lock)
			ok, isLocked, rest := a.do("%s one %s %s", cmd, p, arg)
			bad := ""
			switch {
			case x.want == opens && !ok:
				bad = "opening fails: " + rest
			case x.want != opens && ok:
				bad = "the lock is not heeded"
			case x.want == locked && !isLocked:
				bad = "failing without reporting that the key is locked: " + rest
			case x.want == fails && isLocked:
				bad = "reported as locked: " + rest
			}
			if bad == "" && x.want != opens {
				if describe(lock) != before {
					bad = "somebody else's lock changed"
				} else if !bytes.Equal(readFile(path), keep) {
					bad = "the key changed without holding the lock"
				}
				os.RemoveAll(lock)
				if ok, _, rest := b.do("load two %s", path); bad == "" && !ok {
					bad = "opening fails when the obstacle is gone: " + rest
				}
				b.do("close two")
				if ok, _, rest := a.do("load three %s", path); bad == "" && !ok {
					bad = "opening fails when the obstacle is gone, for who had failed: " + rest
				}
				a.do("close three")
			}
			if bad == "" && x.want == opens {
				if ok, locked, rest := b.do("load two %s", path); ok || !locked {
					bad = "the lock does not keep out another process: " + rest
				} else if ok, locked, rest := a.do("load three %s", path); ok || !locked {
					bad = "the lock does not keep out the same process: " + rest
				} else if ok, _, rest := a.do("close one"); !ok {
					bad = "Close fails: " + rest
				} else if ok, _, rest := b.do("load two %s", path); !ok {
					bad = "after Close, opening fails: " + rest
				} else {
					// the stale handle
					a.do("close one")
					if ok, locked, rest := a.do("load three %s", path); ok || !locked {
						bad = "a stale handle releases the lock: " + rest
					}
					b.do("close two")
				}
			}
			c.Count("transitions", 6)
			c.Count("traces_validated_against_impl", 1)
			if bad != "" {
				c.Violation("%s", bad)
			} else {
				c.Sig(x.name, cmd, ok, isLocked)
			}
			os.RemoveAll(lock)
			os.WriteFile(path, keep, 0600)
			os.WriteFile(path+".cache", keepCache, 0600)
			a.do("forget")
			b.do("forget")
		}
	}
	for _, cmd := range []string{"load", "ctr", "derive"} {
		if !c.Case("no directory, " + cmd) {
			continue
		}
		p := dir + "/no/such/key"
		ok, isLocked, rest := a.do("%s one %s other", cmd, p)
		if ok || isLocked {
			c.Violation("the lock cannot be taken, but: success %v, %s", ok, rest)
			continue
		}
		os.MkdirAll(dir+"/no/such", 0700)
		ok, _, rest = a.do("derive two %s other", p)
		if !ok {
			c.Violation("when it is possible, opening fails: %s", rest)
		}
		a.do("close two")
		os.RemoveAll(dir + "/no")
		c.Sig(cmd)
	}
}

// describe tells what is at a path.
func describe(path string) string {
	fi, err := os.Lstat(path)
	if err != nil {
		return err.Error()
	}
	s := fmt.Sprint(fi.Mode(), fi.ModTime())
	b, _ := os.ReadFile(path)
	l, _ := os.Readlink(path)
	return s + string(b) + l
}

// Simulated processes.

type procArg struct {
	P       P
	Start   uint64
	Cold    bool     `json:",omitempty"`
	Empty   bool     `json:",omitempty"`
	Threads []string // a process and its operations
	Die     int      `json:",omitempty"` // process 0 dies at this call (from 1) to the file system
}

func (a procArg) prepare() func([]int16) run {
	im := a.image()
	return func(prefix []int16) run { r, _ := a.run(im.Clone(), prefix); return r }
}

func (a procArg) image() *vfs.Image {
	switch {
	case a.Empty:
		return &vfs.Image{Files: map[string][]byte{}}
	case a.Cold || a.Start == 0:
		return fix(a.P, "").image(a.Start, 0)
	}
	return fix(a.P, "").image(a.Start-1, 1)
}

// run returns also the number of calls that process 0 made.
func (a procArg) run(im *vfs.Image, prefix []int16) (out run, calls int) {
	bad := ""
	fail := func(f string, x ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, x...)
		}
	}
	w := world(im)
	fs := w.fs
	pids := map[int]int{} // thread -> pid
	base := 1000000 + lives*10
	const np = 3
	pid := func(p int) int { return 100000 + base + p }
	path := func(p int) string { return fmt.Sprintf("/m%d/d/key", base+p) }
	lives += 2
	for p := 0; p < np; p++ {
		vlock.Alive[pid(p)] = true
	}
	dead := [np]bool{}
	fs.Pid = pid(2)
	fs.PidOf = func() int {
		if p, ok := pids[vsync.Self()]; ok {
			return p
		}
		return fs.Pid
	}
	on := false
	busy, holders, started := 0, 0, 0
	states := map[int]*int{} // of processes: 1: busy, 2: holder
	fs.Fault = func(o vfs.Op) vfs.Mode {
		if !on {
			return vfs.OK
		}
		vsync.Yield()
		p := fs.GetPid() - pid(0)
		if p < 0 || p >= np {
			return vfs.OK
		}
		if dead[p] {
			return vfs.FailBefore
		}
		if p == 0 {
			calls++
			if calls == a.Die {
				dead[p] = true
				vlock.Alive[pid(p)] = false
				if st := *states[p]; st > 0 {
					busy--
					holders -= st / 2
				}
				return vfs.FailBefore // and so will be everything it does from now on
			}
		}
		return vfs.OK
	}
	res := make([]string, len(a.Threads))
	type use struct {
		key string
		n   uint64
	}
	used := map[use]bool{}
	last := "" // the key that was made last
	high := map[string]uint64{}
	// which finds out which key it is
	which := func(sk *xmssmt.PrivateKey) string {
		pk, _ := sk.PublicKey().MarshalBinary()
		for _, k := range []string{"", "g0", "g1", "g2", "r"} {
			if bytes.Equal(pk, fix(a.P, k).Pk) {
				return k
			}
		}
		fail("the key that is opened is no key at all")
		return ""
	}
	thread := func(i int) {
		words := strings.Fields(a.Threads[i])
		var p int
		fmt.Sscan(words[0], &p)
		pids[vsync.Self()] = pid(p)
		var sk *xmssmt.PrivateKey
		var ctr xmssmt.PrivateKeyContainer
		var stale *xmssmt.PrivateKey
		key := ""
		state := 0 // 1: busy, 2: holder
		states[p] = &state
		defer func() {
			if dead[p] {
				res[i] += " died"
			}
		}()
		for _, op := range words[1:] {
			switch op[0] {
			case 'o', 'n', 'g':
				if sk != nil || ctr != nil {
					continue
				}
				others, begun := busy, started
				started++
				busy++
				state = 1
				var err xmssmt.Error
				switch op {
				case "o":
					sk, _, _, err = xmssmt.LoadPrivateKey(path(p))
					if err == nil {
						key = which(sk)
						if n := uint64(sk.SeqNo()); n < high[key] {
							fail("thread %d: SeqNo() is %d, but %d is used", i, n, high[key]-1)
						}
					}
				case "n":
					ctr, err = xmssmt.OpenFSPrivateKeyContainer(path(p))
				case "g":
					key = fmt.Sprint("g", i)
					sk, _, err = fix(a.P, key).derive(path(p))
					if err == nil {
						last = key
					}
				}
				if dead[p] {
					return
				}
				res[i] += fmt.Sprintf(" %s:%v", op, err == nil)
				if err == nil {
					if sk != nil {
						sk.Context().Threads = 1
					}
					state = 2
					holders++
					if holders > 1 {
						fail("thread %d: the key is open %d times", i, holders)
					}
					break
				}
				busy--
				state = 0
				sk, ctr = nil, nil
				if !err.Locked() {
					fail("thread %d: %s fails without reporting a lock: %v", i, op, err)
				}
				if others == 0 && started == begun+1 {
					fail("thread %d: %s fails although nobody has the key open: %v", i, op, err)
				}
			case 'S':
				if sk == nil {
					continue
				}
				sig, err := sk.Sign([]byte("m"))
				if dead[p] {
					return
				}
				if err != nil {
					fail("thread %d: Sign: %v", i, err)
					continue
				}
				n := uint64(sig.SeqNo())
				enc, _ := sig.MarshalBinary()
				if s := fix(a.P, key).right(n, "m", enc); s != "" {
					fail("thread %d: %s", i, s)
				}
				if used[use{key, n}] {
					fail("thread %d: number %d was used twice", i, n)
				}
				used[use{key, n}] = true
				high[key] = max(high[key], n+1)
				res[i] += fmt.Sprintf(" %s%d", key, n)
			case 'B':
				if sk != nil {
					if x := doOp(sk, op, ""); x.err != nil && !dead[p] {
						fail("thread %d: %s: %v", i, op, x.err)
					}
				}
			case 'r': // a new key in an open container
				if ctr != nil {
					f := fix(a.P, "r")
					if err := ctr.Reset(append(append(append([]byte(nil), f.SkSeed...), f.SkPrf...), f.PubSeed...), *paramsPtr(a.P)); err != nil {
						fail("Reset: %v", err)
					}
					last = "r"
				}
			case 'c':
				var err xmssmt.Error
				holders -= state / 2
				switch {
				case sk != nil:
					state = 1
					err = sk.Close()
				case ctr != nil:
					state = 1
					err = ctr.Close()
				default:
					continue
				}
				if dead[p] {
					return
				}
				busy--
				state = 0
				stale = sk
				sk, ctr = nil, nil
				if err != nil {
					fail("thread %d: Close: %v", i, err)
				}
			case 'z':
				if stale != nil {
					stale.Close()
				}
			}
		}
	}
	r := vsync.Run(prefix, horizon, func() {
		on = true
		var wg vsync.WaitGroup
		wg.Add(len(a.Threads))
		for i := range a.Threads {
			i := i
			vsync.Go0(func() {
				defer wg.Done()
				thread(i)
			})
		}
		wg.Wait()
		on = false
		if bad != "" {
			return
		}
		sk, _, _, err := xmssmt.LoadPrivateKey(path(2))
		if err != nil {
			if !a.Empty || last != "" {
				// a process might have died while making the key
				if !(a.Die > 0 && strings.Contains(a.Threads[0], "g")) || err.Locked() {
					fail("afterwards, the key cannot be opened: %v", err)
				}
			}
			return
		}
		sk.Context().Threads = 1
		n := uint64(sk.SeqNo())
		key := which(sk)
		if a.Die == 0 && key != last {
			fail("afterwards, the key is %q instead of %q", key, last)
		}
		if n < high[key] {
			fail("afterwards, the next number is %d, but %d is used", n, high[key]-1)
		}
		if sig, err := sk.Sign([]byte("x")); err != nil {
			fail("afterwards, Sign: %v", err)
		} else {
			enc, _ := sig.MarshalBinary()
			if s := fix(a.P, key).right(uint64(sig.SeqNo()), "x", enc); s != "" {
				fail("%s", s)
			}
		}
		sk.Close()
	})
	fs.Fault = nil
	out.res = r
	if e := r.Err(); e != "" {
		fail("%s", e)
	}
	if s := w.end(); s != "" {
		fail("%s", s)
	}
	out.sig = strings.Join(res, ";")
	if bad != "" {
		out.bad = fmt.Sprintf("%v at %d, %s: %s", a.P, a.Start, out.sig, bad)
	}
	return
}

func paramsPtr(p P) *xmssmt.Params { q := p.x(); return &q }

// c15Kill: process 0 dies at every call to the file system.
func c15Kill(c *Ctx) {
	var a procArg
	c.Arg(&a)
	im := a.image()
	_, calls := a.run(im.Clone(), nil)
	for d := 1; d <= calls; d++ {
		b := a
		b.Die = d
		c.More(schedJob("inst", "procs", 1, 0, false, b))
	}
	c.Max("kill_points", calls)
}

// c15Fault: every call fails, in turn, in opening, making and closing a key.
func c15Fault(c *Ctx) {
	f := fix(tiny(4, 2), "")
	for _, what := range []string{"load", "ctr", "derive", "close", "closeb"} {
		for n := 0; ; n++ {
			more := false
			for _, mode := range []vfs.Mode{vfs.FailBefore, vfs.Partial, vfs.FailAfter} {
				for _, all := range []bool{false, true} {
					m := c15OneFault(c, f, what, n, mode, all)
					more = more || m
				}
			}
			if !more {
				break
			}
		}
	}
}

func c15OneFault(c *Ctx, f *Fix, what string, n int, mode vfs.Mode, all bool) bool {
	if !c.Case(fmt.Sprintf("call %d in %s fails: %v, all later ones: %v", n, what, mode, all)) {
		return n < 60
	}
	im := f.image(1, 1)
	if what == "derive" && n%2 == 0 {
		im = &vfs.Image{Files: map[string][]byte{}}
	}
	w := world(im)
	vlock.Alive[w.fs.Pid] = true
	hit := false
	lockOp := false // a call of the lock failed
	on := false
	k := 0
	w.fs.Fault = func(o vfs.Op) vfs.Mode {
		if !on {
			return vfs.OK
		}
		k++
		if k-1 == n || all && k-1 > n {
			hit = true
			if o.Kind == "unlock" || o.Kind == "lock" && mode == vfs.FailAfter {
				lockOp = true
			}
			return mode
		}
		return vfs.OK
	}
	bad, sig := "", ""
	e := managed(func() {
		var err xmssmt.Error
		var sk *xmssmt.PrivateKey
		var ctr xmssmt.PrivateKeyContainer
		open := what == "close" || what == "closeb"
		if open {
			sk, _, _, err = xmssmt.LoadPrivateKey(w.path)
			must(err)
			sk.Context().Threads = 1
			if what == "closeb" {
				must(sk.BorrowExactly(3))
			}
		}
		on = true
		switch what {
		case "load":
			sk, _, _, err = xmssmt.LoadPrivateKey(w.path)
		case "ctr":
			ctr, err = xmssmt.OpenFSPrivateKeyContainer(w.path)
		case "derive":
			sk, _, err = f.derive(w.path)
		default:
			err = sk.Close()
			sk = nil
		}
		on = false
		sig = fmt.Sprint(err == nil)
		if err != nil && err.Locked() {
			bad = fmt.Sprintf("a failure is reported as a lock: %v", err)
			return
		}
		if err != nil && !open && (sk != nil || ctr != nil) {
			bad = "an error and a key"
			return
		}
		old := w.path
		other := func(what string, want bool) {
			// another process tries
			pid, path := w.fs.Pid, w.path
			w.relife()
			vlock.Alive[w.fs.Pid] = true
			c2, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
			if want && err != nil && !lockOp {
				bad = fmt.Sprintf("%s, another process cannot open the key: %v", what, err)
			} else if !want && err == nil {
				bad = what + ", another process can open the key"
			} else if !want && !err.Locked() {
				bad = fmt.Sprintf("%s, another process cannot open the key, but no lock is reported: %v", what, err)
			}
			if err == nil {
				c2.Close()
			}
			w.fs.Pid, w.path = pid, path
		}
		if err == nil && !open {
			other("while the key is open", false)
			if sk != nil {
				err = sk.Close()
			} else {
				err = ctr.Close()
			}
			if bad == "" && err != nil {
				bad = fmt.Sprintf("Close: %v", err)
			}
		}
		if bad == "" {
			other("after a failed open or Close", true)
		}
		if bad == "" {
			c3, err := xmssmt.OpenFSPrivateKeyContainer(old)
			if err != nil && err.Locked() {
				bad = fmt.Sprintf("afterwards, the same process finds the key locked: %v", err)
			} else if err == nil {
				other("when open again", false)
				c3.Close()
			} else if len(im.Files) > 0 && !lockOp && what != "derive" {
				bad = fmt.Sprintf("afterwards, the key cannot be opened: %v", err)
			}
		}
	})
	c.Count("transitions", 4)
	c.Count("traces_validated_against_impl", 1)
	w.fs.Fault = nil
	if e == "" {
		e = w.end()
	} else {
		w.end()
	}
	if bad == "" {
		bad = e
	}
	if bad != "" {
		c.Violation("%s", bad)
	} else {
		c.Sig(what, n, mode, all, sig)
	}
	return hit
}
