//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"io"
	goLog "log"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vos"
	"github.com/bwesterb/go-xmssmt/internal/verif/vrand"
)

// Secrets stay in the key file, and files stay private (C26).
//
// After every change to the file system in a history - with every
// environment call failing in every way - all files are searched for the
// secret seeds; so is everything the library returns, logs or prints.

type secretArg struct {
	P      P
	Start  uint64
	Warm   int    `json:",omitempty"`
	Disk   string `json:",omitempty"` // as in faultArg
	Create string `json:",omitempty"` // derive, generate; otherwise the key is loaded
	Ops    string
	Len    int
	First  string `json:",omitempty"` // the first operation
	Faults bool
}

// secrets finds pieces of secrets.
type secrets struct {
	raw  map[uint64]string // pieces of 8 bytes
	text map[string]bool   // pieces in text
}

func newSecrets(names []string, vals [][]byte) *secrets {
	s := &secrets{raw: map[uint64]string{}, text: map[string]bool{}}
	for i, v := range vals {
		for o := 0; o+8 <= len(v); o++ {
			s.raw[binary.BigEndian.Uint64(v[o:])] = names[i]
		}
		texts(v, func(t string) { s.text[t] = true })
	}
	return s
}

// texts calls f with ways to write pieces of v.
func texts(v []byte, f func(string)) {
	for o := 0; o+8 <= len(v); o++ {
		x := v[o : o+8]
		h := fmt.Sprintf("%x", x)
		f(h)
		f(strings.ToUpper(h))
		f(fmt.Sprintf("% x", x))
		f(strings.Trim(fmt.Sprint(x), "[]"))
		f(strings.TrimSuffix(strings.TrimPrefix(fmt.Sprintf("%#v", x), "[]byte{"), "}"))
		f(strings.Trim(fmt.Sprintf("%q", x), `"`))
		if o+9 <= len(v) {
			f(base64.StdEncoding.EncodeToString(v[o : o+9]))
			f(base64.URLEncoding.EncodeToString(v[o : o+9]))
		}
	}
}

// forget takes what is in b out.
func (s *secrets) forget(b []byte) {
	for o := 0; o+8 <= len(b); o++ {
		delete(s.raw, binary.BigEndian.Uint64(b[o:]))
	}
	texts(b, func(t string) { delete(s.text, t) })
}

func (s *secrets) in(b []byte) string {
	if len(b) < 8 {
		return ""
	}
	x := binary.BigEndian.Uint64(b) >> 8
	for _, c := range b[7:] {
		x = x<<8 | uint64(c)
		if n, ok := s.raw[x]; ok {
			return n
		}
	}
	return ""
}

func (s *secrets) inText(t string) string {
	if n := s.in([]byte(t)); n != "" {
		return n
	}
	for p := range s.text {
		if strings.Contains(t, p) {
			return "a secret seed, written " + p
		}
	}
	return ""
}

type logTo struct{ w io.Writer }

func (l logTo) Logf(f string, a ...interface{}) { fmt.Fprintf(l.w, f+"\n", a...) }

// captured runs f and returns what it prints.
func captured(own bool, f func()) string {
	var logs bytes.Buffer
	tmp, err := os.CreateTemp(os.Getenv("HX_WORK"), "out")
	if err != nil {
		panic(err)
	}
	os.Remove(tmp.Name())
	so, se := os.Stdout, os.Stderr
	os.Stdout, os.Stderr, vos.Stdout, vos.Stderr = tmp, tmp, tmp, tmp
	goLog.SetOutput(&logs)
	if own {
		xmssmt.SetLogger(logTo{&logs})
	} else {
		xmssmt.EnableLogging()
	}
	defer func() {
		os.Stdout, os.Stderr, vos.Stdout, vos.Stderr = so, se, so, se
		goLog.SetOutput(os.Stderr)
		xmssmt.SetLogger(nil)
		tmp.Close()
	}()
	f()
	if n, _ := tmp.Seek(0, 1); n > 0 {
		b := make([]byte, n)
		tmp.ReadAt(b, 0)
		logs.Write(b)
	}
	return logs.String()
}

var secretLog bytes.Buffer

var secretMemo = map[*Fix]*secrets{}

// watchSecrets watches files and the log during a schedule.
func watchSecrets(f *Fix, w *World, find func(tag, f string, x ...any)) (end func()) {
	sec := secretMemo[f]
	if sec == nil {
		sec = newSecrets([]string{"skSeed", "skPrf"}, [][]byte{f.SkSeed, f.SkPrf})
		secretMemo[f] = sec
	}
	secretLog.Reset()
	xmssmt.SetLogger(logTo{&secretLog})
	w.fs.OnChange = func() {
		w.fs.Walk(func(name string, perm os.FileMode, data []byte) {
			if perm&077 != 0 {
				find("secret", "%s can be accessed by others (mode %o)", name, perm)
			}
			if strings.HasSuffix(name, ".cache") || strings.HasSuffix(name, ".lock") {
				if n := sec.in(data); n != "" {
					find("secret", "%s contains %s", name, n)
				}
			}
		})
	}
	return func() {
		w.fs.OnChange = nil
		if n := sec.inText(secretLog.String()); n != "" {
			find("secret", "the log contains %s:\n%.600s", n, secretLog.String())
		}
	}
}

func (a *secretArg) run(f *Fix, im *vfs.Image, ops []string, ft *fault) (bad string, log []vfs.Op, sig string) {
	var x *vfs.Image
	if im != nil {
		x = dropLock(im.Clone())
	}
	w := world(x)
	w.fs.KeepLog = true
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	names := []string{"skSeed", "skPrf", "skSeed of the earlier key", "skPrf of the earlier key"}
	old := fix(a.P, "old")
	vals := [][]byte{f.SkSeed, f.SkPrf, old.SkSeed, old.SkPrf}
	if a.Create == "generate" {
		// Whatever the random source returns is secret, except for the
		// public seed, which the public key will reveal.
		r := make([]byte, 12*a.P.N)
		vrand.Reset(1)
		vrand.Read(r)
		vrand.Reset(1)
		names[0], vals[0], vals[1] = "randomness of the key", r, nil
	}
	sec := newSecrets(names, vals)
	state := uint64(0)
	check := func(rest bool) {
		w.fs.Walk(func(name string, perm os.FileMode, data []byte) {
			if perm&077 != 0 {
				fails("%s can be accessed by others (mode %o)", name, perm)
			}
			if name == vfs.Dir+"/key" {
				return
			}
			if rest || strings.HasSuffix(name, ".cache") || strings.HasSuffix(name, ".lock") {
				if n := sec.in(data); n != "" {
					fails("%s contains %s", name, n)
				} else if n := sec.inText(string(data)); len(data) < 4096 && n != "" {
					fails("%s contains %s", name, n)
				}
			}
			state = state*31 + uint64(len(data))
		})
	}
	w.fs.OnChange = func() { check(false) }
	if ft != nil {
		w.fs.Fault = func(o vfs.Op) vfs.Mode {
			if o.N == ft.n {
				return ft.mode
			}
			return vfs.OK
		}
	}
	var said []string
	say := func(f string, v ...any) { said = append(said, fmt.Sprintf(f, v...)) }
	errs := func(err xmssmt.Error) {
		if err != nil {
			say("%s %v %+v", err.Error(), err, err)
			if err.Inner() != nil {
				say("%s", err.Inner().Error())
			}
		}
	}
	out := func(what string, b []byte, err error) {
		if err != nil {
			say("%v", err)
		}
		if n := sec.in(b); n != "" {
			fails("%s contains %s", what, n)
		}
		say("%s", b)
	}
	see := func(pk *xmssmt.PublicKey, s *xmssmt.Signature) {
		if pk != nil {
			b, err := pk.MarshalBinary()
			out("the public key", b, err)
			b, err = pk.MarshalText()
			out("the public key in text", b, err)
			say("%v %+v %s", pk, pk, pk.Context().Name())
		}
		if s != nil {
			b, err := s.MarshalBinary()
			out("a signature", b, err)
			say("%v %s", s, s.String())
		}
	}
	var e string
	clean := true
	printed := captured(len(ops)%2 == 0, func() {
		e = managed(func() {
			var sk *xmssmt.PrivateKey
			var pk *xmssmt.PublicKey
			var err xmssmt.Error
			for try := 0; try < 2 && sk == nil; try++ {
				switch a.Create {
				case "derive":
					sk, pk, err = f.derive(w.path)
				case "generate":
					ctx, err2 := xmssmt.NewContext(a.P.x())
					if err2 != nil {
						fails("%v", err2)
						return
					}
					vrand.Reset(1)
					sk, pk, err = ctx.GenerateKeyPair(w.path)
					if err == nil {
						b, _ := pk.MarshalBinary()
						sec.forget(b)
					}
				default:
					sk, pk, _, err = xmssmt.LoadPrivateKey(w.path)
				}
				errs(err)
				clean = clean && err == nil
				if err != nil {
					sk = nil
				}
			}
			if sk == nil {
				return
			}
			sk.Context().Threads = 1
			see(pk, nil)
			closed := false
			for _, op := range ops {
				switch op {
				case "C":
					err := sk.Close()
					errs(err)
					clean = clean && err == nil
					closed = true
				case "L":
					if !closed {
						errs(sk.Close())
					}
					s2, p2, _, err := xmssmt.LoadPrivateKey(w.path)
					errs(err)
					if err == nil {
						sk, closed = s2, false
						sk.Context().Threads = 1
						see(p2, nil)
					}
				case "2": // load it while it is open
					_, _, _, err := xmssmt.LoadPrivateKey(w.path)
					errs(err)
				case "W": // the convenience function
					if !closed {
						errs(sk.Close())
						closed = true
					}
					b, err := xmssmt.Sign(w.path, []byte("w"))
					errs(err)
					out("a signature", b, nil)
				case "T8", "T20", "T36", "T44", "T52", "T60", "T76", "T83": // the key file cut off
					if !closed {
						errs(sk.Close())
						closed = true
					}
					key := w.fs.Image().Files[vfs.Dir+"/key"]
					n := 0
					fmt.Sscan(op[1:], &n)
					if n > len(key) {
						break
					}
					w.fs.WriteRaw(vfs.Dir+"/key", key[:n])
					s2, _, _, err := xmssmt.LoadPrivateKey(w.path)
					errs(err)
					if err == nil {
						fails("a key file cut off after %d bytes is loaded", n)
						errs(s2.Close())
					}
					w.fs.WriteRaw(vfs.Dir+"/key", key)
				case "X": // leave marks of a crash: a temporary file
					im := w.fs.Image()
					w.fs.WriteRaw(vfs.Dir+"/key.tmp", im.Files[vfs.Dir+"/key"][:20])
				default:
					r := doOp(sk, op, "m"+op)
					errs(r.err)
					clean = clean && r.err == nil
					see(nil, r.sig)
				}
				check(false)
			}
			if !closed {
				err := sk.Close()
				errs(err)
				clean = clean && err == nil
			}
		})
	})
	w.fs.Fault = nil
	check(clean && ft == nil)
	log = append([]vfs.Op(nil), w.fs.Log...)
	said = append(said, printed, e)
	for _, t := range said {
		if n := sec.inText(t); n != "" {
			fails("what is logged, printed or returned contains %s:\n%.600s", n, t)
		}
	}
	if e != "" {
		fails("%s", e)
	}
	if m := w.end(); m != "" {
		fails("%s", m)
	}
	sig = fmt.Sprint(len(log), state, hashStr(printed), clean)
	return
}

func init() {
	handle("secret", func(c *Ctx) {
		var a secretArg
		c.Arg(&a)
		f := fix(a.P, "")
		fa := faultArg{P: a.P, Start: a.Start, Warm: a.Warm, Disk: a.Disk}
		im := fa.image(f)
		n := a.Len
		var first []string
		if a.First != "" {
			first = []string{a.First}
			n--
		}
		seqs(strings.Fields(a.Ops), n, func(rest []string) bool {
			ops := append(append([]string(nil), first...), rest...)
			if c.Stop() {
				return false
			}
			name := fmt.Sprintf("%v from %d+%d %s %s: %s", a.P, a.Start, a.Warm, a.Disk, a.Create, strings.Join(ops, " "))
			done := func(n string, bad string, log []vfs.Op, sig string) bool {
				c.Count("transitions", len(log))
				c.Count("traces_validated_against_impl", 1)
				c.Count("histories", 1)
				if bad != "" {
					c.Violation("%s\n%s", n, bad)
					return false
				}
				c.SigHash(hashStr(n, sig))
				c.Sample("%s: %d calls to the environment", n, len(log))
				return true
			}
			bad, log, sig := a.run(f, im, ops, nil)
			if c.Case(name) && !done(name, bad, log, sig) || bad != "" || !a.Faults {
				return true
			}
			for _, o := range log {
				for _, m := range faultModes {
					if c.Stop() {
						return false
					}
					ft := &fault{n: o.N, mode: m}
					n := fmt.Sprintf("%s, %v of %v", name, ft, o)
					if !c.Case(n) {
						continue
					}
					bad, l, sig := a.run(f, im, ops, ft)
					if !done(n, bad, l, sig) {
						return true
					}
				}
			}
			return true
		})
	})
	handle("modes", func(c *Ctx) { // real files
		var a secretArg
		c.Arg(&a)
		f := fix(a.P, "")
		defer syscall.Umask(syscall.Umask(0))
		seqs(strings.Fields(a.Ops), a.Len, func(ops []string) bool {
			if c.Stop() {
				return false
			}
			name := fmt.Sprintf("real files, %v: derive, %s", a.P, strings.Join(ops, " "))
			if !c.Case(name) {
				return true
			}
			dir, err := os.MkdirTemp(os.Getenv("HX_WORK"), "modes")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			sec := newSecrets([]string{"skSeed", "skPrf"}, [][]byte{f.SkSeed, f.SkPrf})
			bad, sig := "", ""
			look := func(after string) {
				files, _ := os.ReadDir(dir)
				for _, e := range files {
					i, err := e.Info()
					if err != nil {
						continue
					}
					if i.Mode().Perm()&077 != 0 && bad == "" {
						bad = fmt.Sprintf("after %s, %s can be accessed by others (mode %o)", after, e.Name(), i.Mode().Perm())
					}
					if e.Name() != "key" && bad == "" {
						b, _ := os.ReadFile(filepath.Join(dir, e.Name()))
						if n := sec.in(b); n != "" {
							bad = fmt.Sprintf("after %s, %s contains %s", after, e.Name(), n)
						}
					}
					sig += fmt.Sprint(e.Name(), i.Mode(), i.Size(), " ")
				}
			}
			path := filepath.Join(dir, "key")
			sk, _, err2 := f.derive(path)
			if err2 != nil {
				c.Violation("%s\n%v", name, err2)
				return true
			}
			look("derive")
			closed := false
			for _, op := range ops {
				switch op {
				case "L":
					if !closed {
						sk.Close()
					}
					s2, _, _, err := xmssmt.LoadPrivateKey(path)
					if err != nil {
						bad = "loading fails: " + err.Error()
					} else {
						sk, closed = s2, false
						sk.Context().Threads = 1
					}
				case "C":
					sk.Close()
					closed = true
				default:
					doOp(sk, op, "m")
				}
				look(op)
			}
			if !closed {
				sk.Close()
				look("Close")
			}
			if bad != "" {
				c.Violation("%s\n%s", name, bad)
				return true
			}
			c.Count("traces_validated_against_impl", 1)
			c.Count("transitions", len(ops)+1)
			c.SigHash(hashStr(name, sig))
			return true
		})
	})
	register(&Check{
		ID: "C26", Level: "model_checking", Budget: [2]int{300, 3300},
		Rule:        "all histories of creating, loading, signing, reserving, precomputing, closing and loading again (also while open) up to the stated length, each without failures and with every call to the environment failing in every way; after every change to the file system every file's permissions are checked and every file but the key file and its temporary copy is searched for 8-byte pieces of the secret seeds, as is everything returned, logged (through both loggers) or printed, in binary, hexadecimal, decimal and base64; schedules of two signers with caches missing or damaged are watched the same way; distinct = distinct (history, failure, outcome)",
		Assumptions: append([]string{"permissions are those given when a file is created or changed, under the umask 022 (real files: 0)"}, lifeAssume...),
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(a secretArg) {
				js = append(js, mkjob("inst", "secret", func() secretArg { b := a; b.Len = 0; return b }()))
				for _, o := range strings.Fields(a.Ops) {
					b := a
					b.First = o
					js = append(js, mkjob("inst", "secret", b))
				}
			}
			const all = "S B2 P C L 2 W X"
			d := 0
			if t.Thorough {
				d = 1
			}
			add(secretArg{P: tiny(2, 2), Ops: all, Len: 3 + d, Faults: false})
			add(secretArg{P: tiny(2, 2), Create: "derive", Ops: all, Len: 2 + d, Faults: true})
			add(secretArg{P: tiny(2, 2), Create: "generate", Ops: "S L B2", Len: 2 + d, Faults: true})
			add(secretArg{P: tiny(2, 2), Disk: "other", Create: "derive", Ops: "S L", Len: 1 + d, Faults: true})
			add(secretArg{P: tiny(2, 2), Disk: "other", Create: "generate", Ops: "S", Len: 1 + d, Faults: true})
			add(secretArg{P: tiny(2, 2), Start: 1, Ops: all, Len: 2 + d, Faults: true})
			add(secretArg{P: tiny(3, 3), Start: 3, Disk: "nocache", Ops: "S P L", Len: 2 + d, Faults: true})
			add(secretArg{P: tiny(3, 3), Start: 4, Ops: "S P L", Len: 1 + d, Faults: true})
			add(secretArg{P: P{1, 32, 2, 1, 16, false}, Start: 2, Ops: "S L P C", Len: 3, Faults: false})
			add(secretArg{P: P{2, 24, 2, 2, 4, true}, Create: "derive", Ops: "S L P C", Len: 2, Faults: false})
			add(secretArg{P: P{0, 64, 2, 2, 16, false}, Create: "generate", Ops: "S L P C", Len: 2, Faults: false})
			add(secretArg{P: tiny(2, 2), Ops: "T8 T20 T36 T44 T52 T60 T76 T83", Len: 1, Faults: true})
			for _, dmg := range [][]string{nil, {"0/0"}, {"0/0", "1/0", "2/0"}} {
				js = append(js, concJobs("secret", 1+d, 2+d, "inst", concArg{P: tiny(3, 3), Damage: dmg, Threads: []string{"S", "S"}})...)
			}
			js = append(js, concJobs("secret", 1+d, 1+d, "inst", concArg{P: tiny(2, 2), Start: 1, Pre: "P", Threads: []string{"S", "S C"}})...)
			js = append(js, mkjob("plain", "modes", secretArg{P: tiny(2, 2), Ops: "S B2 P L C", Len: 3 + d}))
			return js
		},
	})
}
