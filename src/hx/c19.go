//go:build go1.21

package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
)

// C19: streaming and in-memory signing agree.

type c19Job struct {
	P    P
	Part string // "split", "err", "kinds", "fail", "long"
	Len  int
	Lo   int    `json:",omitempty"`
	Hi   int    `json:",omitempty"`
	Ops  string `json:",omitempty"`
	Few  bool   `json:",omitempty"` // fewer kinds of errors
}

func init() {
	register(&Check{
		ID: "C19", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "every way for a reader to hand out a message of up to the stated length: all compositions into reads, with empty reads in every place, the end reported with or after the last piece, and a failure of every kind after every piece (with or after it), on the real SignFrom and VerifyFrom; all kinds of readers for lengths around every block size; all short histories of signing, failing, nested signing, reserving, closing, reloading and crashing; an outcome is a signature, a verdict or a refused attempt",
		Assumptions: []string{"readers follow the contract of io.Reader"},
		Plan:        c19Plan,
	})
	handle("c19", c19Run)
}

func c19Sets(t Tier) []P {
	ps := []P{{0, 16, 6, 3, 4, false}, {1, 16, 6, 3, 4, false}, {0, 32, 6, 3, 4, false}, {2, 24, 6, 3, 4, true},
		{0, 64, 4, 2, 4, false}, {1, 64, 4, 2, 4, false}, {1, 32, 6, 3, 4, true}, {0, 24, 6, 3, 4, true}, {2, 32, 6, 3, 4, false}}
	return ps
}

func c19Plan(t Tier) []Job {
	var js []Job
	add := func(j c19Job) { js = append(js, mkjob("plain", "c19", j)) }
	for i, p := range c19Sets(t) {
		max := 4
		if i < 2 {
			max = 8
		}
		if t.Thorough {
			max += 3
		}
		for l := 0; l <= max; l++ {
			n := 1
			if l > 0 {
				n = 1 << uint(l-1)
			}
			step := 16
			for lo := 0; lo < n; lo += step {
				hi := lo + step
				if hi > n {
					hi = n
				}
				add(c19Job{P: p, Part: "split", Len: l, Lo: lo, Hi: hi})
				if l <= 3 && i < 2 || l <= 5 && i < 1 || t.Thorough {
					add(c19Job{P: p, Part: "err", Len: l, Lo: lo, Hi: hi})
				}
			}
		}
		for k := 0; k < len(c19Lens); k += 4 {
			add(c19Job{P: p, Part: "kinds", Lo: k, Hi: k + 4, Few: i > 1 && !t.Thorough})
		}
	}
	for _, p := range []P{{0, 16, 6, 3, 4, false}, {0, 64, 4, 2, 4, false}, {1, 32, 6, 3, 4, true}, {2, 24, 6, 3, 4, true}} {
		for l := 17; l <= 24; l++ {
			add(c19Job{P: p, Part: "long", Len: l})
		}
	}
	add(c19Job{P: P{0, 16, 6, 3, 4, false}, Part: "long", Len: 31})
	add(c19Job{P: P{0, 16, 6, 3, 4, false}, Part: "long", Len: 32})
	if t.Thorough {
		add(c19Job{P: P{0, 64, 4, 2, 4, false}, Part: "long", Len: 32})
		add(c19Job{P: P{1, 16, 6, 3, 4, false}, Part: "long", Len: 32})
		add(c19Job{P: P{2, 32, 6, 3, 4, true}, Part: "long", Len: 32})
		add(c19Job{P: P{0, 16, 6, 3, 4, false}, Part: "long", Len: 33})
	}
	p := P{0, 16, 8, 4, 4, false}
	n := 4
	if t.Thorough {
		n = 5
	}
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if k == 2 {
			add(c19Job{P: p, Part: "fail", Len: n, Ops: s})
			return
		}
		for _, o := range c19Ops {
			rec(strings.TrimSpace(s+" "+o), k+1)
		}
	}
	rec("", 0)
	return js
}

// S sign, F fail at once, G fail after data, N fail after another Sign from
// inside the reader, B reserve, R close and reload, K crash and reload.
var c19Ops = []string{"S", "F", "G", "N", "n", "B0", "B1", "B3", "R", "K"}

var c19Lens = []int{0, 1, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 135, 136, 137, 167, 168, 169, 511, 512, 513,
	4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 100000}

type c19Err struct {
	name string
	err  error
}

type eofLike struct{}

func (eofLike) Error() string { return "EOF" }

type isEOF struct{}

func (isEOF) Error() string        { return "the connection was lost" }
func (isEOF) Is(target error) bool { return target == io.EOF }
func (isEOF) Temporary() bool      { return true }
func (isEOF) Timeout() bool        { return true }

type nilErr struct{}

func (*nilErr) Error() string { return "a nil pointer as an error" }

var c19Errs = []c19Err{
	{"custom", errors.New("the reader failed")},
	{"unexpected EOF", io.ErrUnexpectedEOF},
	{"closed pipe", io.ErrClosedPipe},
	{"no progress", io.ErrNoProgress},
	{"short write", io.ErrShortWrite},
	{"short buffer", io.ErrShortBuffer},
	{"wrapped EOF", fmt.Errorf("lost: %w", io.EOF)},
	{"like EOF", eofLike{}},
	{"is EOF", isEOF{}},
	{"joined EOF", errors.Join(io.EOF, errors.New("more"))},
	{"nil pointer", (*nilErr)(nil)},
	{"closed file", os.ErrClosed},
	{"deadline", os.ErrDeadlineExceeded},
	{"canceled", context.Canceled},
	{"EINTR", syscall.EINTR},
	{"EAGAIN", syscall.EAGAIN},
	{"path error", &os.PathError{Op: "read", Path: "x", Err: syscall.EIO}},
	{"buffer full", bufio.ErrBufferFull},
	{"long line", bufio.ErrTooLong},
	{"not exist", os.ErrNotExist},
}

// script is a reader that follows a script.
type script struct {
	data     []byte
	parts    []int // sizes of reads
	end      error
	with     bool // the end comes with the last part
	scribble bool
	onRead   func()
	i        int
	off      int
}

func (s *script) Read(p []byte) (int, error) {
	if s.onRead != nil {
		s.onRead()
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.scribble {
		for i := range p {
			p[i] = 0x5a
		}
	}
	if s.i >= len(s.parts) {
		return 0, s.end
	}
	n := s.parts[s.i]
	m := copy(p[:min(n, len(p))], s.data[s.off:s.off+n])
	s.off += m
	if m < n {
		s.parts = append([]int(nil), s.parts...)
		s.parts[s.i] -= m
		return m, nil
	}
	s.i++
	if s.i == len(s.parts) && s.with {
		return m, s.end
	}
	return m, nil
}

// writerTo is a reader that can also write by itself.
type writerTo struct {
	data []byte
	step int
	err  error
}

func (w *writerTo) Read(p []byte) (int, error) {
	if len(w.data) == 0 {
		if w.err != nil {
			return 0, w.err
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), w.step)], w.data)
	w.data = w.data[n:]
	return n, nil
}

func (w *writerTo) WriteTo(o io.Writer) (int64, error) {
	var t int64
	buf := make([]byte, w.step)
	for len(w.data) > 0 {
		k := copy(buf, w.data)
		n, err := o.Write(buf[:k])
		for i := range buf {
			buf[i] = 0xa5
		}
		t += int64(n)
		w.data = w.data[n:]
		if err != nil {
			return t, err
		}
	}
	return t, w.err
}

// signer hands out keys that still can sign.
type signer struct {
	f   *Fix
	sk  *xmssmt.PrivateKey
	pk  *xmssmt.PublicKey
	m   *memCtr
	sig *xmssmt.Signature // on data
	on  string
}

func (s *signer) get() *xmssmt.PrivateKey {
	if s.sk != nil && uint64(s.sk.SeqNo())+8 < s.f.max() {
		return s.sk
	}
	sk, pk, m, err := s.f.deriveMem(1)
	if err != nil {
		panic(err)
	}
	s.sk, s.pk, s.m = sk, pk, m
	return sk
}

// genuine returns a genuine signature on a message, and the public key.
func (s *signer) genuine(msg string) (*xmssmt.Signature, *xmssmt.PublicKey) {
	if s.sig == nil || s.on != msg {
		s.on = msg
		s.sig = new(xmssmt.Signature)
		if err := s.sig.UnmarshalBinary(s.f.want(1, msg)); err != nil {
			panic(err)
		}
	}
	if s.pk == nil {
		s.pk = new(xmssmt.PublicKey)
		if err := s.pk.UnmarshalBinary(s.f.Pk); err != nil {
			panic(err)
		}
	}
	return s.sig, s.pk
}

// good signs and verifies from readers that do not fail.
func (s *signer) good(c *Ctx, msg string, mk func() io.Reader) {
	sk := s.get()
	n := uint64(sk.SeqNo())
	sig, err := sk.SignFrom(mk())
	if err != nil || sig == nil {
		c.Violation("SignFrom fails: %v", err)
		return
	}
	if uint64(sig.SeqNo()) != n {
		c.Violation("SignFrom used number %d instead of %d", sig.SeqNo(), n)
		return
	}
	enc, err2 := sig.MarshalBinary()
	if err2 != nil {
		c.Violation("MarshalBinary: %v", err2)
		return
	}
	if m := s.f.right(n, msg, enc); m != "" {
		c.Violation("%s", m)
		return
	}
	gs, pk := s.genuine(msg)
	if ok, err := pk.VerifyFrom(gs, mk()); !ok || err != nil {
		c.Violation("VerifyFrom rejects a genuine signature: %v %v", ok, err)
	}
	c.Sig("good", n%4, len(msg), c.cur)
}

// otherMsg verifies from readers of another message.
func (s *signer) other(c *Ctx, msg string, mk func() io.Reader) {
	gs, pk := s.genuine(msg)
	if ok, err := pk.VerifyFrom(gs, mk()); ok || err == nil {
		c.Violation("VerifyFrom accepts another message: %v %v", ok, err)
	}
}

// bad signs and verifies from readers that fail.
func (s *signer) bad(c *Ctx, msg string, mk func(onRead func()) io.Reader) {
	sk := s.get()
	n := uint64(sk.SeqNo())
	took := n
	sig, err := sk.SignFrom(mk(func() {
		if k := uint64(sk.SeqNo()); k > took {
			took = k
		}
	}))
	if err == nil || sig != nil {
		c.Violation("SignFrom of a failing reader returns %v, %v", sig != nil, err)
		return
	}
	if k := uint64(sk.SeqNo()); k < took {
		c.Violation("while the message was read, SeqNo() was %d, afterwards it is %d", took, k)
		return
	}
	if k := uint64(s.m.seqNo); k < took {
		c.Violation("after the failure, the stored sequence number is %d instead of %d", k, took)
		return
	}
	sig, err = sk.Sign([]byte("next"))
	if err != nil || uint64(sig.SeqNo()) < took {
		c.Violation("after the failure, Sign used number %v instead of %d: %v", sig, took, err)
		return
	}
	if enc, _ := sig.MarshalBinary(); enc != nil {
		if m := s.f.right(uint64(sig.SeqNo()), "next", enc); m != "" {
			c.Violation("after the failure: %s", m)
			return
		}
	}
	if u := sk.UnretiredSeqNos(); u != 0 {
		c.Violation("after the failure, UnretiredSeqNos() is %d", u)
		return
	}
	gs, pk := s.genuine(msg)
	if ok, err := pk.VerifyFrom(gs, mk(nil)); ok || err == nil {
		c.Violation("VerifyFrom of a failing reader returns %v, %v", ok, err)
		return
	}
	c.Sig("bad", c.cur)
}

func c19Msg(l int) string {
	b := make([]byte, l)
	for i := range b {
		b[i] = byte(i*7 + i/256 + 3)
	}
	return string(b)
}

// splits lists the reads for a composition: bit i set if there is a boundary
// after byte i.
func splits(l, bits int) []int {
	var parts []int
	last := 0
	for i := 1; i < l; i++ {
		if bits>>uint(i-1)&1 == 1 {
			parts = append(parts, i-last)
			last = i
		}
	}
	if l > 0 {
		parts = append(parts, l-last)
	}
	return parts
}

func insert(p []int, i int, xs ...int) []int {
	q := append([]int(nil), p[:i]...)
	q = append(q, xs...)
	return append(q, p[i:]...)
}

func c19Run(c *Ctx) {
	var a c19Job
	c.Arg(&a)
	f := fix(a.P, "c19")
	s := &signer{f: f}
	switch a.Part {
	case "split":
		msg := c19Msg(a.Len)
		for bits := a.Lo; bits < a.Hi; bits++ {
			base := splits(a.Len, bits)
			var ways [][]int
			ways = append(ways, base)
			for i := 0; i <= len(base); i++ {
				ways = append(ways, insert(base, i, 0), insert(base, i, 0, 0))
			}
			all := base
			for i := len(base); i >= 0; i-- {
				all = insert(all, i, 0)
			}
			ways = append(ways, all)
			for _, w := range ways {
				for v := 0; v < 4; v++ {
					if c.Stop() {
						return
					}
					with, scr := v&1 == 1, v&2 == 2
					if with && len(w) == 0 {
						continue
					}
					if !c.Case(fmt.Sprintf("%v: reads %v, end with the last one: %v, scribbling: %v", a.P, w, with, scr)) {
						continue
					}
					s.good(c, msg, func() io.Reader {
						return &script{data: []byte(msg), parts: w, end: io.EOF, with: with, scribble: scr}
					})
				}
			}
			// Another message of the same shape, with parts missing or swapped.
			for i := range base {
				if c.Stop() {
					return
				}
				off := 0
				for _, n := range base[:i] {
					off += n
				}
				if c.Case(fmt.Sprintf("%v: reads %v without the %dth", a.P, base, i)) {
					s.other(c, msg, func() io.Reader {
						d := msg[:off] + msg[off+base[i]:]
						return &script{data: []byte(d), parts: append(append([]int(nil), base[:i]...), base[i+1:]...), end: io.EOF}
					})
				}
				if c.Case(fmt.Sprintf("%v: reads %v with the %dth twice", a.P, base, i)) {
					s.other(c, msg, func() io.Reader {
						d := msg[:off+base[i]] + msg[off:]
						return &script{data: []byte(d), parts: insert(base, i, base[i]), end: io.EOF}
					})
				}
			}
		}
	case "err":
		msg := c19Msg(a.Len)
		for bits := a.Lo; bits < a.Hi; bits++ {
			base := splits(a.Len, bits)
			for k := 0; k <= len(base); k++ {
				if bits != a.Lo && k < len(base)-1 && a.Len > 3 && !c.Tier.Thorough && k%2 == 1 {
					continue // the same reads as another composition's
				}
				for ei, e := range c19Errs {
					for v := 0; v < 4; v++ {
						if c.Stop() {
							return
						}
						with, zero := v&1 == 1, v&2 == 2
						if with && (k == 0 || zero) {
							continue
						}
						if ei > 2 && zero {
							continue
						}
						if !c.Case(fmt.Sprintf("%v: reads %v, then error %q (with the last read: %v, after an empty one: %v)", a.P, base[:k], e.name, with, zero)) {
							continue
						}
						s.bad(c, msg, func(onRead func()) io.Reader {
							w := base[:k:k]
							if zero {
								w = append(w, 0)
							}
							return &script{data: []byte(msg), parts: w, end: e.err, with: with, onRead: onRead}
						})
					}
				}
			}
		}
	case "kinds":
		for i := a.Lo; i < a.Hi && i < len(c19Lens); i++ {
			c19Kinds(c, a, s, c19Lens[i])
		}
	case "fail":
		c19Fail(c, a)
	case "long":
		c19Long(c, a, s)
	}
}

// longMsg is a reader of a long message: zeros, but for its start and its last
// byte.
type longMsg struct {
	n, off int64
	last   byte
	step   int
}

func (r *longMsg) Read(p []byte) (int, error) {
	if r.off == r.n {
		return 0, io.EOF
	}
	if len(p) > r.step {
		p = p[:r.step]
	}
	if int64(len(p)) > r.n-r.off {
		p = p[:r.n-r.off]
	}
	clear(p)
	if r.off == 0 && len(p) > 0 {
		p[0] = 'L'
	}
	r.off += int64(len(p))
	if r.off == r.n && len(p) > 0 {
		p[len(p)-1] = r.last
	}
	return len(p), nil
}

// c19Long has messages whose lengths are around 2^a.Len.
func c19Long(c *Ctx, a c19Job, s *signer) {
	f := s.f
	small := a.Len <= 24
	for _, d := range []int64{1, 0, -1} {
		if !small && d != 1 {
			continue
		}
		l := int64(1)<<uint(a.Len) + d
		if !c.Case(fmt.Sprintf("%s/long/%d", a.P, l)) {
			continue
		}
		mk := func(n int64, last byte) io.Reader {
			return &longMsg{n: n, last: last, step: 1 << 20}
		}
		name := fmt.Sprintf("long message of %d bytes", l)
		ref.MsgFrom = func(msg []byte) io.Reader {
			if string(msg) == name {
				return &longMsg{n: l, last: 1, step: 1 << 16}
			}
			return nil
		}
		sk := s.get()
		n := uint64(sk.SeqNo())
		sig, err := sk.SignFrom(mk(l, 1))
		if err != nil || sig == nil {
			c.Violation("SignFrom fails on a message of %d bytes: %v", l, err)
			ref.MsgFrom = nil
			continue
		}
		enc, _ := sig.MarshalBinary()
		if m := f.right(n, name, enc); m != "" {
			c.Violation("message of %d bytes: %s", l, m)
		}
		if ok, err := s.pk.VerifyFrom(sig, mk(l, 1)); !ok || err != nil {
			c.Violation("VerifyFrom rejects the signature on a message of %d bytes: %v %v", l, ok, err)
		}
		if ok, _ := s.pk.VerifyFrom(sig, mk(l, 2)); ok {
			c.Violation("VerifyFrom accepts a message of %d bytes that differs from the one signed in the last", l)
		}
		c.Sig("long", l, a.P)
		if small {
			msg := make([]byte, l)
			msg[0], msg[l-1] = 'L', 1
			if ok, err := s.pk.VerifyFrom(sig, bytes.NewReader(msg)); !ok || err != nil {
				c.Violation("VerifyFrom rejects the signature on a message of %d bytes from a bytes.Reader: %v %v", l, ok, err)
			}
			if ok, err := s.pk.Verify(sig, msg); !ok || err != nil {
				c.Violation("Verify rejects the signature on a message of %d bytes: %v %v", l, ok, err)
			}
			if ok, _ := s.pk.VerifyFrom(sig, mk(l-1, 0)); ok {
				c.Violation("VerifyFrom accepts a message of %d bytes without its last", l)
			}
			n := uint64(sk.SeqNo())
			sig, err := sk.Sign(msg)
			if err != nil || sig == nil {
				c.Violation("Sign fails on a message of %d bytes: %v", l, err)
			} else {
				enc, _ := sig.MarshalBinary()
				if m := f.right(n, name, enc); m != "" {
					c.Violation("Sign of a message of %d bytes: %s", l, m)
				}
			}
			s.get()
			c.Sig("long Sign", l, a.P)
		}
		ref.MsgFrom = nil
	}
}

// c19Kinds tries all kinds of readers for a length.
func c19Kinds(c *Ctx, a c19Job, s *signer, l int) {
	msg := c19Msg(l)
	dir := os.Getenv("HX_WORK")
	path := filepath.Join(dir, fmt.Sprintf("c19.%d", os.Getpid()))
	if err := os.WriteFile(path, []byte("xyz"+msg), 0600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	var open []io.Closer
	defer func() {
		for _, f := range open {
			f.Close()
		}
	}()
	file := func(off int64) io.Reader {
		f, err := os.Open(path)
		if err != nil {
			panic(err)
		}
		open = append(open, f)
		f.Seek(off, 0)
		return f
	}
	steps := []int{1, 7, 64, 136, 4096, 32768, 1 << 20}
	kinds := map[string]func() io.Reader{
		"bytes.Reader":   func() io.Reader { return bytes.NewReader([]byte(msg)) },
		"bytes.Buffer":   func() io.Reader { return bytes.NewBufferString(msg) },
		"strings.Reader": func() io.Reader { return strings.NewReader(msg) },
		"bytes.Reader in the middle": func() io.Reader {
			r := bytes.NewReader([]byte("xyz" + msg))
			r.Seek(3, 0)
			return r
		},
		"file":           func() io.Reader { return file(3) },
		"LimitedReader":  func() io.Reader { return io.LimitReader(strings.NewReader(msg+"more"), int64(l)) },
		"LimitedReader2": func() io.Reader { return io.LimitReader(strings.NewReader(msg), int64(l)+10) },
		"SectionReader":  func() io.Reader { return io.NewSectionReader(strings.NewReader("ab"+msg+"cd"), 2, int64(l)) },
		"bufio.Reader":   func() io.Reader { return bufio.NewReaderSize(strings.NewReader(msg), 16) },
		"bufio.Reader used": func() io.Reader {
			r := bufio.NewReaderSize(strings.NewReader("xyz"+msg), 4096)
			r.Discard(3)
			return r
		},
		"MultiReader": func() io.Reader {
			return io.MultiReader(strings.NewReader(""), strings.NewReader(msg[:l/3]), strings.NewReader(""), bytes.NewReader([]byte(msg[l/3:])))
		},
		"TeeReader": func() io.Reader { return io.TeeReader(strings.NewReader(msg), io.Discard) },
		"io.Pipe": func() io.Reader {
			r, w := io.Pipe()
			go func() {
				w.Write([]byte(msg[:l/2]))
				w.Write(nil)
				w.Write([]byte(msg[l/2:]))
				w.Close()
			}()
			return r
		},
		"pipe": func() io.Reader {
			r, w, err := os.Pipe()
			if err != nil {
				panic(err)
			}
			open = append(open, r)
			go func() {
				w.Write([]byte(msg[:l/2]))
				time.Sleep(time.Millisecond)
				w.Write([]byte(msg[l/2:]))
				w.Close()
			}()
			return r
		},
	}
	for _, st := range steps {
		st := st
		if l/st > 20000 {
			continue
		}
		kinds[fmt.Sprintf("WriterTo by %d", st)] = func() io.Reader { return &writerTo{data: []byte(msg), step: st} }
		kinds[fmt.Sprintf("Reader by %d", st)] = func() io.Reader {
			return struct{ io.Reader }{&writerTo{data: []byte(msg), step: st}}
		}
		kinds[fmt.Sprintf("script by %d", st)] = func() io.Reader {
			var parts []int
			for o := 0; o < l; o += st {
				parts = append(parts, min(st, l-o))
			}
			return &script{data: []byte(msg), parts: parts, end: io.EOF, with: len(parts) > 0, scribble: true}
		}
	}
	for _, k := range sortedKeys(kinds) {
		if c.Stop() {
			return
		}
		if c.Case(fmt.Sprintf("%v: %d bytes from a %s", a.P, l, k)) {
			s.good(c, msg, kinds[k])
		}
	}
	// Sign and Verify themselves.
	if c.Case(fmt.Sprintf("%v: %d bytes from memory", a.P, l)) {
		sk := s.get()
		n := uint64(sk.SeqNo())
		buf := append([]byte("x"), msg...)
		sig, err := sk.Sign(buf[1:])
		if err != nil {
			c.Violation("Sign: %v", err)
			return
		}
		if string(buf[1:]) != msg {
			c.Violation("Sign changes the message")
		}
		enc, _ := sig.MarshalBinary()
		if m := s.f.right(n, msg, enc); m != "" {
			c.Violation("%s", m)
		}
		if ok, err := s.pk.Verify(sig, buf[1:]); !ok || err != nil {
			c.Violation("Verify: %v %v", ok, err)
		}
		if ok, err := xmssmt.Verify(s.f.Pk, enc, buf[1:]); !ok || err != nil {
			c.Violation("Verify: %v %v", ok, err)
		}
		c.Sig("mem", n, l)
	}
	// Failures after so many bytes.
	for ei, e := range c19Errs {
		if a.Few && (ei%8 != 1 && ei != 6 || l%8 != 1) {
			continue
		}
		for _, cut := range []int{0, l / 2, l - 1, l} {
			if cut < 0 || cut > l {
				continue
			}
			for _, how := range []string{"Reader", "WriterTo", "io.Pipe", "MultiReader", "LimitedReader", "bufio.Reader"} {
				if c.Stop() {
					return
				}
				if how == "io.Pipe" && cut != l && cut != 0 {
					continue
				}
				if how == "bufio.Reader" && e.name == "nil pointer" {
					continue
				}
				if !c.Tier.Thorough && l > 200 && len(how)%2 == 0 && cut != l {
					continue
				}
				if !c.Case(fmt.Sprintf("%v: %d bytes from a %s that fails after %d bytes: %s", a.P, l, how, cut, e.name)) {
					continue
				}
				s.bad(c, msg, func(onRead func()) io.Reader {
					w := &writerTo{data: []byte(msg[:cut]), step: 100, err: e.err}
					switch how {
					case "WriterTo":
						return w
					case "io.Pipe":
						r, pw := io.Pipe()
						go func() {
							pw.Write([]byte(msg[:cut]))
							pw.CloseWithError(e.err)
						}()
						return r
					case "MultiReader":
						return io.MultiReader(strings.NewReader(""), struct{ io.Reader }{w}, strings.NewReader(""))
					case "LimitedReader":
						return io.LimitReader(struct{ io.Reader }{w}, int64(l)+1)
					case "bufio.Reader":
						return bufio.NewReaderSize(struct{ io.Reader }{w}, 16)
					}
					return &hookReader{w, onRead}
				})
			}
		}
	}
	if c.Case(fmt.Sprintf("%v: %d bytes from files that cannot be read", a.P, l)) {
		for _, mk := range []func() io.Reader{
			func() io.Reader { // a directory
				f, err := os.Open(dir)
				if err != nil {
					panic(err)
				}
				open = append(open, f)
				return f
			},
			func() io.Reader { // a closed file
				f := file(0).(*os.File)
				f.Close()
				return f
			},
			func() io.Reader { // a closed pipe
				r, w, _ := os.Pipe()
				w.Close()
				r.Close()
				return r
			},
		} {
			s.bad(c, msg, func(func()) io.Reader { return mk() })
		}
	}
}

type hookReader struct {
	r io.Reader
	f func()
}

func (h *hookReader) Read(p []byte) (int, error) {
	if h.f != nil {
		h.f()
	}
	return h.r.Read(p)
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// c19Fail tries all histories with failing readers that start with a.Ops.
func c19Fail(c *Ctx, a c19Job) {
	f := fix(a.P, "c19")
	var seqs []string
	var rec func(s string, k int)
	rec = func(s string, k int) {
		if k > 0 {
			seqs = append(seqs, s)
		}
		if k == a.Len {
			return
		}
		for _, o := range c19Ops {
			rec(s+" "+o, k+1)
		}
	}
	rec(a.Ops, 2)
	for _, q := range seqs {
		if c.Stop() {
			return
		}
		if !c.Case(fmt.Sprintf("%v: %s", a.P, q)) {
			continue
		}
		sk, _, m, err := f.deriveMem(1)
		if err != nil {
			panic(err)
		}
		used := map[uint64]bool{} // numbers that must not be issued any more
		var take = func(sig *xmssmt.Signature, err error, msg string) bool {
			if err != nil || sig == nil {
				c.Violation("Sign fails: %v", err)
				return false
			}
			n := uint64(sig.SeqNo())
			if used[n] {
				c.Violation("number %d was issued although it had been used before", n)
				return false
			}
			used[n] = true
			enc, _ := sig.MarshalBinary()
			if x := f.right(n, msg, enc); x != "" {
				c.Violation("%s", x)
				return false
			}
			return true
		}
		out := ""
		for _, op := range append(strings.Fields(q), "S") {
			ok := true
			switch op[0] {
			case 'S':
				sig, err := sk.Sign([]byte("m"))
				ok = take(sig, err, "m")
			case 'F', 'G', 'N', 'n':
				before := uint64(sk.SeqNo())
				first := true
				r := &script{data: []byte("abc"), parts: []int{1, 2}, end: errors.New("the reader failed")}
				if op == "F" {
					r.parts = nil
				}
				r.onRead = func() {
					if !first {
						return
					}
					first = false
					for n := before; n < uint64(sk.SeqNo()); n++ {
						used[n] = true // taken by this attempt
					}
					if op == "N" || op == "n" {
						if op == "n" {
							// Another attempt inside this one fails, too.
							_, err := sk.SignFrom(failReader{})
							if err == nil {
								c.Violation("SignFrom of a failing reader succeeds")
								ok = false
							}
						}
						sig, err := sk.Sign([]byte("inner"))
						ok = ok && take(sig, err, "inner")
					}
				}
				sig, err := sk.SignFrom(r)
				if err == nil || sig != nil {
					c.Violation("SignFrom of a failing reader returns %v, %v", sig != nil, err)
					ok = false
				}
			case 'B':
				var n uint32
				fmt.Sscan(op[1:], &n)
				if err := sk.BorrowExactly(n); err != nil {
					c.Violation("BorrowExactly: %v", err)
					ok = false
				}
			case 'R', 'K':
				if op == "R" {
					if err := sk.Close(); err != nil {
						c.Violation("Close: %v", err)
						ok = false
						break
					}
				}
				m = m.reopen()
				var err error
				sk, _, _, err = load(m)
				if err != nil {
					c.Violation("loading: %v", err)
					ok = false
				} else {
					sk.Context().Threads = 1
				}
			}
			if !ok {
				return
			}
			if u := sk.UnretiredSeqNos(); u != 0 {
				c.Violation("after %s, UnretiredSeqNos() is %d", op, u)
				return
			}
			out += fmt.Sprint(sk.SeqNo(), ".", m.seqNo, " ")
		}
		c.Sig("fail", out)
	}
}

// load is LoadPrivateKeyFrom with a plain error.
func load(m *memCtr) (*xmssmt.PrivateKey, *xmssmt.PublicKey, uint32, error) {
	sk, pk, lost, err := xmssmt.LoadPrivateKeyFrom(m)
	if err != nil {
		return nil, nil, 0, err
	}
	return sk, pk, lost, nil
}
