//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// The life of a key: an explicit-state search over what can be on disk
// together with what has been handed out, in which a transition is a session
// with the key: load it, do some operations, and then close it or be killed,
// possibly in the middle of the last operation.  All transitions run the real
// code.

// Carry is what a session leaves behind, besides the disk.
type Carry struct {
	Issued []uint64            // numbers handed out
	Ots    map[string][]string `json:",omitempty"` // one-time keys that signed something else than they should
	Next   uint64              // the first number not used
	Exact  bool                // closed: the stored number must be Next
	InOp   bool                // killed in the middle of an operation
	Lost   int64               // exact number of lost signatures to be reported; -1: any
	Age    int                 // sessions so far
	Spent  int                 // sessions that started without unused numbers
}

func (c Carry) key() string {
	var o []string
	for k, v := range c.Ots {
		o = append(o, k+fmt.Sprint(v))
	}
	sort.Strings(o)
	return fmt.Sprint(c.Issued, o, c.Next, c.Spent, c.Exact, c.InOp, c.Lost)
}

type lifeCfg struct {
	P     P
	Key   string `json:",omitempty"`
	Start uint64 // initial sequence number
	Warm  int    `json:",omitempty"`
	Ops   string // operations, separated by blanks
	Len   int    // longest session
	Len2  int    `json:",omitempty"` // longest session but for the first
	Tags  string // kinds of findings to report
	Age   int    // number of sessions (0: no bound)
	Ticks bool   `json:",omitempty"` // kill at every statement, too
	Msgs  int    // number of different messages
	NoMid bool   `json:",omitempty"` // no kills within operations
}

type lifeJob struct {
	Cfg   lifeCfg
	Image string // packed; empty: initial
	Carry Carry
}

type finding struct{ tag, msg string }

// Sess is a session with a key.
type Sess struct {
	f      *Fix
	w      *World
	sk     *xmssmt.PrivateKey
	pk     *xmssmt.PublicKey
	lost   uint32
	finds  []finding
	iss    map[uint64]bool
	ots    map[string][]string
	next   uint64 // number Sign should use next
	loaded uint64 // next, when the key was loaded
	borr   uint32
	max    uint64
	kept   []kept
	nmsg   int
	msgs   int
	use    bool // a Sign succeeded or there was a reservation
	over   bool // numbers beyond the end were reserved
	tags   string
	ended  bool
	log    []string
}

func (s *Sess) find(tag, f string, a ...any) {
	s.finds = append(s.finds, finding{tag, fmt.Sprintf(f, a...)})
}

func newSess(f *Fix, w *World, c Carry, msgs int) *Sess {
	s := &Sess{f: f, w: w, iss: map[uint64]bool{}, ots: map[string][]string{}, msgs: msgs}
	for _, i := range c.Issued {
		s.iss[i] = true
	}
	for k, v := range c.Ots {
		s.ots[k] = append([]string(nil), v...)
	}
	s.nmsg = len(c.Issued)
	s.max = f.max()
	if s.msgs == 0 {
		s.msgs = 2
	}
	return s
}

// load loads the key; c says what is expected.
func (s *Sess) load(c Carry) bool {
	sk, pk, lost, err := xmssmt.LoadPrivateKey(s.w.path)
	if err != nil {
		s.find("load", "loading the key fails: %v", err)
		return false
	}
	if sk == nil || pk == nil {
		s.find("load", "LoadPrivateKey returns neither a key nor an error")
		return false
	}
	sk.Context().Threads = 1
	s.sk, s.pk, s.lost = sk, pk, lost
	if m := s.f.pkRight(pk); m != "" {
		s.find("pk", "%s", m)
	}
	if m := s.f.pkRight(sk.PublicKey()); m != "" {
		s.find("pk", "PublicKey(): %s", m)
	}
	n := uint64(sk.SeqNo())
	s.next, s.loaded = n, n
	switch {
	case c.Exact && n != c.Next:
		s.find("acct", "after a clean Close the key continues with sequence number %d instead of %d", n, c.Next)
	case n < c.Next && !c.InOp:
		s.find("acct", "the key continues with sequence number %d, but %d have been used", n, c.Next)
	case n > c.Next:
		slack := uint64(lost)
		if c.InOp {
			slack++
		}
		if n-c.Next > slack {
			s.find("acct", "%d sequence numbers were skipped (from %d to %d), but only %d are reported lost",
				n-c.Next, c.Next, n, lost)
		}
	}
	if c.Lost >= 0 && int64(lost) != c.Lost {
		s.find("acct", "%d signatures are reported lost instead of %d", lost, c.Lost)
	}
	if b := sk.BorrowedSeqNos(); b != 0 {
		s.find("acct", "BorrowedSeqNos() is %d after loading", b)
	}
	s.query()
	return true
}

// query checks what the key tells about itself.
func (s *Sess) query() {
	if s.sk == nil || s.ended {
		return
	}
	if n := uint64(s.sk.SeqNo()); n != s.next {
		s.find("acct", "SeqNo() is %d instead of %d", n, s.next)
	}
	if b := s.sk.BorrowedSeqNos(); b != s.borr {
		s.find("acct", "BorrowedSeqNos() is %d instead of %d", b, s.borr)
	}
	if u := s.sk.UnretiredSeqNos(); u != 0 {
		s.find("retire", "UnretiredSeqNos() is %d while no Sign is running", u)
	}
	for _, k := range s.kept {
		enc, err := k.sig.MarshalBinary()
		if err != nil || !bytes.Equal(enc, k.enc) {
			s.find("stable", "signature %d changed after it was issued", k.sig.SeqNo())
		}
	}
}

func (s *Sess) sign() {
	msg := fmt.Sprintf("m%d", s.nmsg%s.msgs)
	s.nmsg++
	sig, err := s.sk.Sign([]byte(msg))
	s.signed(sig, err, msg)
}

// signed judges the outcome of a Sign.
func (s *Sess) signed(sig *xmssmt.Signature, err xmssmt.Error, msg string) {
	if s.ended {
		if err == nil {
			s.find("closed", "Sign succeeds after Close")
		}
		return
	}
	if err != nil {
		if sig != nil {
			s.find("valid", "Sign returns both a signature and an error")
		}
		if s.next < s.max {
			s.find("end", "Sign fails at sequence number %d of %d: %v", s.next, s.max, err)
			// Whether the number was used is unknown.
			s.next = uint64(s.sk.SeqNo())
			s.borr = s.sk.BorrowedSeqNos()
		}
		return
	}
	if sig == nil {
		s.find("valid", "Sign returns neither a signature nor an error")
		return
	}
	idx := uint64(sig.SeqNo())
	if s.iss[idx] {
		s.find("reuse", "sequence number %d was handed out a second time", idx)
	}
	s.iss[idx] = true
	if idx != s.next {
		s.find("next", "Sign used sequence number %d instead of %d", idx, s.next)
		if s.next > s.max {
			s.find("end", "signed with sequence number %d, the key has %d", idx, s.max)
		}
	}
	if idx > s.max {
		s.find("end", "Sign used sequence number %d, which does not exist", idx)
	}
	if s.next >= s.max && idx == s.next && idx > s.max {
		s.find("end", "Sign goes on after the last sequence number")
	}
	s.next = idx + 1
	if s.borr > 0 {
		s.borr--
	}
	s.use = true
	enc, merr := sig.MarshalBinary()
	if merr != nil {
		s.find("valid", "Signature.MarshalBinary: %v", merr)
		return
	}
	s.kept = append(s.kept, kept{sig, enc})
	if idx > s.max {
		return
	}
	s.judge(idx, msg, sig, enc)
}

// judge checks the contents of a signature.
func (s *Sess) judge(idx uint64, msg string, sig *xmssmt.Signature, enc []byte) {
	want := s.f.want(idx, msg)
	same := bytes.Equal(enc, want)
	if !same {
		s.find("bytes", "%s", s.f.right(idx, msg, enc))
	}
	if uint64(len(enc)) != 4+uint64(s.f.P.r().SigSize()) || len(enc) != 4+int(sig.Context().SignatureSize()) {
		s.find("valid", "the signature has %d bytes instead of %d", len(enc), 4+s.f.P.r().SigSize())
		return
	}
	if strings.Contains(s.tags, "valid") {
		ok, err := s.pk.Verify(sig, []byte(msg))
		if !ok || err != nil {
			s.find("valid", "signature %d on %q does not verify: %v %v", idx, msg, ok, err)
		}
		ok, err = s.pk.Verify(sig, []byte(msg+"x"))
		if ok || err == nil {
			s.find("valid", "signature %d on %q verifies for another message", idx, msg)
		}
		if !same {
			ok := bytes.Equal(enc[:4], want[:4])
			if ok {
				ok, _ = ref.Verify(s.f.P.r(), s.f.Root, s.f.PubSeed, []byte(msg), enc[4:])
			}
			if !ok {
				s.find("valid", "signature %d on %q is not valid", idx, msg)
			}
		}
	}
	// one-time keys
	p := s.f.P.r()
	if same {
		// as it should be: layer 0 signs the digest of the message and the
		// others the one root below them
		k := fmt.Sprintf("0/%d", idx)
		s.useOts(k, "message "+msg)
		for l := 1; l < p.D; l++ {
			t, leaf := splitIdx(p, idx, l)
			s.otsRight(fmt.Sprintf("%d/%d/%d", l, t, leaf))
		}
		return
	}
	for l := 0; l < p.D; l++ {
		t, leaf := splitIdx(p, idx, l)
		off := p.IdxLen() + p.N + l*(p.Len()+p.HT())*p.N + 4
		ws := enc[off : off+p.Len()*p.N]
		wantws := want[off : off+p.Len()*p.N]
		k := fmt.Sprintf("%d/%d/%d", l, t, leaf)
		if l == 0 {
			k = fmt.Sprintf("0/%d", idx)
		}
		if bytes.Equal(ws, wantws) {
			if l == 0 {
				s.useOts(k, "message "+msg)
			} else {
				s.otsRight(k)
			}
			continue
		}
		ch := s.f.K.Chains(l, t, leaf)
		var ds []int
		ok := true
		for i := range ch {
			d := -1
			for j := range ch[i] {
				if bytes.Equal(ch[i][j], ws[i*p.N:(i+1)*p.N]) {
					d = j
				}
			}
			if d < 0 {
				ok = false
				break
			}
			ds = append(ds, d)
		}
		if ok {
			s.useOts(k, "value "+hexs(p.Undigits(ds[:p.Len1()])))
		}
	}
}

func splitIdx(p ref.Params, idx uint64, l int) (uint64, uint32) {
	h := uint(p.HT())
	return idx >> (uint(l+1) * h), uint32(idx>>(uint(l)*h)) & (1<<h - 1)
}

func (s *Sess) useOts(k, v string) {
	for _, o := range s.ots[k] {
		if o == v {
			return
		}
	}
	s.ots[k] = append(s.ots[k], v)
	if len(s.ots[k]) > 1 {
		s.find("reuse", "the one-time key at layer/leaf %s signed two different values: %s", k, strings.Join(s.ots[k], " and "))
	}
}

func (s *Sess) otsRight(k string) { s.useOts(k, "root") }

func (s *Sess) borrow(n uint32) {
	err := s.sk.BorrowExactly(n)
	s.didBorrow(err, n)
}

func (s *Sess) didBorrow(err xmssmt.Error, n uint32) {
	if s.ended {
		if err == nil && n > 0 {
			s.find("closed", "reserving succeeds after Close")
		}
		return
	}
	if err != nil {
		if s.next+uint64(n) > s.max {
			return // refusing is fine
		}
		s.find("acct", "BorrowExactly(%d) fails: %v", n, err)
		return
	}
	s.borr = n
	if n > 0 {
		s.use = true
	}
	if s.next+uint64(n) > s.max {
		s.over = true
	}
}

// op does an operation.
func (s *Sess) op(o string) {
	s.log = append(s.log, o)
	switch o[0] {
	case 'S':
		s.sign()
	case 'B':
		var n uint32
		fmt.Sscan(o[1:], &n)
		s.borrow(n)
	case 'I': // I2,1
		var n, t uint32
		fmt.Sscanf(o[1:], "%d,%d", &n, &t)
		was := s.borr
		err := s.sk.BorrowExactlyIfBelow(n, t)
		if was <= t {
			s.didBorrow(err, n)
		} else if err != nil && !s.ended {
			s.find("acct", "BorrowExactlyIfBelow(%d,%d) fails: %v", n, t, err)
		}
	case 'P':
		s.sk.EnableSubTreePrecomputation()
	case 'C':
		err := s.sk.Close()
		if err != nil && !s.ended {
			s.find("close", "Close fails: %v", err)
		}
		s.queryKept()
		s.ended = true
	default:
		panic("no such operation: " + o)
	}
	s.query()
}

func (s *Sess) queryKept() {
	for _, k := range s.kept {
		enc, err := k.sig.MarshalBinary()
		if err != nil || !bytes.Equal(enc, k.enc) {
			s.find("stable", "signature %d changed after Close", k.sig.SeqNo())
		}
	}
}

// carry is what the session leaves when it ends now.
func (s *Sess) carry(c Carry, closed, inOp bool) Carry {
	n := Carry{Next: s.next, Exact: closed, InOp: inOp, Lost: -1, Age: c.Age + 1, Spent: c.Spent}
	if s.loaded >= s.max {
		n.Spent++
	}
	if s.sk == nil { // killed while loading
		n = c
		n.Age++
		n.Ots = nil
		n.Issued = nil
	} else {
		switch {
		case closed && (s.use || s.lost == 0):
			n.Lost = 0
		case !s.use && !inOp:
			n.Lost = int64(s.lost)
		}
	}
	for i := range s.iss {
		n.Issued = append(n.Issued, i)
	}
	sort.Slice(n.Issued, func(i, j int) bool { return n.Issued[i] < n.Issued[j] })
	for k, v := range s.ots {
		if len(v) == 1 && v[0] == "root" {
			continue
		}
		if n.Ots == nil {
			n.Ots = map[string][]string{}
		}
		n.Ots[k] = append([]string(nil), v...)
	}
	return n
}

// normal forgets what the messages were where they can be told from the
// numbers; this makes states equal that differ in messages only.
func (c Carry) normal() Carry {
	n := c
	n.Ots = nil
	for k, v := range c.Ots {
		if strings.HasPrefix(k, "0/") && len(v) == 1 && strings.HasPrefix(v[0], "message ") {
			continue
		}
		if n.Ots == nil {
			n.Ots = map[string][]string{}
		}
		n.Ots[k] = v
	}
	return n
}

// snap is a moment at which the process is killed.
type snap struct {
	im    *vfs.Image
	carry Carry
	tick  bool
	at    string
}

type outcome struct {
	finds []finding
	err   string // panic or deadlock
	snaps []snap
	end   *snap
}

// session runs one session.  Kills are recorded during the last operation
// (during the load if there is none).
func session(f *Fix, im *vfs.Image, c Carry, ops []string, cfg *lifeCfg, kills bool) outcome {
	w := world(im)
	s := newSess(f, w, c, cfg.Msgs)
	s.tags = cfg.Tags
	var o outcome
	seen := map[string]bool{}
	var base Carry
	take := func(tick bool) {
		im := dropLock(w.fs.Image())
		k := im.Key()
		if seen[k] {
			return
		}
		seen[k] = true
		o.snaps = append(o.snaps, snap{im, base, tick, fmt.Sprint(len(o.snaps))})
	}
	arm := func() {
		if !kills || cfg.NoMid {
			return
		}
		base = s.carry(c, false, true)
		inTick := false
		w.fs.OnChange = func() { take(inTick) }
		if cfg.Ticks {
			vsync.TickFn = func() {
				inTick = true
				w.fs.Tick()
				inTick = false
			}
		}
	}
	disarm := func() {
		w.fs.OnChange = nil
		vsync.TickFn = nil
	}
	r := vsync.Run(nil, horizon, func() {
		if len(ops) == 0 {
			arm()
		}
		ok := s.load(c)
		if len(ops) == 0 {
			disarm()
		}
		if !ok {
			s.sk = nil
			return
		}
		for i, op := range ops {
			if i == len(ops)-1 {
				arm()
			}
			s.op(op)
			if i == len(ops)-1 {
				disarm()
			}
		}
	})
	disarm()
	o.err = r.Err()
	o.finds = s.finds
	if o.err == "" && s.sk != nil {
		o.end = &snap{dropLock(w.fs.Image()), s.carry(c, s.ended, false), false, "end"}
	}
	if m := w.end(); m != "" {
		o.finds = append(o.finds, finding{"memory", m})
	}
	return o
}

func seqs(alpha []string, n int, f func([]string) bool) {
	var rec func(p []string) bool
	rec = func(p []string) bool {
		if !f(p) {
			return false
		}
		if len(p) == n || len(p) > 0 && p[len(p)-1] == "C" {
			return true
		}
		for _, a := range alpha {
			if !rec(append(p[:len(p):len(p)], a)) {
				return false
			}
		}
		return true
	}
	rec(nil)
}

func (c *Ctx) report(o outcome, tags string, pre string) bool {
	bad := false
	if o.err != "" {
		if strings.Contains(tags, "panic") {
			c.Violation("%s%s", pre, o.err)
			return true
		}
	}
	for _, f := range o.finds {
		if strings.Contains(tags, f.tag) {
			c.Violation("%s%s", pre, f.msg)
			bad = true
			break
		}
	}
	return bad
}

// Number of sessions in a row without unused numbers after which a life is not
// continued: reserving more grows the stored number without end.
const maxSpent = 1

func init() {
	handle("life", func(c *Ctx) {
		var j lifeJob
		c.Arg(&j)
		cfg := j.Cfg
		f := fix(cfg.P, cfg.Key)
		var im *vfs.Image
		if j.Image == "" {
			im = f.image(cfg.Start, cfg.Warm)
			j.Carry = Carry{Next: cfg.Start + uint64(cfg.Warm), Exact: true}
		} else {
			im = unpackImage(j.Image)
		}
		emit := func(s snap, ops []string) {
			if cfg.Age > 0 && s.carry.Age >= cfg.Age || s.carry.Spent > maxSpent {
				return
			}
			n := s.carry.normal()
			// The temporary file is always written anew, so images that
			// differ in it only are one state.
			im := &vfs.Image{Files: map[string][]byte{}}
			for name, d := range s.im.Files {
				if !strings.HasSuffix(name, ".tmp") {
					im.Files[name] = d
				}
			}
			n.Age = 0
			k := hashStr(fmt.Sprint(cfg.P, cfg.Start, cfg.Key, cfg.Tags, cfg.Ops), im.Key(), n.key())
			c.Out.States = append(c.Out.States, StateOut{k,
				mkjob(c.Build, "life", lifeJob{cfg, packImage(s.im), s.carry})})
		}
		tickSeen := map[uint64]bool{}
		maxLen := cfg.Len
		if cfg.Len2 > 0 && j.Carry.Age > 0 {
			maxLen = cfg.Len2
		}
		seqs(strings.Fields(cfg.Ops+" C"), maxLen, func(ops []string) bool {
			if c.Stop() {
				return false
			}
			pre := fmt.Sprintf("%v from %d, state %x: ", cfg.P, cfg.Start, hashStr(im.Key(), j.Carry.key()))
			name := pre + strings.Join(ops, " ")
			if !c.Case(name) {
				return true
			}
			what := fmt.Sprintf("%v, stored key as left after %d sessions, issued %v; load %s:\n", cfg.P, j.Carry.Age, j.Carry.Issued, strings.Join(ops, " "))
			o := session(f, im, j.Carry, ops, &cfg, true)
			c.Count("sessions", 1)
			c.Count("transitions", 1+len(o.snaps))
			c.Count("traces_validated_against_impl", 1)
			if c.report(o, cfg.Tags, what) {
				return len(ops) == 0
			}
			if o.err != "" {
				return true
			}
			c.Sig(cfg.P, ops, len(o.snaps), len(j.Carry.Issued))
			if len(ops) == 3 {
				c.Sample("%s%d kill points", what, len(o.snaps))
			}
			for _, s := range o.snaps {
				if !s.tick {
					emit(s, ops)
					continue
				}
				k := hashStr(s.im.Key(), s.carry.normal().key())
				if tickSeen[k] {
					continue
				}
				tickSeen[k] = true
				c.Count("kills_at_statements", 1)
				o2 := session(f, s.im, s.carry, []string{"S", "S", "C"}, &cfg, false)
				if c.report(o2, cfg.Tags, what+"killed in the last operation; load, sign, sign, close: ") {
					break
				}
				if o2.end != nil {
					o3 := session(f, o2.end.im, o2.end.carry, []string{"S", "S", "C"}, &cfg, false)
					if c.report(o3, cfg.Tags, what+"killed in the last operation; load, sign, sign, close, load, sign, sign, close: ") {
						break
					}
				}
			}
			if o.end != nil {
				emit(*o.end, ops)
			}
			return true
		})
	})
}
