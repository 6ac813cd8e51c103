//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// C23: public objects can be used from many goroutines.

type shareArg struct {
	P       P
	Name    string   `json:",omitempty"` // instead of P: a named instance
	Own     bool     `json:",omitempty"` // every thread has objects of its own
	Threads []string // operations (separated by spaces)
	Every   int      `json:",omitempty"` // every so manieth statement is a scheduling point
	Workers int      `json:",omitempty"`
}

// shared is what the threads share.
type shared struct {
	f      *Fix
	name   string
	ctx    *xmssmt.Context
	pk     *xmssmt.PublicKey
	sig    *xmssmt.Signature
	par    *xmssmt.Params
	pkb    []byte
	sigb   []byte
	text   []byte
	msg    []byte
	keys   []*xmssmt.PrivateKey
	keyf   []*Fix
	worker int
}

const c23Msg = "shared"

type shareOp func(o *shared, t int) string

var shareOps = map[string]shareOp{
	"query": func(o *shared, t int) string {
		c := o.ctx
		return fmt.Sprint(c.Name(), c.Oid(), c.MT(), c.FromNIST(), c.FromRFC(), c.SignatureSize(), c.Params())
	},
	"params": func(o *shared, t int) string {
		b, err := o.par.MarshalBinary()
		n, oid := o.par.LookupNameAndOid()
		return fmt.Sprint(b, err, n, oid, o.par.String(), o.par.WotsLogW(), o.par.WotsLen1(), o.par.WotsLen2(), o.par.WotsLen(),
			o.par.WotsSignatureSize(), o.par.MaxSignatureSeqNo(), o.par.BareSubTreeSize(), o.par.CachedSubTreeSize(), o.par.PrivateKeySize())
	},
	"verify": func(o *shared, t int) string {
		ok, err := o.pk.Verify(o.sig, o.msg)
		return fmt.Sprint(ok, err)
	},
	"verifybad": func(o *shared, t int) string {
		ok, err := o.pk.Verify(o.sig, []byte("something else"))
		return fmt.Sprint(ok, err)
	},
	"verifyfrom": func(o *shared, t int) string {
		ok, err := o.pk.VerifyFrom(o.sig, bytes.NewReader(o.msg))
		return fmt.Sprint(ok, err)
	},
	"verifybytes": func(o *shared, t int) string {
		ok, err := xmssmt.Verify(o.pkb, o.sigb, o.msg)
		return fmt.Sprint(ok, err)
	},
	"pkbin": func(o *shared, t int) string {
		b, err := o.pk.MarshalBinary()
		return fmt.Sprint(b, err)
	},
	"pktext": func(o *shared, t int) string {
		b, err := o.pk.MarshalText()
		return fmt.Sprint(string(b), err)
	},
	"pkinto": func(o *shared, t int) string {
		b := make([]byte, len(o.pkb))
		err := o.pk.WriteInto(b)
		return fmt.Sprint(b, err, o.pk.Context() != nil)
	},
	"sigbin": func(o *shared, t int) string {
		b, err := o.sig.MarshalBinary()
		return fmt.Sprint(hashStr(string(b)), err)
	},
	"siginto": func(o *shared, t int) string {
		b := make([]byte, len(o.sigb))
		err := o.sig.WriteInto(b)
		return fmt.Sprint(hashStr(string(b)), err, o.sig.Context() != nil)
	},
	"sigstr": func(o *shared, t int) string {
		return fmt.Sprint(o.sig.String(), o.sig.SeqNo())
	},
	"parse": func(o *shared, t int) string {
		var pk, pk2 xmssmt.PublicKey
		var sig xmssmt.Signature
		e1 := pk.UnmarshalBinary(o.pkb)
		e2 := sig.UnmarshalBinary(o.sigb)
		e3 := pk2.UnmarshalText(o.text)
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Sprint(e1, e2, e3)
		}
		b, _ := pk.MarshalBinary()
		b2, _ := pk2.MarshalBinary()
		return fmt.Sprint(b, b2, sig.String(), pk.Context().Name())
	},
	"newctx": func(o *shared, t int) string {
		c, err := xmssmt.NewContext(*o.par)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprint(c.Name(), c.Oid(), c.MT(), c.SignatureSize())
	},
	"names": func(o *shared, t int) string {
		s := ""
		for _, n := range []string{o.name, "XMSS-SHAKE_10_512", "XMSSMT-SHA2_20/4_256", "XMSS-SHA2_10_192", "nonsense"} {
			c := xmssmt.NewContextFromName(n)
			p := xmssmt.ParamsFromName(n)
			p2, err := xmssmt.ParamsFromName2(n)
			c2, err2 := xmssmt.NewContextFromName2(n)
			s += fmt.Sprint(c == nil, p == nil, p2 == nil, c2 == nil, err, err2)
			if c != nil {
				s += fmt.Sprint(c.Name(), c.Oid(), c.Params())
			}
		}
		for _, oid := range []uint32{1, 7, 0x15, 999} {
			for _, mt := range []bool{false, true} {
				c := xmssmt.NewContextFromOid(mt, oid)
				s += fmt.Sprint(c == nil)
				if c != nil {
					s += fmt.Sprint(c.Name(), c.Oid(), c.MT())
				}
			}
		}
		h, err := xmssmt.HashFuncString("SHAKE")
		return s + fmt.Sprint(len(xmssmt.ListNames()), len(xmssmt.ListNames2()), h, err, xmssmt.HashFuncValues())
	},
	"derive": func(o *shared, t int) string {
		f := o.keyf[t]
		m := newMemCtr()
		s1, s2, s3, wipe := f.seeds()
		sk, pk, err := o.ctx.DeriveInto(m, s1, s2, s3)
		wipe()
		if err != nil {
			return err.Error()
		}
		s := f.pkRight(pk)
		if err := sk.Close(); err != nil {
			return err.Error()
		}
		return s
	},
	"sign": func(o *shared, t int) string {
		sk, f := o.keys[t], o.keyf[t]
		n := sk.SeqNo()
		sig, err := sk.Sign([]byte(c23Msg))
		if err != nil {
			return err.Error()
		}
		b, _ := sig.MarshalBinary()
		if sig.SeqNo() != n {
			return "wrong number"
		}
		return f.right(uint64(n), c23Msg, b)
	},
	"load": func(o *shared, t int) string { // the public key of a key in use
		pk := o.keys[t].PublicKey()
		return fmt.Sprint(o.keyf[t].pkRight(pk), pk.Context().Name(), o.keys[t].Context() == nil)
	},
	"otherpk": func(o *shared, t int) string { // verify with the public key of the other thread's key
		f := o.keyf[1-t%2]
		pk := o.keys[1-t%2].PublicKey()
		return f.pkRight(pk)
	},
}

// In the order in which they are tried.
var shareNames = []string{"query", "params", "verify", "verifybad", "verifyfrom", "verifybytes", "pkbin", "pktext", "pkinto",
	"sigbin", "siginto", "sigstr", "parse", "newctx", "names", "derive", "sign", "load", "otherpk"}

// Those that don't need a private key.
const namedOps = 15

func init() {
	register(&Check{
		ID: "C23", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "all pairs (and some, thorough: all, triples) of public operations on a context, public key, signature and parameters that goroutines share, and on their own private keys of one context, and on objects of their own; all schedules up to a preemption bound at synchronisation operations under the race detector, and with a scheduling point at every n-th statement in the instrumented build; every result is compared with that of the operation run alone, and with the truth for keys and signatures; distinct = distinct scenarios and results",
		Assumptions: lifeAssume[1:],
		Plan:        c23Plan,
	})
	scens["share"] = func(raw json.RawMessage) func([]int16) run {
		var a shareArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		return a.run
	}
	handle("c23", c23All)
}

type c23Job struct {
	A     shareArg
	Ops   []string // each is combined with
	With  []string // each of these
	Third []string // and these
	Bound int
	All   bool `json:",omitempty"`
}

func c23Plan(t Tier) []Job {
	var js []Job
	ps := []P{{0, 16, 2, 2, 4, false}, {1, 32, 2, 2, 16, false}, {0, 32, 2, 1, 16, true}}
	if t.Thorough {
		ps = append(ps, P{2, 32, 2, 2, 16, false}, P{0, 64, 2, 2, 4, false}, P{1, 64, 2, 1, 16, false}, P{1, 16, 3, 3, 4, false},
			P{0, 24, 2, 2, 256, true}, P{2, 24, 4, 2, 4, true})
	}
	bound := 1
	if t.Thorough {
		bound = 2
	}
	// all pairs
	for pi, p := range ps {
		for _, own := range []bool{false, true} {
			for i, o := range shareNames {
				if pi > 0 && own && !t.Thorough {
					continue
				}
				with := shareNames[i:]
				if pi > 0 && !t.Thorough {
					with = nil
					for _, w := range []string{"query", "verify", "sigbin", "parse", "derive", "sign"} {
						if w >= o || w == "sign" {
							with = append(with, w)
						}
					}
				}
				js = append(js, mkjob("race", "c23", c23Job{All: t.Thorough, A: shareArg{P: p, Own: own}, Ops: []string{o}, With: with, Bound: bound}))
			}
		}
	}
	named := []string{"XMSS-SHA2_10_256", "XMSSMT-SHAKE_20/4_256"}
	if t.Thorough {
		named = append(named, "XMSS-SHAKE256_10_192", "XMSSMT-SHA2_20/2_512", "XMSSMT-SHAKE256_40/8_192")
	}
	for _, n := range named {
		for i, o := range shareNames[:namedOps] {
			js = append(js, mkjob("race", "c23", c23Job{All: t.Thorough, A: shareArg{Name: n}, Ops: []string{o}, With: shareNames[i:namedOps], Bound: bound}))
		}
	}
	// triples
	tri := []string{"query", "verify", "sigbin", "pkbin", "derive", "sign"}
	if t.Thorough {
		tri = shareNames
	}
	for i, o := range tri {
		js = append(js, mkjob("race", "c23", c23Job{All: t.Thorough, A: shareArg{P: ps[0]}, Ops: []string{o}, With: tri[i:], Third: tri, Bound: 1}))
	}
	// several workers
	for _, o := range []string{"derive", "sign"} {
		js = append(js, mkjob("race", "c23", c23Job{All: t.Thorough, A: shareArg{P: tiny(2, 2), Workers: 2}, Ops: []string{o}, With: []string{"derive", "sign", "verify"}, Bound: bound - 1}))
	}
	// statements
	short := []string{"query", "params", "pkbin", "pktext", "pkinto", "sigbin", "siginto", "sigstr", "parse", "newctx", "names"}
	long := []string{"verify", "verifybad", "verifybytes", "derive", "sign"}
	ev := []int{1, 2003}
	if t.Thorough {
		ev[1] = 211
	}
	for pi, p := range ps {
		if pi > 1 && !t.Thorough {
			break
		}
		for i, o := range short {
			js = append(js, mkjob("inst", "c23", c23Job{All: t.Thorough, A: shareArg{P: p, Every: ev[0]}, Ops: []string{o}, With: short[i:], Bound: 1}))
		}
		for _, o := range long {
			js = append(js, mkjob("inst", "c23", c23Job{All: t.Thorough, A: shareArg{P: p, Every: ev[1]}, Ops: []string{o}, With: append(append([]string(nil), short...), long...), Bound: 1}))
		}
	}
	for _, n := range named {
		for i, o := range short {
			js = append(js, mkjob("inst", "c23", c23Job{All: t.Thorough, A: shareArg{Name: n, Every: 1}, Ops: []string{o}, With: short[i:], Bound: 1}))
		}
	}
	return js
}

func c23All(c *Ctx) {
	var a c23Job
	c.Arg(&a)
	for _, o := range a.Ops {
		for _, w := range a.With {
			third := a.Third
			if third == nil {
				third = []string{""}
			}
			for _, x := range third {
				if a.Third != nil && pos(a.Third, x) < pos(a.Third, w) {
					continue // the threads are interchangeable
				}
				b := a.A
				b.Threads = []string{o, w}
				if x != "" {
					b.Threads = append(b.Threads, x)
				}
				if b.Every == 1 && (o == "names" || w == "names") && !a.All {
					b.Every = 61
				}
				dev := 0
				if (b.Workers > 1 || x != "") && !a.All {
					dev = 2
				}
				c.More(schedJob(c.Build, "share", a.Bound, dev, a.A.Every > 0, b))
			}
		}
	}
}

func pos(l []string, s string) int {
	for i, x := range l {
		if x == s {
			return i
		}
	}
	return -1
}

func (a *shareArg) make() *shared {
	if a.Name != "" {
		ctx := xmssmt.NewContextFromName(a.Name)
		if ctx == nil {
			panic("no context " + a.Name)
		}
		par := ctx.Params()
		o := &shared{name: a.Name, ctx: ctx, msg: []byte(c23Msg)}
		o.par = &par
		hdr, err := par.MarshalBinary()
		if err != nil {
			panic(err)
		}
		o.pkb = append(hdr[:len(hdr):len(hdr)], seedBytes("pk", 2*int(par.N))...)
		n := int(ctx.SignatureSize()) + 4
		o.sigb = append(append(hdr[:len(hdr):len(hdr)], 0, 0), seedBytes("sig", n-len(hdr)-2)...) // a low number
		o.unmarshal()
		return o
	}
	f := fix(a.P, "")
	ctx, err := xmssmt.NewContext(a.P.x())
	if err != nil {
		panic(err)
	}
	ctx.Threads = max(a.Workers, 1)
	o := &shared{f: f, name: "XMSS-SHA2_10_256", ctx: ctx, msg: []byte(c23Msg)}
	par := a.P.x()
	o.par = &par
	o.pkb = f.Pk
	o.sigb = f.want(1, c23Msg)
	o.unmarshal()
	for t := range a.Threads {
		g := fix(a.P, fmt.Sprint("t", t))
		o.keyf = append(o.keyf, g)
		if !strings.Contains(strings.Join(a.Threads, " ")+" ", "sign ") && !strings.Contains(strings.Join(a.Threads, " "), "load") &&
			!strings.Contains(strings.Join(a.Threads, " "), "otherpk") {
			continue
		}
		sk, _, err := ctx.DeriveInto(newMemCtr(), g.PubSeed, g.SkSeed, g.SkPrf)
		if err != nil {
			panic(err)
		}
		o.keys = append(o.keys, sk)
	}
	return o
}

func (o *shared) unmarshal() {
	o.pk, o.sig = &xmssmt.PublicKey{}, &xmssmt.Signature{}
	if err := o.pk.UnmarshalBinary(o.pkb); err != nil {
		panic(err)
	}
	if err := o.sig.UnmarshalBinary(o.sigb); err != nil {
		panic(err)
	}
	var err error
	if o.text, err = o.pk.MarshalText(); err != nil {
		panic(err)
	}
}

var c23Alone = map[string]string{}

// alone is what an operation yields on its own.
func (a *shareArg) alone(op string, t int) string {
	k := fmt.Sprint(a.P, a.Name, op, t)
	if s, ok := c23Alone[k]; ok {
		return s
	}
	s := ""
	world(nil)
	e := managed(func() { s = shareOps[op](a.make(), t) })
	if e != "" {
		s = "alone: " + e
	}
	switch { // what is known anyway
	case a.Name != "" && strings.HasPrefix(op, "verify") && !strings.HasPrefix(s, "false"):
		s = "alone, verifying garbage yields " + s
	case a.Name == "" && strings.HasPrefix(op, "verify") && !strings.HasPrefix(s, fmt.Sprint(op != "verifybad")):
		s = "alone, verifying yields " + s
	case (op == "derive" || op == "sign") && s != "":
		s = "alone: " + s
	}
	c23Alone[k] = s
	return s
}

func (a shareArg) run(prefix []int16) (out run) {
	want := make([]string, len(a.Threads))
	bad := ""
	ticks := vsync.PointAtTicks
	vsync.PointAtTicks = false
	for t, op := range a.Threads {
		want[t] = a.alone(op, t)
		if strings.HasPrefix(want[t], "alone") {
			out.bad = op + ": " + want[t]
			return
		}
	}
	vsync.TickEvery = max(a.Every, 1)
	defer func() { vsync.TickEvery = 1; vsync.PointAtTicks = false }()
	world(nil)
	got := make([]string, len(a.Threads))
	r := vsync.Run(prefix, horizon, func() {
		o := make([]*shared, len(a.Threads))
		for t := range a.Threads {
			if t == 0 || a.Own {
				o[t] = a.make()
			} else {
				o[t] = o[0]
			}
		}
		vsync.PointAtTicks = ticks
		var wg vsync.WaitGroup
		wg.Add(len(a.Threads))
		for t := range a.Threads {
			t := t
			vsync.Go0(func() {
				defer wg.Done()
				got[t] = shareOps[a.Threads[t]](o[t], t)
			})
		}
		wg.Wait()
		vsync.PointAtTicks = false
		// once more, alone
		for t, op := range a.Threads {
			if op == "sign" || op == "derive" {
				continue
			}
			if s := shareOps[op](o[t], t); s != want[t] && bad == "" {
				bad = fmt.Sprintf("afterwards, %s yields %.200s instead of %.200s", op, s, want[t])
			}
		}
	})
	vsync.PointAtTicks = false
	out.res = r
	if e := r.Err(); e != "" {
		bad = e
	}
	for t, op := range a.Threads {
		if bad == "" && got[t] != want[t] {
			bad = fmt.Sprintf("thread %d: %s yields %.200s instead of %.200s", t, op, got[t], want[t])
		}
	}
	if bad != "" {
		out.bad = fmt.Sprintf("%v: %v: %s", a.P, a.Threads, bad)
	}
	out.sig = fmt.Sprint(hashStr(got...))
	return
}
