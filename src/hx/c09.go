//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vhash"
	"github.com/bwesterb/go-xmssmt/internal/verif/vruntime"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
	"golang.org/x/sys/cpu"
)

// C09: vectorised and multi-threaded computation changes nothing.

type c09Job struct {
	P       P
	Threads []int
	Idx     []uint64 `json:",omitempty"`
	// For digests: the first of From..To-1 of the family
	Family string `json:",omitempty"`
	From   int    `json:",omitempty"`
	To     int    `json:",omitempty"`
	Arr    int    `json:",omitempty"`
}

type c09Sched struct {
	P       P
	Threads int
	CPUs    int
	Every   int `json:",omitempty"`
}

func init() {
	register(&Check{
		ID: "C09", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "every supported (hash, n, w, PRF) with and without four-way hashes and with every number of threads listed, and every tree height around the batches of the workers: public key, cached subtree and signatures must be the bytes of the independent implementation, and Verify must accept them and reject altered ones; every way for the digits of a digest to be distributed over the chains (all multisets of digits for n=16, w=4, all pairs and, in families, triples of digit values for the others), on which depends what the four-way implementation groups together; all schedules of the workers up to a preemption bound, also at statements and under the race detector; an outcome is a public key, signature or verdict",
		Assumptions: []string{"the machine has AVX2 (otherwise only the scalar code is examined; see four_way in the coverage)"},
		Plan:        c09Plan,
	})
	handle("c09", c09Run)
	handle("c09digits", c09Digits)
	scens["workers"] = func(raw json.RawMessage) func([]int16) run {
		var a c09Sched
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		return a.run
	}
}

func c09Plan(t Tier) []Job {
	var js []Job
	add := func(build string, j c09Job) { js = append(js, mkjob(build, "c09", j)) }
	both := func(j c09Job) {
		add("plain", j)
		add("plain"+noAVX2, j)
	}
	for f := 0; f < 3; f++ {
		for _, n := range nsel(P{}) {
			for _, w := range []int{4, 16, 256} {
				for _, nist := range []bool{false, true} {
					p := P{f, n, 2, 1, w, nist}
					if w == 4 || t.Thorough {
						p = P{f, n, 4, 2, w, nist}
					}
					if w == 256 {
						p.H = 1
					}
					ths := []int{0, 1, 2, 3, 5}
					if w == 256 && !t.Thorough {
						ths = ths[1:3]
					}
					both(c09Job{P: p, Threads: ths, Idx: []uint64{0, 1, 2, 5, 14}})
				}
			}
		}
	}
	hmax := 8
	if t.Thorough {
		hmax = 11
	}
	for _, f := range []int{0, 1} {
		for h := 1; h <= hmax; h++ {
			ths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 31, 32, 33, 64, 100}
			if h > 6 {
				ths = []int{0, 2, 3, 7, 8, 9, 33}
			}
			for i := 0; i < len(ths); i += 4 {
				j := c09Job{P: P{f, 16, h, 1, 4, false}, Threads: ths[i:min(i+4, len(ths))]}
				last := uint64(1)<<uint(h) - 2
				for _, x := range []uint64{0, 1, 30, 31, 32, 33, 63, 64, 95, 96, 127, 128, last / 2, last} {
					if x <= last {
						j.Idx = append(j.Idx, x)
					}
				}
				if f == 1 {
					both(j)
				} else {
					add("plain", j)
				}
			}
		}
	}
	// trees of several layers with many leaves
	for _, p := range []P{{1, 16, 12, 2, 4, false}, {1, 32, 14, 2, 4, true}} {
		both(c09Job{P: p, Threads: []int{2, 3}, Idx: []uint64{0, 63, 64, 1<<uint(p.H) - 2}})
	}

	dig := func(j c09Job, total, chunk int) {
		for a := 0; a < total; a += chunk {
			j.From, j.To = a, min(a+chunk, total)
			js = append(js, mkjob("mock", "c09digits", j))
			if t.Thorough {
				js = append(js, mkjob("mock"+noAVX2, "c09digits", j))
			}
		}
	}
	narr := 1
	if t.Thorough {
		narr = 4
	}
	sets := []P{{1, 16, 1, 1, 4, false}, {1, 16, 1, 1, 16, false}, {1, 32, 1, 1, 4, false}, {1, 32, 1, 1, 16, false},
		{1, 32, 1, 1, 16, true}, {1, 16, 1, 1, 256, false}, {1, 32, 1, 1, 256, false}}
	for _, p := range sets {
		for arr := 0; arr < narr; arr++ {
			for _, fam := range []string{"all", "pairs", "triples"} {
				if fam == "all" && p.W != 4 {
					continue
				}
				if p.W == 256 && fam == "triples" && !t.Thorough {
					continue
				}
				n := len(c09Family(p, fam, t))
				chunk := 1500
				if p.W == 256 {
					chunk = 100
				}
				dig(c09Job{P: p, Family: fam, Arr: arr}, n, chunk)
			}
		}
	}

	bound := 2
	if t.Thorough {
		bound = 3
	}
	for _, a := range []c09Sched{{tiny(6, 1), 2, 1, 0}, {tiny(6, 1), 3, 1, 0}, {tiny(6, 1), 0, 2, 0}, {tiny(7, 1), 2, 1, 0},
		{tiny(2, 1), 2, 1, 0}, {tiny(2, 1), 0, 3, 0}, {tiny(12, 2), 2, 1, 0}, {P{1, 16, 6, 1, 4, false}, 2, 1, 0}} {
		b := bound
		if a.Threads == 3 || a.CPUs == 3 || a.P.H > 6 {
			b--
		}
		js = append(js, schedJob("inst", "workers", b, 0, false, a))
		if a.P.H <= 6 {
			b = 1
			if t.Thorough {
				b = 2
			}
			js = append(js, schedJob("race", "workers", b, 0, false, a))
		}
	}
	ev := 20000
	if t.Thorough {
		ev = 6000
	}
	js = append(js, schedJob("inst", "workers", 1, 0, true, c09Sched{tiny(6, 1), 2, 1, ev}),
		schedJob("inst", "workers", 1, 0, true, c09Sched{tiny(2, 1), 2, 1, ev / 15}),
		schedJob("inst", "workers", 1, 0, true, c09Sched{P{1, 16, 2, 1, 4, false}, 2, 1, ev / 60}))
	return js
}

func c09Run(c *Ctx) {
	var a c09Job
	c.Arg(&a)
	x4 := cpu.X86.HasAVX2
	if x4 {
		c.Count("four_way", 1)
	} else {
		c.Count("scalar", 1)
	}
	if strings.HasSuffix(c.Build, noAVX2) && x4 {
		c.Out.Notes = append(c.Out.Notes, "AVX2 could not be switched off")
		c.Out.Capped = true
		return
	}
	key := "c09"
	f := fix(a.P, key)
	defer func() { fixes = map[string]*Fix{} }()
	var tree0 map[xmssmt.SubTreeAddress][]byte
	for _, th := range a.Threads {
		if c.Stop() {
			return
		}
		if !c.Case(fmt.Sprintf("%v with %d threads, AVX2 %v", a.P, th, x4)) {
			continue
		}
		sk, pk, m, err := f.deriveMem(th)
		if err != nil {
			c.Violation("Derive: %v", err)
			return
		}
		if s := f.pkRight(pk); s != "" {
			c.Violation("%s", s)
			return
		}
		c.Sig("pk", hexs(f.Pk))
		for _, idx := range a.Idx {
			if idx >= f.max() && a.P.H > 1 || idx > 0 && a.P.H == 1 {
				continue
			}
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
			msg := fmt.Sprint("message ", idx)
			sig, err := sk.Sign([]byte(msg))
			if err != nil {
				c.Violation("Sign(%d): %v", idx, err)
				return
			}
			enc, _ := sig.MarshalBinary()
			if s := f.right(idx, msg, enc); s != "" {
				c.Violation("%s", s)
				return
			}
			c.SigHash(hashStr(string(enc)))
			for _, k := range []int{th, 1} {
				var pk2 xmssmt.PublicKey
				if err := pk2.UnmarshalBinary(f.Pk); err != nil {
					c.Violation("%v", err)
					return
				}
				pk2.Context().Threads = k
				if ok, err := pk2.Verify(sig, []byte(msg)); !ok || err != nil {
					c.Violation("Verify with %d threads: %v %v", k, ok, err)
					return
				}
				// a chain value, a path node and the message altered
				r := a.P.r()
				for _, off := range []int{4 + r.IdxLen() + a.P.N, 4 + r.IdxLen() + a.P.N + r.Len()*a.P.N - 1,
					4 + r.IdxLen() + a.P.N + r.Len()*a.P.N, len(enc) - 1} {
					bad := append([]byte(nil), enc...)
					bad[off] ^= 0x10
					var s2 xmssmt.Signature
					if err := s2.UnmarshalBinary(bad); err != nil {
						continue
					}
					if ok, _ := pk2.Verify(&s2, []byte(msg)); ok {
						c.Violation("with byte %d altered, the signature is still accepted", off)
						return
					}
				}
				if ok, _ := pk2.Verify(sig, []byte(msg+"x")); ok {
					c.Violation("another message is accepted")
					return
				}
				if th == 1 {
					break
				}
			}
		}
		if tree0 == nil {
			tree0 = m.trees
		} else {
			for ad, b := range m.trees {
				if o, ok := tree0[ad]; ok && !bytes.Equal(o, b) {
					c.Violation("the cached subtree %v differs from that made with %d threads", ad, a.Threads[0])
					return
				}
			}
		}
		c.Count("keys", 1)
	}
}

// counts tells how many digits have which value.
type counts struct {
	val []int
	num []int
}

// c09Family lists distributions of the values of the message digits.
func c09Family(p P, fam string, t Tier) (out []counts) {
	l := p.r().Len1()
	ok := func(n int) bool { return true }
	switch fam {
	case "all":
		if p.N > 16 {
			// only counts near the extremes and the middle
			ok = func(n int) bool {
				return n <= 6 || n >= l-6 || n >= l/2-2 && n <= l/2+2
			}
			if t.Thorough {
				ok = func(n int) bool { return n <= 13 || n >= l-13 || n >= l/2-6 && n <= l/2+6 }
			}
		}
		for a := 0; a <= l; a++ {
			for b := 0; a+b <= l; b++ {
				for c := 0; a+b+c <= l; c++ {
					if d := l - a - b - c; ok(a) && ok(b) && ok(c) && ok(d) {
						out = append(out, counts{[]int{0, 1, 2, 3}, []int{a, b, c, d}})
					}
				}
			}
		}
	case "pairs", "triples":
		var vals []int
		switch p.W {
		case 4, 16:
			for v := 0; v < p.W; v++ {
				vals = append(vals, v)
			}
			if p.W == 16 && fam == "triples" {
				vals = []int{0, 1, 7, 14, 15}
			}
		default:
			vals = []int{0, 1, 2, 128, 254, 255}
		}
		for _, a := range vals {
			for _, b := range vals {
				if a == b {
					continue
				}
				if fam == "pairs" {
					if a < b {
						step := 1
						if p.W == 256 && !t.Thorough {
							step = 3
						}
						for n := 0; n <= l; n += step {
							out = append(out, counts{[]int{a, b}, []int{n, l - n}})
						}
					}
					continue
				}
				for _, c := range vals {
					if c <= b || c == a {
						continue
					}
					for i := 1; i <= 5; i++ {
						for j := 1; j <= 5; j++ {
							out = append(out, counts{[]int{a, b, c}, []int{l - i - j, i, j}})
						}
					}
				}
			}
		}
	}
	return
}

// place puts the digits in some order.
func (k counts) place(l, how int) []int {
	var d []int
	for i, v := range k.val {
		for j := 0; j < k.num[i]; j++ {
			d = append(d, v)
		}
	}
	out := make([]int, l)
	for i := range d {
		switch how % 4 {
		case 0: // spread
			out[i*5%l] = d[i]
			if l%5 == 0 {
				out[i] = d[i]
			}
		case 1: // ascending
			out[i] = d[i]
		case 2: // descending
			out[l-1-i] = d[i]
		case 3: // from both ends
			if i%2 == 0 {
				out[i/2] = d[i]
			} else {
				out[l-1-i/2] = d[i]
			}
		}
	}
	return out
}

func c09Digits(c *Ctx) {
	var a c09Job
	c.Arg(&a)
	p := a.P
	if strings.HasSuffix(c.Build, noAVX2) == cpu.X86.HasAVX2 && cpu.X86.HasAVX2 {
		c.Out.Capped = true
		return
	}
	ref.MsgDigest = vhash.Dictated
	defer func() {
		ref.MsgDigest = nil
		fixes = map[string]*Fix{}
	}()
	fixes = map[string]*Fix{}
	f := fix(p, "c09")
	sk, pk, _, err := f.deriveMem(1)
	if err != nil {
		c.Violation("Derive: %v", err)
		return
	}
	r := p.r()
	chains := f.K.Chains(0, 0, 0)
	fam := c09Family(p, a.Family, c.Tier)
	for i := a.From; i < a.To && i < len(fam); i++ {
		if c.Stop() {
			return
		}
		if !c.Case(fmt.Sprintf("%v: %s digits %d/%d", p, a.Family, i, a.Arr)) {
			continue
		}
		dig := fam[i].place(r.Len1(), i+a.Arr)
		md := r.Undigits(dig)
		msg := append([]byte(vhash.Magic), md...)
		sk.DangerousSetSeqNo(0)
		sig, err := sk.Sign(msg)
		if err != nil {
			c.Violation("Sign: %v", err)
			return
		}
		enc, _ := sig.MarshalBinary()
		off := 4 + r.IdxLen() + p.N
		for k, d := range r.Digits(md) {
			if !bytes.Equal(enc[off+k*p.N:off+(k+1)*p.N], chains[k][d]) {
				c.Violation("with digits %v, chain %d is not revealed at position %d", dig, k, d)
				return
			}
		}
		if ok, err := pk.Verify(sig, msg); !ok || err != nil {
			c.Violation("with digits %v, the genuine signature does not verify: %v %v", dig, ok, err)
			return
		}
		c.Count("digests", 1)
		c.SigHash(hashStr(fmt.Sprint(p, dig)))
		c.Sample("%v: digits %v", p, dig)
	}
}

func (a c09Sched) run(prefix []int16) run {
	f := fix(a.P, "c09")
	world(nil)
	want := c09Tree(f)
	vruntime.CPUs = a.CPUs
	vsync.TickEvery = max(a.Every, 1)
	defer func() { vsync.TickEvery = 1 }()
	bad := ""
	sigs := ""
	ticks := vsync.PointAtTicks
	r := vsync.Run(prefix, horizon, func() {
		sk, pk, m, err := f.deriveMem(a.Threads)
		if err != nil {
			bad = "Derive: " + err.Error()
			return
		}
		vsync.PointAtTicks = false
		if s := f.pkRight(pk); s != "" {
			bad = s
			return
		}
		for ad, b := range m.trees {
			if w, ok := want[ad]; ok && !bytes.Equal(w, b) {
				bad = fmt.Sprintf("the cached subtree %v is not the one made without threads", ad)
				return
			}
		}
		sk.Context().Threads = 1
		for _, idx := range []uint64{0, f.max() - 1} {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
			sig, err := sk.Sign([]byte("m"))
			if err != nil {
				bad = "Sign: " + err.Error()
				return
			}
			enc, _ := sig.MarshalBinary()
			if s := f.right(idx, "m", enc); s != "" {
				bad = s
				return
			}
			sigs += hexs(enc[:16])
		}
	})
	vsync.PointAtTicks = ticks
	if e := r.Err(); e != "" {
		bad = e
	}
	return run{res: r, bad: bad, sig: fmt.Sprint(r.Switches, r.Threads, sigs)}
}

var c09Trees = map[string]map[xmssmt.SubTreeAddress][]byte{}

// c09Tree returns the cached subtrees after making a key without threads.
func c09Tree(f *Fix) map[xmssmt.SubTreeAddress][]byte {
	k := fmt.Sprint(f.P)
	if t, ok := c09Trees[k]; ok {
		return t
	}
	_, _, m, err := f.deriveMem(1)
	if err != nil {
		panic(err)
	}
	c09Trees[k] = m.trees
	return m.trees
}
