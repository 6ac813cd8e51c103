//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"sort"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
)

// C07: keys and signatures are bit-exact.

type c07Job struct {
	P   P
	Key string
	Idx []uint64 // nil: all
}

func allIdx(p P) []uint64 {
	var r []uint64
	for i := uint64(0); i+1 < 1<<uint(p.H); i++ {
		r = append(r, i)
	}
	return r
}

// boundaryIdx lists indices at which something carries.
func boundaryIdx(p P) []uint64 {
	seen := map[uint64]bool{}
	var r []uint64
	add := func(x uint64) {
		if x+1 < 1<<uint(p.H) && !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	ht := p.H / p.D
	for l := 0; l <= p.D; l++ {
		for _, s := range []int{l * ht, 8 * l, 32} {
			if s <= p.H && s < 64 {
				b := uint64(1) << uint(s)
				add(b - 1)
				add(b)
				add(b + 1)
			}
		}
	}
	m := uint64(1)<<uint(p.H) - 2
	add(m)
	add(m - 1)
	add(m &^ (1<<uint(ht) - 1))
	add(0x0123456789abcdef & m)
	add(0x0edcba9876543210 & m)
	return r
}

var msgs = []string{"", "a", "message of 31 bytes ............", string(seedBytes("m", 55)), string(seedBytes("m", 64)),
	string(seedBytes("m", 135)), string(seedBytes("m", 136)), string(seedBytes("m", 137)), string(seedBytes("m", 300))}

func nsel(p P) []int { return []int{16, 24, 32, 64} }

// cost estimates the number of hashes to make nsig signatures.
func cost(p P, nsig int) int {
	r := p.r()
	leaves := 4 * (1<<uint(p.H) + 1)
	if p.H >= 12 {
		leaves = 2 * p.D * (1 << uint(p.H/p.D)) * (nsig + 1)
	}
	c := (leaves + nsig*p.D*5/2) * r.Len() * p.W * 3
	if p.N == 64 {
		c *= 2
	}
	if p.F > 0 {
		c *= 2
	}
	return c
}

func init() {
	register(&Check{
		ID: "C07", Level: "model_checking",
		Rule:        "every supported (hash, n, w, PRF) x tree shape x leaf index (large trees: indices at which a counter carries); the public key, the signature and both verifications are compared with an independent transcription of the RFC; an outcome is one signature",
		Assumptions: []string{"the reference transcription (src/ref) follows RFC 8391 and SP 800-208; it reproduces the repository's vectors generated by the reference C code", "Go's SHA-2 and SHA-3 are right"},
		Explain:     "states are (parameter set, index) pairs reached, each with the real key driven to that index; transitions are signatures made and compared",
		Plan:        c07Plan,
		Budget:      [2]int{150, 1500},
	})
	handle("c07", c07Run)
	handle("c07tall", c07Tall)
}

func c07Plan(t Tier) []Job {
	type cand struct {
		cost int
		job  c07Job
	}
	var must, may []cand
	shapes := [][2]int{{1, 1}, {2, 1}, {2, 2}, {3, 1}, {3, 3}, {4, 2}, {6, 3}, {6, 2}, {5, 5}, {4, 1}, {8, 4}, {9, 9}}
	big := [][2]int{{60, 30}, {62, 31}, {63, 21}, {40, 20}, {33, 11}, {24, 12}, {17, 17}, {56, 28}, {60, 12}, {20, 4}, {40, 8}}
	for f := 0; f < 3; f++ {
		for _, n := range nsel(P{}) {
			for _, w := range []int{4, 16, 256} {
				for _, nist := range []bool{false, true} {
					for si, s := range shapes {
						p := P{f, n, s[0], s[1], w, nist}
						k := cand{cost(p, 1<<uint(s[0])), c07Job{P: p}}
						// the first three shapes are done for every parameter set
						if si < 3 {
							must = append(must, k)
						} else {
							may = append(may, k)
						}
					}
				}
				for si, s := range big {
					p := P{f, n, s[0], s[1], w, n == 24}
					ix := boundaryIdx(p)
					if !t.Thorough {
						var iy []uint64
						step := len(ix)/8 + 1
						for i, x := range ix {
							if i%step == (f+si+n/8)%step {
								iy = append(iy, x)
							}
						}
						ix = iy
					}
					may = append(may, cand{cost(p, len(ix)), c07Job{P: p, Idx: ix}})
				}
			}
		}
	}
	sort.SliceStable(may, func(i, j int) bool { return may[i].cost < may[j].cost })
	budget := 1000000000
	if t.Thorough {
		budget = 40000000000
	}
	var jobs []Job
	add := func(k cand) {
		budget -= k.cost
		jobs = append(jobs, mkjob("plain", "c07", k.job))
	}
	sort.SliceStable(must, func(i, j int) bool { return must[i].cost > must[j].cost })
	for _, k := range must {
		add(k)
	}
	for _, k := range may {
		if budget < k.cost {
			break
		}
		add(k)
	}
	// Tall subtrees, whose leaf and node numbers need more than one byte (or
	// two); the reference does not compute these whole.
	tall := []tallJob{
		{P{0, 16, 9, 1, 4, false}, 1}, {P{0, 16, 18, 2, 4, true}, 1},
		{P{0, 32, 20, 2, 16, false}, 1}, {P{1, 32, 20, 2, 16, false}, 1},
		{P{2, 24, 10, 1, 16, true}, 3}, {P{0, 64, 11, 1, 4, false}, 2},
		{P{0, 16, 36, 3, 4, false}, 2}, {P{0, 16, 34, 2, 4, true}, 8},
	}
	if t.Thorough {
		for f := 0; f < 3; f++ {
			for _, n := range nsel(P{}) {
				for _, w := range []int{4, 16, 256} {
					tall = append(tall, tallJob{P{f, n, 20, 2, w, n == 24}, 1}, tallJob{P{f, n, 10, 1, w, false}, 5})
				}
			}
			tall = append(tall, tallJob{P{f, 16, 17, 1, 4, false}, 7}, tallJob{P{f, 32, 16, 1, 16, false}, 8},
				tallJob{P{f, 16, 60, 5, 4, true}, 3})
		}
		tall = append(tall, tallJob{P{0, 32, 20, 1, 16, false}, 8}, tallJob{P{0, 32, 40, 2, 16, false}, 8})
	}
	for i := len(tall) - 1; i >= 0; i-- {
		jobs = append([]Job{mkjob("plain", "c07tall", tall[i])}, jobs...)
	}
	return jobs
}

type tallJob struct {
	P       P
	Threads int
}

func c07Tall(c *Ctx) {
	var a tallJob
	c.Arg(&a)
	p := a.P
	if !c.Case(fmt.Sprintf("%v/tall", p)) && c.Only == "" {
		return
	}
	f := &Fix{P: p, SkSeed: seedBytes("tall skseed", p.N), SkPrf: seedBytes("tall skprf", p.N), PubSeed: seedBytes("tall pubseed", p.N)}
	f.Hdr = header(p)
	f.K = ref.NewKey(p.r(), f.SkSeed, f.SkPrf, f.PubSeed)
	sk, pk, _, err := f.deriveMem(a.Threads)
	if err != nil {
		c.Violation("Derive(%v): %v", p, err)
		return
	}
	enc, err2 := pk.MarshalBinary()
	if err2 != nil || len(enc) != 4+2*p.N {
		c.Violation("%v: MarshalBinary of the public key: %v", p, err2)
		return
	}
	root := enc[4 : 4+p.N]
	ht := uint(p.H / p.D)
	leaves := []uint64{0, 1, 0xaaaaaaaaaaaa & (1<<ht - 1), 1<<ht - 2, 1<<ht - 1}
	for _, b := range []uint64{1 << 7, 1 << 8, 1 << 15, 1 << 16} {
		if b < 1<<ht {
			leaves = append(leaves, b-1, b, b+1, b|5)
		}
	}
	// On the layers above, the leaf that signs is varied for only one leaf
	// of the lowest layer, as the trees below must be computed.
	var idx []uint64
	for _, l := range leaves {
		idx = append(idx, l)
	}
	if p.D == 2 && ht > 16 {
		for i := range idx {
			idx[i] |= (1<<16 | 5) << ht
		}
	}
	for l := 1; l < p.D && ht <= 16; l++ {
		up := []uint64{1<<ht - 2, 1 << (ht - 1), 1<<(ht-1) | 3}
		for _, u := range up {
			idx = append(idx, u<<(uint(l)*ht)|leaves[len(leaves)-1])
		}
	}
	for i, ix := range idx {
		if ix+1 >= 1<<uint(p.H) {
			continue
		}
		msg := msgs[i%len(msgs)]
		if !c.Case(fmt.Sprintf("%v/tall/%d", p, ix)) {
			continue
		}
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(ix))
		s, err := sk.Sign([]byte(msg))
		if err != nil {
			c.Violation("%v: Sign at %d: %v", p, ix, err)
			return
		}
		enc, err2 := s.MarshalBinary()
		if err2 != nil {
			c.Violation("%v: MarshalBinary: %v", p, err2)
			return
		}
		c.Count("transitions", 1)
		if !bytes.Equal(enc[:4], f.Hdr) {
			c.Violation("%v: header of signature %d", p, ix)
		}
		if e := f.K.Judge(root, ix, []byte(msg), enc[4:]); e != "" {
			c.Violation("%v: signature %d on %q %s", p, ix, msg, e)
			return
		}
		if ok, err := pk.Verify(s, []byte(msg)); !ok {
			c.Violation("%v: signature %d does not verify: %v", p, ix, err)
		}
		c.Count("traces_validated_against_impl", 1)
		c.Sig(p, ix)
		c.Sample("%v index %d: signature valid, made with the right one-time keys", p, ix)
		if c.Stop() {
			return
		}
	}
}

func c07Run(c *Ctx) {
	var a c07Job
	c.Arg(&a)
	p := a.P
	f := fix(p, a.Key)
	defer delete(fixes, fmt.Sprint(p, a.Key))
	if !c.Case(fmt.Sprintf("%v/key", p)) && c.Only == "" {
		return
	}
	sk, pk, _, err := f.deriveMem(1)
	if err != nil {
		c.Violation("Derive(%v): %v", p, err)
		return
	}
	if sk.Context().SignatureSize() != uint32(p.r().SigSize()) {
		c.Violation("SignatureSize is %d, not %d", sk.Context().SignatureSize(), p.r().SigSize())
	}
	if e := f.pkRight(pk); e != "" {
		c.Violation("%v: %s", p, e)
		return
	}
	idx := a.Idx
	if idx == nil {
		idx = allIdx(p)
	}
	for i, ix := range idx {
		msg := msgs[i%len(msgs)]
		if !c.Case(fmt.Sprintf("%v/%d", p, ix)) {
			continue
		}
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(ix))
		s, err := sk.Sign([]byte(msg))
		if err != nil {
			c.Violation("%v: Sign at %d: %v", p, ix, err)
			return
		}
		enc, err2 := s.MarshalBinary()
		if err2 != nil {
			c.Violation("%v: MarshalBinary: %v", p, err2)
			return
		}
		c.Count("transitions", 1)
		if uint64(s.SeqNo()) != ix {
			c.Violation("%v: signature has number %d, not %d", p, s.SeqNo(), ix)
		}
		want := append(append([]byte(nil), f.Hdr...), f.K.Sign(ix, []byte(msg))...)
		if !bytes.Equal(enc, want) {
			c.Violation("%v: signature %d on %q: %s", p, ix, msg, diffParts(p, enc, want))
			return
		}
		if ok, _ := ref.Verify(p.r(), f.Root, f.PubSeed, []byte(msg), enc[4:]); !ok {
			c.Violation("%v: signature %d is not valid according to the RFC", p, ix)
		}
		if ok, err := pk.Verify(s, []byte(msg)); !ok {
			c.Violation("%v: signature %d does not verify: %v", p, ix, err)
		}
		c.Count("traces_validated_against_impl", 1)
		c.Sig(p, ix)
		c.Sample("%v index %d message of %d bytes: R=%x.. equal to the reference", p, ix, len(msg), enc[4+p.r().IdxLen():][:6])
		if c.Stop() {
			return
		}
	}
}
