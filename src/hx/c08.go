//go:build go1.21

package main

import (
	"fmt"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vhash"
)

// C08: the WOTS+ checksum.

type c08Job struct {
	P      P
	From   int
	To     int
	Step   int
	Arr    int // number of arrangements
	Verify int // verify every so many
}

func init() {
	register(&Check{
		ID: "C08", Level: "model_checking",
		Rule:        "for every (hash, n, w, PRF): one digest per attainable checksum value and arrangement of the digits is dictated to the real Sign (the hash function is replaced so that the digest of a chosen message is known); the positions on all chains, read off the signature, must be the digits and checksum digits of the specification, Verify must accept, and a signature moved up one chain must be rejected for the next digest; an outcome is one vector of chain positions",
		Assumptions: []string{"the code uses the digest of the message only through its value", "the digest-to-positions map is the same for dictated and real digests (checked on real signatures as well)"},
		Explain:     "states are vectors of chain positions observed in real signatures",
		Plan:        c08Plan,
		Budget:      [2]int{120, 1500},
	})
	handle("c08", c08Run)
	handle("c08real", c08Real)
}

func c08Plan(t Tier) []Job {
	var jobs []Job
	for f := 0; f < 3; f++ {
		for _, n := range nsel(P{}) {
			for _, w := range []int{256, 16, 4} {
				for _, nist := range []bool{false, true} {
					p := P{f, n, 1, 1, w, nist}
					max := p.r().Len1() * (w - 1)
					j := c08Job{P: p, Step: 1, Arr: 4, Verify: 1}
					if w == 256 {
						j.Arr = 1
						j.Verify = 8
						if t.Thorough {
							j.Arr, j.Verify = 3, 2
						}
					}
					if f > 0 || nist {
						// the digits do not depend on these: fewer values
						j.Step = max/97 + 1
						j.Arr = 1
						if t.Thorough {
							j.Step = max/1500 + 1
						}
					}
					chunk := 2000
					if f == 0 && w == 256 {
						chunk = 600
					}
					for from := 0; from <= max; from += chunk * j.Step {
						j.From, j.To = from, from+chunk*j.Step-1
						if j.To > max {
							j.To = max
						}
						jobs = append(jobs, mkjob("mock", "c08", j))
					}
					jobs = append(jobs, mkjob("plain", "c08real", c08Job{P: p}))
				}
			}
		}
	}
	return jobs
}

// arrange lays out len1 digits such that the remaining chain lengths add up
// to c.
func arrange(p ref.Params, c, how int) []int {
	l := p.Len1()
	d := make([]int, l)
	for i := range d {
		d[i] = p.W - 1
	}
	take := func(i, m int) {
		x := p.W - 1
		if d[i] < x {
			x = d[i]
		}
		if x > m {
			x = m
		}
		if x > c {
			x = c
		}
		d[i] -= x
		c -= x
	}
	switch how {
	case 0:
		for i := 0; i < l; i++ {
			take(i, p.W)
		}
	case 1:
		for i := l - 1; i >= 0; i-- {
			take(i, p.W)
		}
	case 2:
		each := c/l + 1
		for i := 0; i < l; i++ {
			take(i*7%l, each)
		}
		for i := 0; i < l; i++ {
			take(i, p.W)
		}
	case 3:
		for i := 0; i < l; i += 2 {
			take(i, p.W)
		}
		for i := 1; i < l; i += 2 {
			take(i, p.W)
		}
	}
	return d
}

func c08Run(c *Ctx) {
	var a c08Job
	c.Arg(&a)
	p := a.P
	vhash.Cheap = p.F == 0
	ref.HashFn = nil
	if vhash.Cheap {
		ref.HashFn = vhash.MixSum
	}
	ref.MsgDigest = vhash.Dictated
	defer func() {
		vhash.Cheap = false
		ref.HashFn, ref.MsgDigest = nil, nil
		fixes = map[string]*Fix{}
	}()
	fixes = map[string]*Fix{}
	f := fix(p, "c08")
	sk, pk, _, err := f.deriveMem(1)
	if err != nil {
		c.cur = fmt.Sprintf("%v/key", p)
		c.Violation("Derive(%v): %v", p, err)
		return
	}
	r := p.r()
	pos := make([]map[string]int, r.Len())
	chains := f.K.Chains(0, 0, 0)
	for i, ch := range chains {
		pos[i] = map[string]int{}
		for j, v := range ch {
			pos[i][string(v)] = j
		}
	}
	n := 0
	for v := a.From; v <= a.To; v += a.Step {
		for arr := 0; arr < a.Arr; arr++ {
			if !c.Case(fmt.Sprintf("%v/checksum %d/%d", p, v, arr)) {
				continue
			}
			dig := arrange(r, v, arr)
			msg := append([]byte(vhash.Magic), r.Undigits(dig)...)
			sk.DangerousSetSeqNo(0)
			sig, err := sk.Sign(msg)
			if err != nil {
				c.Violation("%v: %v", p, err)
				return
			}
			enc, err2 := sig.MarshalBinary()
			if err2 != nil {
				c.Violation("%v: %v", p, err2)
				return
			}
			c.Count("transitions", 1)
			off := 4 + r.IdxLen() + p.N
			got := make([]int, r.Len())
			for i := range got {
				x, ok := pos[i][string(enc[off+i*p.N:off+(i+1)*p.N])]
				if !ok {
					x = -1
				}
				got[i] = x
			}
			want := r.Digits(r.Undigits(dig))
			for i := range want {
				if got[i] != want[i] {
					c.Violation("%v: digest %x with checksum %d: chain %d (of %d message and %d checksum chains) is revealed at position %d instead of %d\npositions %v\nshould be %v",
						p, r.Undigits(dig), v, i, r.Len1(), r.Len2(), got[i], want[i], got, want)
					return
				}
			}
			c.Count("traces_validated_against_impl", 1)
			c.SigHash(hashStr(fmt.Sprint(p.N, p.W, got)))
			n++
			c.Sample("%v checksum %d: digits %v", p, v, got)
			if n%a.Verify == 0 {
				if ok, err := pk.Verify(sig, msg); !ok {
					c.Violation("%v: the signature of digest %x does not verify: %v", p, r.Undigits(dig), err)
					return
				}
				// move up one chain: must not be a signature of the
				// digest with that digit increased
				for i := 0; i < r.Len1(); i++ {
					if dig[i] == p.W-1 {
						continue
					}
					dig[i]++
					forged := append([]byte(nil), enc...)
					copy(forged[off+i*p.N:], chains[i][dig[i]])
					m2 := append([]byte(vhash.Magic), r.Undigits(dig)...)
					var s2 xmssmt.Signature
					if err := s2.UnmarshalBinary(forged); err != nil {
						break
					}
					if ok, _ := pk.Verify(&s2, m2); ok {
						c.Violation("%v: a signature of digest %x, moved up chain %d, is accepted for digest %x",
							p, msg[len(vhash.Magic):], i, m2[len(vhash.Magic):])
						return
					}
					c.Count("forgeries_rejected", 1)
					break
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

// c08Real reads the positions off ordinary signatures.
func c08Real(c *Ctx) {
	var a c08Job
	c.Arg(&a)
	p := a.P
	r := p.r()
	p.H = 2
	f := fix(p, "c08")
	defer delete(fixes, fmt.Sprint(p, "c08"))
	sk, _, _, err := f.deriveMem(1)
	if err != nil {
		c.cur = fmt.Sprintf("%v/key", p)
		c.Violation("Derive(%v): %v", p, err)
		return
	}
	r = p.r()
	chains := f.K.Chains(0, 0, 0)
	num := 12
	if p.W == 256 {
		num = 3
	}
	for m := 0; m < num; m++ {
		if !c.Case(fmt.Sprintf("%v/real %d", p, m)) {
			continue
		}
		msg := []byte(fmt.Sprint("real", m))
		sk.DangerousSetSeqNo(0)
		sig, err := sk.Sign(msg)
		if err != nil {
			c.Violation("%v: %v", p, err)
			return
		}
		enc, _ := sig.MarshalBinary()
		_, ots := ref.Verify(r, f.Root, f.PubSeed, msg, enc[4:])
		if len(ots) == 0 {
			c.Violation("%v: signature of unexpected size", p)
			return
		}
		want := r.Digits(ots[0].Value)
		off := 4 + r.IdxLen() + p.N
		for i, w := range want {
			if string(enc[off+i*p.N:off+(i+1)*p.N]) != string(chains[i][w]) {
				c.Violation("%v: message %q with digest %x: chain %d is not revealed at position %d", p, msg, ots[0].Value, i, w)
				return
			}
		}
		c.Count("transitions", 1)
		c.Count("traces_validated_against_impl", 1)
		c.SigHash(hashStr(fmt.Sprint(p, want)))
	}
}
