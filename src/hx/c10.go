//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vhash"
)

// C10: verification accepts exactly the genuine signature.

type c10Job struct {
	P    P
	Idx  uint64
	Part string // "flip", "swap", "msg", "mix", "pk", "rejectbits"
	From int    `json:",omitempty"` // bits or blocks, for dividing the work
	To   int    `json:",omitempty"`
	Step int    `json:",omitempty"` // flips: every so many bytes beyond the first 64 of each part
}

func init() {
	register(&Check{
		ID: "C10", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "every change of a kind is made to genuine signatures, public keys and messages, and the real Verify (of encoded and of decoded objects) must reject it with an error: all single bits of signature, header and public key, all bits and lengths of messages, all ordered pairs of blocks (hash values) copied and exchanged, all mixtures of layers of two signatures, all ways to pair messages, signatures and keys; with dictated hash values, every single bit of the root computed from the signature and of the message digest must matter; an outcome is a rejected change or an accepted genuine signature",
		Assumptions: []string{"no collisions of the hash functions turn up"},
		Plan:        c10Plan,
	})
	handle("c10", c10Run)
	handle("c10bits", c10Bits)
}

func c10Sets(t Tier) []P {
	ps := []P{{0, 16, 2, 2, 256, false}, {0, 16, 2, 1, 16, false}, {1, 16, 2, 2, 16, false}, {0, 32, 2, 2, 16, false},
		{1, 32, 2, 1, 16, false}, {2, 32, 1, 1, 16, false}, {2, 24, 2, 1, 16, true}, {0, 24, 2, 2, 16, true},
		{0, 64, 1, 1, 16, false}, {1, 64, 1, 1, 16, false}, {0, 16, 3, 3, 4, false}, {0, 24, 1, 1, 4, false},
		{1, 32, 2, 2, 16, true}, {0, 16, 9, 9, 16, false}, {1, 16, 4, 1, 4, false}, {2, 16, 2, 1, 256, true}, {0, 32, 4, 2, 4, true}}
	if t.Thorough {
		for f := 0; f < 3; f++ {
			for _, n := range nsel(P{}) {
				for _, w := range []int{4, 16, 256} {
					for _, nist := range []bool{false, true} {
						ps = append(ps, P{f, n, 2, 2, w, nist}, P{f, n, 2, 1, w, nist})
					}
				}
			}
		}
		ps = append(ps, P{0, 16, 40, 20, 16, false}, P{0, 16, 17, 17, 16, false}, P{1, 32, 6, 2, 16, false})
	}
	return ps
}

func c10Plan(t Tier) []Job {
	var js []Job
	for pi, p := range c10Sets(t) {
		r := p.r()
		size := 4 + r.SigSize()
		last := uint64(1)<<uint(p.H) - 2
		if p.H == 1 {
			last = 0
		}
		for _, idx := range []uint64{last, 0} {
			j := c10Job{P: p, Idx: idx, Part: "flip", Step: 1}
			if !t.Thorough {
				if idx == 0 && p.H > 1 && pi > 2 {
					continue
				}
				j.Step = 1 + r.Len()*p.W*p.D*p.D*p.D/2000
				if idx == 0 {
					j.Step *= 5
				}
			}
			const chunk = 512
			for o := 0; o < size; o += chunk {
				j.From, j.To = o, o+chunk
				if j.To > size {
					j.To = size
				}
				js = append(js, mkjob("plain", "c10", j))
			}
			j.Step = 0
			j.From, j.To = 0, 0
			parts := []string{"pk", "msg", "mix"}
			if (pi > 4 || p.W == 256) && !t.Thorough {
				parts = parts[:1]
				if p.D > 2 {
					parts = append(parts, "mix")
				}
			}
			if idx == last {
				blocks := (r.SigSize() - r.IdxLen()) / p.N
				if t.Thorough || r.Len()*p.W*p.D*blocks*blocks < 20e6 {
					for b := 0; b < blocks; b++ {
						k := j
						k.Part, k.From, k.To = "swap", b, b+1
						js = append(js, mkjob("plain", "c10", k))
					}
				}
				parts = append(parts, "header")
			}
			for _, part := range parts {
				j.Part = part
				js = append(js, mkjob("plain", "c10", j))
			}
			if last == 0 {
				break
			}
		}
	}
	for f := 0; f < 3; f++ {
		for _, n := range nsel(P{}) {
			for _, w := range []int{4, 16, 256} {
				for _, nist := range []bool{false, true} {
					p := P{f, n, 2, 2, w, nist}
					if !t.Thorough {
						if w == 256 && f > 0 || n == 64 && nist {
							continue
						}
						if w == 256 || n == 64 || f > 0 {
							p.H, p.D = 1, 1
						}
					}
					js = append(js, mkjob("mock", "c10bits", c10Job{P: p, Idx: 1}))
				}
			}
		}
	}
	js = append(js, mkjob("plain", "c10", c10Job{Part: "pairs"}))
	return js
}

// genuine makes a signature with the real code.
func genuine(f *Fix, idx uint64, msg string) (pk *xmssmt.PublicKey, sig *xmssmt.Signature, enc []byte, err error) {
	sk, pk, _, err := f.deriveMem(1)
	if err != nil {
		return nil, nil, nil, err
	}
	sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(idx))
	s, err2 := sk.Sign([]byte(msg))
	if err2 != nil {
		return nil, nil, nil, err2
	}
	enc, err = s.MarshalBinary()
	return pk, s, enc, err
}

// rejected tells what is wrong if the verdict isn't that of an invalid
// signature.
func rejected(ok bool, err error) string {
	if ok {
		return "is accepted"
	}
	if err == nil {
		return "is rejected without an error"
	}
	return ""
}

func c10Run(c *Ctx) {
	var a c10Job
	c.Arg(&a)
	if a.Part == "pairs" {
		c10Pairs(c)
		return
	}
	p := a.P
	f := fix(p, "c10")
	msg := "to be signed"
	name := fmt.Sprintf("%v/%d/%s", p, a.Idx, a.Part)
	c.cur = name
	pk, sigObj, enc, err := genuine(f, a.Idx, msg)
	if err != nil {
		c.Violation("%s: %v", name, err)
		return
	}
	okNow := func() {
		if ok, err := xmssmt.Verify(f.Pk, enc, []byte(msg)); !ok || err != nil {
			c.Violation("%s: the genuine signature is rejected: %v", name, err)
		}
		if ok, err := pk.Verify(sigObj, []byte(msg)); !ok || err != nil {
			c.Violation("%s: the genuine signature is rejected as object: %v", name, err)
		}
		c.Count("genuine_accepted", 2)
	}
	okNow()
	// reject makes sure that something is rejected.
	// A public key that verified the genuine signature shortly before must
	// reject it too.
	since := 0
	reject := func(what func() string, pkb, sig []byte, m []byte) bool {
		c.Count("changes_rejected", 1)
		c.Count("traces_validated_against_impl", 1)
		c.Count("transitions", 1)
		ok, err := xmssmt.Verify(pkb, sig, m)
		var e error
		if err != nil {
			e = err
		}
		if bad := rejected(ok, e); bad != "" {
			c.Violation("%s: genuine signature on %q with %s %s", name, msg, what(), bad)
		}
		if len(pkb) > 0 && &pkb[0] == &f.Pk[0] {
			var s xmssmt.Signature
			if s.UnmarshalBinary(sig) == nil {
				ok, err := pk.Verify(&s, m)
				var e error
				if err != nil {
					e = err
				}
				if bad := rejected(ok, e); bad != "" {
					c.Violation("%s: genuine signature on %q with %s, after the genuine one, %s", name, msg, what(), bad)
				}
				c.Count("transitions", 1)
			}
			if since++; since%8 == 0 || c.Only != "" {
				if ok, err := pk.Verify(sigObj, []byte(msg)); !ok || err != nil {
					c.Violation("%s: the genuine signature is rejected after one with %s: %v", name, what(), err)
				}
			}
		}
		return !c.Stop()
	}
	r := p.r()
	switch a.Part {
	case "flip", "header":
		from, to := a.From, a.To
		if a.Part == "header" {
			from, to = 0, 4+r.IdxLen()
		}
		buf := append([]byte(nil), enc...)
		for o := from; o < to; o++ {
			body := o - 4 - r.IdxLen() - p.N
			if a.Step > 1 && body >= 0 {
				// every bit of every so many bytes; the first and last bytes of blocks are never left out
				if k := body % p.N; k != 0 && k != p.N-1 && body%a.Step != 0 {
					continue
				}
			}
			if !c.Case(fmt.Sprintf("%s/byte %d", name, o)) {
				continue
			}
			for bit := 0; bit < 8; bit++ {
				if a.Step > 1 && body >= 0 && bit != (body/7)%8 && bit != 7-(body/p.N)%8 {
					continue
				}
				buf[o] ^= 1 << uint(bit)
				if !reject(func() string { return fmt.Sprintf("bit %d of byte %d of %d changed", bit, o, len(enc)) }, f.Pk, buf, []byte(msg)) {
					return
				}
				buf[o] ^= 1 << uint(bit)
			}
			if a.Part == "header" {
				for v := 0; v < 256; v++ {
					if byte(v) != enc[o] {
						buf[o] = byte(v)
						if !reject(func() string { return fmt.Sprintf("byte %d replaced by %x", o, v) }, f.Pk, buf, []byte(msg)) {
							return
						}
					}
				}
				buf[o] = enc[o]
			}
			c.Sig(name, o)
		}
		if c.Only == "" {
			okNow()
		}
	case "swap":
		base := 4 + r.IdxLen()
		blocks := (len(enc) - base) / p.N
		blk := func(b []byte, i int) []byte { return b[base+i*p.N : base+(i+1)*p.N] }
		for i := a.From; i < a.To; i++ {
			for j := 0; j < blocks; j++ {
				if bytes.Equal(blk(enc, i), blk(enc, j)) || !c.Case(fmt.Sprintf("%s/blocks %d %d", name, i, j)) {
					continue
				}
				buf := append([]byte(nil), enc...)
				copy(blk(buf, j), blk(enc, i))
				if !reject(func() string { return fmt.Sprintf("block %d copied over %d", i, j) }, f.Pk, buf, []byte(msg)) {
					return
				}
				if i < j {
					copy(blk(buf, i), blk(enc, j))
					if !reject(func() string { return fmt.Sprintf("blocks %d and %d exchanged", i, j) }, f.Pk, buf, []byte(msg)) {
						return
					}
				}
				c.Sig(name, i, j)
			}
			// constants
			for _, v := range []byte{0, 0xff} {
				buf := append([]byte(nil), enc...)
				for k := range blk(buf, i) {
					blk(buf, i)[k] = v
				}
				if c.Case(fmt.Sprintf("%s/block %d %x", name, i, v)) && !reject(func() string { return fmt.Sprintf("block %d filled with %x", i, v) }, f.Pk, buf, []byte(msg)) {
					return
				}
			}
			// cyclic shifts of everything from here on
			buf := append([]byte(nil), enc[:base+i*p.N]...)
			buf = append(buf, enc[base+(i+1)*p.N:]...)
			buf = append(buf, blk(enc, i)...)
			if !bytes.Equal(buf, enc) && c.Case(fmt.Sprintf("%s/block %d to the end", name, i)) &&
				!reject(func() string { return fmt.Sprintf("block %d moved to the end", i) }, f.Pk, buf, []byte(msg)) {
				return
			}
		}
	case "pk":
		buf := append([]byte(nil), f.Pk...)
		for o := range buf {
			if !c.Case(fmt.Sprintf("%s/byte %d", name, o)) {
				continue
			}
			for bit := 0; bit < 8; bit++ {
				buf[o] ^= 1 << uint(bit)
				if !reject(func() string { return fmt.Sprintf("bit %d of byte %d of the public key changed", bit, o) }, buf, enc, []byte(msg)) {
					return
				}
				if o >= 4 {
					var pk2 xmssmt.PublicKey
					if err := pk2.UnmarshalBinary(buf); err == nil {
						ok, err := pk2.Verify(sigObj, []byte(msg))
						var e error
						if err != nil {
							e = err
						}
						if bad := rejected(ok, e); bad != "" {
							c.Violation("%s: with bit %d of byte %d of the public key changed, the genuine signature %s", name, bit, o, bad)
						}
					}
				}
				buf[o] ^= 1 << uint(bit)
			}
			c.Sig(name, o)
		}
		// root and seed exchanged
		if c.Case(name + "/exchanged") {
			b2 := append(append(append([]byte(nil), f.Hdr...), f.PubSeed...), f.Root...)
			reject(func() string { return "the parts of the public key exchanged" }, b2, enc, []byte(msg))
		}
		if c.Only == "" {
			okNow()
		}
	case "msg":
		lens := []int{0, 1, 12, 31, 32, 33, 55, 56, 63, 64, 65, 135, 136, 137, 167, 168, 169, 200}
		for _, l := range lens {
			m := string(seedBytes("c10msg", 300)[:l])
			if !c.Case(fmt.Sprintf("%s/length %d", name, l)) {
				continue
			}
			_, s, e, err := genuine(f, a.Idx, m)
			if err != nil {
				c.Violation("%s: %v", name, err)
				return
			}
			msg, sigObj = m, s
			try := func(what string, m2 []byte) bool {
				if !reject(func() string { return what }, f.Pk, e, m2) {
					return false
				}
				ok, err := pk.VerifyFrom(s, bytes.NewReader(m2))
				var er error
				if err != nil {
					er = err
				}
				if bad := rejected(ok, er); bad != "" {
					c.Violation("%s: signature on a message of %d bytes with %s %s by VerifyFrom", name, l, what, bad)
				}
				return true
			}
			if ok, err := pk.Verify(s, []byte(m)); !ok || err != nil {
				c.Violation("%s: the genuine signature on %d bytes is rejected: %v", name, l, err)
			}
			b := []byte(m)
			step := 1
			if !c.Tier.Thorough {
				step = 1 + l*p.W*p.D/1500
			}
			for o := 0; o < l; o += step {
				for bit := 0; bit < 8; bit++ {
					if bit > 0 && bit < 7 && o > 2 && o < l-2 && !c.Tier.Thorough {
						continue
					}
					b[o] ^= 1 << uint(bit)
					if !try(fmt.Sprintf("bit %d of byte %d of the message changed", bit, o), b) {
						return
					}
					b[o] ^= 1 << uint(bit)
				}
			}
			for cut := 0; cut < l; cut += step {
				if !try(fmt.Sprintf("the message cut to %d bytes", cut), b[:cut]) {
					return
				}
			}
			for _, ext := range []string{"\x00", "\x80", "\x1f", " ", "\n", strings.Repeat("\x00", 64), m + "x"} {
				if !try("the message extended", append(append([]byte(nil), b...), ext...)) {
					return
				}
				if !try("the message prefixed", append([]byte(ext), b...)) {
					return
				}
			}
			c.Sig(name, l)
		}
	case "mix":
		c10Mix(c, &a, f, name)
	}
}

// c10Mix mixes parts of signatures of the same key.
func c10Mix(c *Ctx, a *c10Job, f *Fix, name string) {
	p := a.P
	r := p.r()
	type one struct {
		idx uint64
		msg string
		enc []byte
	}
	var ss []one
	var pk *xmssmt.PublicKey
	add := func(idx uint64, msg string) {
		if idx+1 >= 1<<uint(p.H) && p.H > 1 {
			return
		}
		k, _, e, err := genuine(f, idx, msg)
		if pk == nil {
			pk = k
		}
		if err != nil {
			c.Violation("%s: %v", name, err)
			return
		}
		ss = append(ss, one{idx, msg, e})
	}
	add(a.Idx, "first")
	if p.H > 1 {
		add(a.Idx^1, "first")
		add(a.Idx^1, "second")
		add(a.Idx^(1<<uint(p.H/p.D)), "first")
	}
	add(a.Idx, "second") // (the same one-time key: only here)
	// cut points: header, index, R, then for each layer wots and path
	cuts := []int{0, 4, 4 + r.IdxLen(), 4 + r.IdxLen() + p.N}
	for l := 0; l < p.D; l++ {
		o := cuts[len(cuts)-1]
		cuts = append(cuts, o+r.Len()*p.N, o+r.Len()*p.N+r.HT()*p.N)
	}
	parts := len(cuts) - 1
	if parts > 12 {
		parts = 12
	}
	if parts > 8 && !c.Tier.Thorough {
		parts = 8
	}
	for x := range ss {
		for y := range ss {
			if x == y || x > 0 && y > 0 && !c.Tier.Thorough {
				continue
			}
			for mask := 1; mask < 1<<uint(parts)-1; mask++ {
				buf := append([]byte(nil), ss[x].enc...)
				for k := 0; k < parts; k++ {
					if mask>>uint(k)&1 == 1 {
						copy(buf[cuts[k]:cuts[k+1]], ss[y].enc[cuts[k]:])
					}
				}
				if !c.Case(fmt.Sprintf("%s/%d %d %x", name, x, y, mask)) {
					continue
				}
				for _, i := range []int{y, x} {
					var sg xmssmt.Signature
					if err := sg.UnmarshalBinary(ss[i].enc); err != nil {
						c.Violation("%s: %v", name, err)
					} else if ok, err := pk.Verify(&sg, []byte(ss[i].msg)); !ok || err != nil {
						c.Violation("%s: the signature on %q at %d is rejected: %v", name, ss[i].msg, ss[i].idx, err)
					}
				}
				for _, m := range []one{ss[x], ss[y]} {
					// genuine if the bytes are
					want := false
					for _, s := range ss {
						if s.msg == m.msg && bytes.Equal(buf, s.enc) {
							want = true
						}
					}
					ok, err := xmssmt.Verify(f.Pk, buf, []byte(m.msg))
					if ok != want || ok != (err == nil) {
						c.Violation("%s: a mixture (%x) of the signatures on %q at %d and %q at %d, checked for %q: %v %v, should be %v",
							name, mask, ss[x].msg, ss[x].idx, ss[y].msg, ss[y].idx, m.msg, ok, err, want)
					}
					var sg xmssmt.Signature
					if err := sg.UnmarshalBinary(buf); err == nil {
						ok, err := pk.Verify(&sg, []byte(m.msg))
						if ok != want || ok != (err == nil) {
							c.Violation("%s: a mixture (%x) of the signatures on %q at %d and %q at %d, checked for %q by a key that verified signatures before: %v %v, should be %v",
								name, mask, ss[x].msg, ss[x].idx, ss[y].msg, ss[y].idx, m.msg, ok, err, want)
						}
						c.Count("transitions", 1)
					}
					if rok, _ := ref.Verify(p.r(), f.Root, f.PubSeed, []byte(m.msg), buf[4:]); rok != want {
						c.Violation("%s: the RFC's verification of a mixture disagrees: %v", name, rok)
					}
					c.Count("mixtures_checked", 1)
					c.Count("transitions", 1)
					c.Count("traces_validated_against_impl", 1)
				}
				if c.Stop() {
					return
				}
				c.Sig(name, x, y, mask)
			}
			if p.D > 4 && !c.Tier.Thorough && y > 1 {
				break
			}
		}
	}
	// whole layers exchanged within one signature
	for l1 := 0; l1 < p.D; l1++ {
		for l2 := l1 + 1; l2 < p.D; l2++ {
			if !c.Case(fmt.Sprintf("%s/layers %d %d", name, l1, l2)) {
				continue
			}
			e := ss[0].enc
			buf := append([]byte(nil), e...)
			o := 4 + r.IdxLen() + p.N
			n := (r.Len() + r.HT()) * p.N
			copy(buf[o+l1*n:], e[o+l2*n:o+l2*n+n])
			copy(buf[o+l2*n:], e[o+l1*n:o+l1*n+n])
			ok, err := xmssmt.Verify(f.Pk, buf, []byte(ss[0].msg))
			if ok || err == nil {
				c.Violation("%s: with layers %d and %d exchanged: %v %v", name, l1, l2, ok, err)
			}
			c.Count("changes_rejected", 1)
		}
	}
}

// c10Pairs pairs everything with everything.
func c10Pairs(c *Ctx) {
	type key struct {
		f  *Fix
		pk *xmssmt.PublicKey
	}
	type sg struct {
		key int
		idx uint64
		msg string
		s   *xmssmt.Signature
		enc []byte
	}
	ms := []string{"", "a", "b", "ab", "a\x00", strings.Repeat("a", 200)}
	var keys []key
	var sigs []sg
	c.cur = "pairs"
	for _, p := range []P{{0, 16, 2, 2, 16, false}, {0, 16, 2, 1, 16, false}, {2, 16, 2, 2, 16, false}, {1, 16, 2, 2, 16, false},
		{0, 16, 2, 2, 16, true}, {0, 32, 2, 2, 16, false}, {0, 16, 2, 2, 4, false}} {
		for k := 0; k < 2; k++ {
			f := fix(p, fmt.Sprint("pairs", k))
			_, _, _, _ = f.deriveMem(1)
			for i, m := range ms {
				idx := uint64(i % 3)
				pk, s, e, err := genuine(f, idx, m)
				if err != nil {
					c.Violation("%v: %v", p, err)
					return
				}
				if i == 0 {
					keys = append(keys, key{f, pk})
				}
				sigs = append(sigs, sg{len(keys) - 1, idx, m, s, e})
			}
		}
	}
	for ki, k := range keys {
		for si, s := range sigs {
			for mi, m := range ms {
				if !c.Case(fmt.Sprintf("pairs/%d %d %d", ki, si, mi)) {
					continue
				}
				want := s.key == ki && s.msg == m
				ok, err := xmssmt.Verify(k.f.Pk, s.enc, []byte(m))
				if ok != want || ok != (err == nil) {
					c.Violation("public key %d (%v), signature %d of key %d (%v) on %q, message %q: %v %v", ki, k.f.P, s.idx, s.key, keys[s.key].f.P, s.msg, m, ok, err)
				}
				ok, err = k.pk.Verify(s.s, []byte(m))
				if ok != want || ok != (err == nil) {
					c.Violation("public key %d (%v), signature %d of key %d (%v) on %q as objects, message %q: %v %v", ki, k.f.P, s.idx, s.key, keys[s.key].f.P, s.msg, m, ok, err)
				}
				c.Count("pairs_checked", 2)
				c.Count("transitions", 2)
				c.Count("traces_validated_against_impl", 2)
				c.Sig("pairs", ki, si, mi)
				if c.Stop() {
					return
				}
			}
		}
	}
}

// c10Bits: every bit of the computed root and of the digest matters.
func c10Bits(c *Ctx) {
	var a c10Job
	c.Arg(&a)
	p := a.P
	vhash.Cheap = p.F == 0
	ref.HashFn = nil
	if vhash.Cheap {
		ref.HashFn = vhash.MixSum
	}
	ref.MsgDigest = vhash.Dictated
	defer func() {
		vhash.Cheap = false
		vhash.From, vhash.To = nil, nil
		ref.HashFn, ref.MsgDigest = nil, nil
		fixes = map[string]*Fix{}
	}()
	fixes = map[string]*Fix{}
	f := fix(p, "c10")
	name := fmt.Sprintf("%v/bits", p)
	c.cur = name
	digest := seedBytes("digest", p.N)
	msg := vhash.Magic + string(digest)
	if p.H == 1 {
		a.Idx = 0
	}
	pk, sig, enc, err := genuine(f, a.Idx, msg)
	if err != nil {
		c.Violation("%s: %v", name, err)
		return
	}
	if ok, err := pk.Verify(sig, []byte(msg)); !ok {
		c.Violation("%s: the genuine signature is rejected: %v", name, err)
		return
	}
	vhash.From = append([]byte(nil), f.Root...)
	vhash.To = append([]byte(nil), f.Root...)
	vhash.Swapped = 0
	for bit := -1; bit < 8*p.N; bit++ {
		if !c.Case(fmt.Sprintf("%s/root bit %d", name, bit)) {
			continue
		}
		if bit >= 0 {
			vhash.To[bit/8] ^= 1 << uint(bit%8)
		}
		n := vhash.Swapped
		ok, err := pk.Verify(sig, []byte(msg))
		if vhash.Swapped == n {
			c.Count("roots_not_controlled", 1)
			break
		}
		if ok != (bit < 0) || ok != (err == nil) {
			c.Violation("%s: if the root computed from the signature differs in bit %d from that of the public key (-1: not at all): %v %v", name, bit, ok, err)
		}
		if bit%8 != 0 && !c.Tier.Thorough && bit >= 0 {
			ok, err = false, nil
		} else {
			ok, err = xmssmt.Verify(f.Pk, enc, []byte(msg))
			if err == nil && !ok {
				c.Violation("%s: rejected without an error", name)
			}
		}
		if ok != (bit < 0) {
			c.Violation("%s: if the root computed from the encoded signature differs in bit %d from that of the public key: %v %v", name, bit, ok, err)
		}
		if bit >= 0 {
			vhash.To[bit/8] ^= 1 << uint(bit%8)
		}
		c.Count("root_bits_checked", 1)
		c.Count("transitions", 2)
		c.Count("traces_validated_against_impl", 2)
		c.Sig(name, bit)
		if c.Stop() {
			break
		}
	}
	vhash.From = nil
	for bit := 0; bit < 8*p.N; bit++ {
		if !c.Case(fmt.Sprintf("%s/digest bit %d", name, bit)) {
			continue
		}
		d := append([]byte(nil), digest...)
		d[bit/8] ^= 1 << uint(bit%8)
		ok, err := pk.Verify(sig, append([]byte(vhash.Magic), d...))
		if ok || err == nil {
			c.Violation("%s: a signature is accepted for a digest that differs in bit %d: %v %v", name, bit, ok, err)
		}
		c.Count("digest_bits_checked", 1)
		c.Count("transitions", 1)
		c.Count("traces_validated_against_impl", 1)
		c.Sig(name, "digest", bit)
		if c.Stop() {
			break
		}
	}
}
