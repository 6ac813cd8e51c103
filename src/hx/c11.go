//go:build go1.21

package main

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"runtime/metrics"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// C11: malformed input is rejected.  C12: encodings round-trip.

type c11Job struct {
	Part string
	From uint64 `json:",omitempty"`
	To   uint64 `json:",omitempty"`
	P    P
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// supported tells whether there is such an instance, according to the
// documentation.
func supported(p xmssmt.Params) bool {
	return (p.N == 16 || p.N == 24 || p.N == 32 || p.N == 64) && p.Func <= 2 && p.Prf <= 1 &&
		p.FullHeight > 0 && p.D > 0 && p.FullHeight%p.D == 0 && (p.WotsW == 4 || p.WotsW == 16 || p.WotsW == 256)
}

func fromX(x xmssmt.Params) P {
	return P{int(x.Func), int(x.N), int(x.FullHeight), int(x.D), int(x.WotsW), x.Prf == xmssmt.NIST}
}

// decode is an independent decoder of headers.
func decodeHeader(v uint32) (p xmssmt.Params, ok bool) {
	if v>>24 != 0xea || v>>21&7 != 0 || v>>12&3 == 3 {
		return
	}
	p.Prf = xmssmt.PrfConstruction(v >> 20 & 1)
	p.N = (v>>16&15 + 1) * 8
	p.Func = xmssmt.HashFunc(v >> 14 & 3)
	p.WotsW = []uint16{4, 16, 256}[v>>12&3]
	p.FullHeight = v >> 6 & 63
	p.D = v & 63
	return p, true
}

func init() {
	register(&Check{
		ID: "C11", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "every header of the format (2^21 of them) with bodies of several lengths, the exact one among them, every string of up to two (thorough three) bytes, every truncation and extension of genuine signatures and keys, and every pair of a list of parameter sets is given to the real decoders and verifiers, which must return an error (or a verdict, for what is well-formed); panics, hangs and allocations out of proportion are noticed; an outcome is an input class",
		Assumptions: []string{"the bodies of headers are constant or pseudo-random"},
		Plan:        c11Plan,
	})
	handle("c11", c11Run)
	register(&Check{
		ID: "C12", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "every one of the 2^24 headers with the right magic, and every upper half of a header with some 70 lower halves (thorough: every one of the 2^32 headers) is decoded and encoded again; every combination of field values of parameters (all relevant values and representatives of those out of range) is encoded and decoded; for every supported kind of parameters, signatures and keys with every boundary sequence number and patterned bodies are decoded and encoded in all ways (binary, text, into buffers of all lengths around the right one), with all memory handed in or out overwritten afterwards; an outcome is one parameter set or one encoding",
		Assumptions: []string{"bodies of signatures are copied without looking at them (patterns with all bytes different from their neighbours are used)"},
		Plan:        c12Plan,
	})
	handle("c12", c12Run)
}

func c11Plan(t Tier) []Job {
	var js []Job
	for o := uint64(0); o < 1<<21; o += 1 << 15 {
		js = append(js, mkjob("plain", "c11", c11Job{Part: "headers", From: o, To: o + 1<<15}))
	}
	js = append(js, mkjob("plain", "c11", c11Job{Part: "short"}))
	if t.Thorough {
		for o := uint64(0); o < 256; o += 8 {
			js = append(js, mkjob("plain", "c11", c11Job{Part: "three", From: o, To: o + 8}))
		}
	}
	for _, p := range c10Sets(t) {
		js = append(js, mkjob("plain", "c11", c11Job{Part: "lengths", P: p}))
	}
	js = append(js, mkjob("plain", "c11", c11Job{Part: "params"}))
	js = append(js, mkjob("plain", "c11", c11Job{Part: "text"}))
	return js
}

// noPanic runs f and returns what it panicked with.
func noPanic(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("panics: ", r)
		}
	}()
	f()
	return
}

// feed gives bytes to all decoders.  It returns what is wrong.
func feed(b []byte, good []byte, mustFail bool) (bad string) {
	var sig xmssmt.Signature
	var pk xmssmt.PublicKey
	var p xmssmt.Params
	try := func(what string, fail bool, f func() error) {
		var err error
		if s := noPanic(func() { err = f() }); s != "" {
			if bad == "" {
				bad = what + " " + s
			}
		} else if fail && err == nil && bad == "" {
			bad = what + " returns no error"
		}
	}
	try("Signature.UnmarshalBinary", mustFail, func() error { return sig.UnmarshalBinary(b) })
	try("PublicKey.UnmarshalBinary", mustFail, func() error { return pk.UnmarshalBinary(b) })
	try("Params.UnmarshalBinary", len(b) != 4, func() error { return p.UnmarshalBinary(b) })
	try("PublicKey.UnmarshalText", mustFail, func() error { return pk.UnmarshalText(b) })
	ver := func(pk, sig []byte) func() error {
		return func() error {
			ok, err := xmssmt.Verify(pk, sig, []byte("m"))
			if ok {
				return nil
			}
			if err == nil {
				return nil
			}
			return err
		}
	}
	try("Verify (as public key)", true, ver(b, good))
	try("Verify (as signature)", true, ver(good, b))
	return
}

func c11Run(c *Ctx) {
	var a c11Job
	c.Arg(&a)
	switch a.Part {
	case "headers":
		c11Headers(c, &a)
	case "short", "three":
		f := fix(tiny(2, 2), "c11")
		var n int
		one := func(b []byte) bool {
			n++
			if n%4096 == 1 {
				if !c.Case(fmt.Sprintf("bytes from %x", b)) && c.Only == "" {
					return false
				}
			}
			if bad := feed(b, f.Pk, true); bad != "" {
				c.Violation("%x: %s", b, bad)
			}
			c.Count("short_strings", 1)
			return !c.Stop()
		}
		if a.Part == "short" {
			one([]byte{})
			for x := 0; x < 256; x++ {
				one([]byte{byte(x)})
				for y := 0; y < 256; y++ {
					if !one([]byte{byte(x), byte(y)}) {
						return
					}
				}
			}
		} else {
			for x := a.From; x < a.To; x++ {
				for y := 0; y < 1<<16; y++ {
					if !one([]byte{byte(x), byte(y >> 8), byte(y)}) {
						return
					}
				}
			}
		}
		c.Sig(a.Part, a.From)
	case "lengths":
		f := fix(a.P, "c11")
		p := a.P
		_, _, enc, err := genuine(f, 0, "m")
		if err != nil {
			c.cur = fmt.Sprint(p)
			c.Violation("%v: %v", p, err)
			return
		}
		long := append(append([]byte(nil), enc...), make([]byte, 70)...)
		for l := 0; l <= len(long); l++ {
			if l == len(enc) || !c.Case(fmt.Sprintf("%v/length %d", p, l)) {
				continue
			}
			var s xmssmt.Signature
			var err error
			if e := noPanic(func() { err = s.UnmarshalBinary(long[:l:l]) }); e != "" || err == nil {
				c.Violation("%v: a signature of %d bytes instead of %d: %v %s", p, l, len(enc), err, e)
			}
			var ok bool
			var err2 xmssmt.Error
			if e := noPanic(func() { ok, err2 = xmssmt.Verify(f.Pk, long[:l], []byte("m")) }); e != "" || ok || err2 == nil {
				c.Violation("%v: Verify with a signature of %d bytes instead of %d: %v %v %s", p, l, len(enc), ok, err2, e)
			}
			c.Sig(p, l)
			c.Count("lengths", 1)
			if c.Stop() {
				return
			}
		}
		long = append(append([]byte(nil), f.Pk...), make([]byte, 300)...)
		for l := 0; l <= len(long); l++ {
			if l == len(f.Pk) || !c.Case(fmt.Sprintf("%v/key length %d", p, l)) {
				continue
			}
			var pk xmssmt.PublicKey
			var err, err3 error
			if e := noPanic(func() {
				err = pk.UnmarshalBinary(long[:l:l])
				err3 = pk.UnmarshalText([]byte(base64.StdEncoding.EncodeToString(long[:l])))
			}); e != "" || err == nil || err3 == nil {
				c.Violation("%v: a public key of %d bytes instead of %d: %v %v %s", p, l, len(f.Pk), err, err3, e)
			}
			var ok bool
			var err2 xmssmt.Error
			if e := noPanic(func() { ok, err2 = xmssmt.Verify(long[:l:l], enc, []byte("m")) }); e != "" || ok || err2 == nil {
				c.Violation("%v: Verify with a public key of %d bytes instead of %d: %v %v %s", p, l, len(f.Pk), ok, err2, e)
			}
			c.Sig(p, "pk", l)
			c.Count("lengths", 1)
			if c.Stop() {
				return
			}
		}
	case "params":
		var ps []P
		base := []P{{0, 16, 4, 2, 16, false}, {1, 32, 4, 2, 16, false}, {0, 24, 4, 4, 4, true}, {2, 64, 6, 1, 4, false}}
		for _, p := range base {
			ps = append(ps, p)
			for f := 0; f < 3; f++ {
				q := p
				q.F = f
				ps = append(ps, q)
			}
			for _, n := range []int{16, 24, 32, 64} {
				q := p
				q.N = n
				ps = append(ps, q)
			}
			for _, s := range [][2]int{{4, 1}, {4, 2}, {4, 4}, {2, 2}, {2, 1}, {6, 2}, {6, 3}, {6, 1}, {8, 2}, {60, 30}, {63, 1}, {63, 63}, {1, 1}} {
				q := p
				q.H, q.D = s[0], s[1]
				ps = append(ps, q)
			}
			for _, w := range []int{4, 16, 256} {
				q := p
				q.W = w
				ps = append(ps, q)
			}
			q := p
			q.NIST = !q.NIST
			ps = append(ps, q)
		}
		uniq := map[P]bool{}
		for _, p1 := range ps {
			if uniq[p1] {
				continue
			}
			uniq[p1] = true
			pkb := append(header(p1), seedBytes("pk", 2*p1.N)...)
			var pk xmssmt.PublicKey
			if err := pk.UnmarshalBinary(pkb); err != nil {
				c.cur = "params"
				c.Violation("a public key for %v cannot be decoded: %v", p1, err)
				return
			}
			done := map[P]bool{}
			for _, p2 := range ps {
				if p1 == p2 || done[p2] || !c.Case(fmt.Sprintf("key %v signature %v", p1, p2)) {
					continue
				}
				done[p2] = true
				sb := append(header(p2), seedBytes("sig", p2.r().SigSize())...)
				var sig xmssmt.Signature
				if err := sig.UnmarshalBinary(sb); err != nil {
					c.Violation("a signature for %v cannot be decoded: %v", p2, err)
					return
				}
				var ok bool
				var err xmssmt.Error
				e := noPanic(func() { ok, err = pk.Verify(&sig, []byte("m")) })
				if e != "" || ok || err == nil {
					c.Violation("a public key for %v and a signature for %v: %v %v %s", p1, p2, ok, err, e)
				}
				e = noPanic(func() { ok, err = xmssmt.Verify(pkb, sb, []byte("m")) })
				if e != "" || ok || err == nil {
					c.Violation("an encoded public key for %v and signature for %v: %v %v %s", p1, p2, ok, err, e)
				}
				c.Sig(p1, p2)
				c.Count("parameter_pairs", 1)
				if c.Stop() {
					return
				}
			}
		}
	case "text":
		f := fix(tiny(2, 2), "c11")
		alpha := "Aq/=+-_ \n\x00\xff6"
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if c.Stop() || !c.Case(fmt.Sprintf("text %q", s)) && c.Only == "" {
				return
			}
			var pk xmssmt.PublicKey
			var err error
			if e := noPanic(func() { err = pk.UnmarshalText([]byte(s)) }); e != "" || err == nil {
				c.Violation("UnmarshalText(%q): %v %s", s, err, e)
			}
			c.Count("texts", 1)
			if n > 0 {
				for i := 0; i < len(alpha); i++ {
					rec(s+alpha[i:i+1], n-1)
				}
			}
		}
		rec("", 4)
		// genuine text with one byte replaced
		txt := []byte(base64.StdEncoding.EncodeToString(f.Pk))
		for o := range txt {
			for v := 0; v < 256; v++ {
				if !c.Case(fmt.Sprintf("text byte %d %x", o, v)) {
					continue
				}
				b := append([]byte(nil), txt...)
				b[o] = byte(v)
				var pk xmssmt.PublicKey
				var err error
				if e := noPanic(func() { err = pk.UnmarshalText(b) }); e != "" {
					c.Violation("UnmarshalText(%q) %s", b, e)
				}
				want, werr := base64.StdEncoding.DecodeString(string(b))
				if (werr != nil || len(want) != len(f.Pk)) && err == nil {
					c.Violation("UnmarshalText(%q) returns no error", b)
				}
				if err == nil {
					if m, _ := pk.MarshalBinary(); !bytes.Equal(m, want) {
						c.Violation("UnmarshalText(%q) yields %x", b, m)
					}
				}
				c.Count("texts", 1)
			}
		}
		c.Sig("text")
	}
}

func c11Headers(c *Ctx, a *c11Job) {
	f := fix(tiny(2, 2), "c11")
	before := allocated()
	fed := uint64(0)
	for x := a.From; x < a.To; x++ {
		v := 0xea000000 | uint32(x)
		if x%1024 == 0 || c.Only != "" {
			if !c.Case(fmt.Sprintf("header %08x", v&^1023)) && x%1024 == 0 {
				x += 1023
				continue
			}
		}
		h := binary.BigEndian.AppendUint32(nil, v)
		p, okDec := decodeHeader(v)
		okCtx := okDec && supported(p)
		if _, err := xmssmt.NewContext(p); (err == nil) != okCtx && okDec {
			c.Violation("NewContext(%v): %v", p, err)
		}
		// short bodies
		for _, l := range []int{0, 1, 7, 32} {
			b := append(h[:4:4], make([]byte, l)...)
			must := true
			if okCtx {
				r := fromX(p).r()
				must = l != r.SigSize() && l != 2*r.N
				if l == 2*r.N {
					continue
				}
			}
			if bad := feed(b, f.Pk, must); bad != "" {
				c.Violation("header %08x with %d bytes of zeroes: %s", v, l, bad)
			}
			c.Count("headers_fed", 1)
		}
		fed += 4
		if !okCtx {
			c.Count("unsupported_headers", 1)
			// also with a long body
			if x%64 == 1 {
				b := append(h[:4:4], make([]byte, 5000)...)
				if bad := feed(b, f.Pk, true); bad != "" {
					c.Violation("header %08x with 5000 bytes of zeroes: %s", v, bad)
				}
			}
		} else {
			q := fromX(p)
			r := q.r()
			c.Count("supported_headers", 1)
			body := bigZero(4 + r.SigSize() + 1)
			copy(body, h)
			for i := 0; i < r.IdxLen()+r.N; i++ {
				body[4+i] = 0xff
			}
			var sig xmssmt.Signature
			var err error
			if e := noPanic(func() { err = sig.UnmarshalBinary(body[:4+r.SigSize()]) }); e != "" || err != nil {
				c.Violation("%v: a well-formed signature cannot be decoded: %v %s", q, err, e)
			}
			for _, l := range []int{3 + r.SigSize(), 5 + r.SigSize()} {
				if e := noPanic(func() { err = sig.UnmarshalBinary(body[:l]) }); e != "" || err == nil {
					c.Violation("%v: a signature of %d bytes instead of %d: %v %s", q, l, 4+r.SigSize(), err, e)
				}
			}
			fed += 2 + uint64(r.SigSize()+r.D*200)/16384*3
			pkb := append(h[:4:4], seedBytes("pk", 2*q.N)...)
			var pk xmssmt.PublicKey
			if e := noPanic(func() { err = pk.UnmarshalBinary(pkb) }); e != "" || err != nil {
				c.Violation("%v: a well-formed public key cannot be decoded: %v %s", q, err, e)
			} else {
				cost := q.D * r.Len() * q.W
				if cost < 40000 || c.Tier.Thorough && cost < 400000 || q.D == 1 {
					if q.D == 1 && q.W == 256 && q.N == 64 && !c.Tier.Thorough && q.H%8 != 7 {
						goto done
					}
					if !c.Tier.Thorough && x%8 != 5 && cost > 3000 {
						goto done
					}
					var ok bool
					var err2 xmssmt.Error
					e := noPanic(func() { ok, err2 = pk.Verify(&sig, []byte("m")) })
					if e != "" || ok || err2 == nil {
						c.Violation("%v: a signature of ones and zeroes: %v %v %s", q, ok, err2, e)
					}
					c.Count("verified_junk", 1)
					fed += 20
				}
			}
		done:
			c.Sig(q)
		}
		if x%1024 == 1023 {
			now := allocated()
			// generous: a signature is copied a few times
			if now-before > fed*(1<<16)+1<<26 {
				c.Violation("decoding the headers from %08x on allocates %d bytes", a.From, now-before)
			}
		}
		if c.Stop() {
			return
		}
	}
}

var zeroBuf []byte

func bigZero(n int) []byte {
	if len(zeroBuf) < n {
		zeroBuf = make([]byte, n+1<<16)
	}
	for i := 0; i < 512 && i < n; i++ {
		zeroBuf[i] = 0
	}
	return zeroBuf[:n]
}

// C12

func c12Plan(t Tier) []Job {
	var js []Job
	for o := uint64(0); o < 256; o++ {
		js = append(js, mkjob("plain", "c12", c11Job{Part: "headers", From: o << 24, To: (o + 1) << 24}))
	}
	for f := uint64(0); f < 256; f++ {
		if f < 6 || f > 253 || f == 128 {
			js = append(js, mkjob("plain", "c12", c11Job{Part: "fields", From: f}))
		}
	}
	for f := 0; f < 3; f++ {
		for _, n := range nsel(P{}) {
			for _, nist := range []bool{false, true} {
				js = append(js, mkjob("plain", "c12", c11Job{Part: "objects", P: P{F: f, N: n, NIST: nist}}))
			}
		}
	}
	return js
}

func c12Run(c *Ctx) {
	var a c11Job
	c.Arg(&a)
	switch a.Part {
	case "headers":
		var p xmssmt.Params
		b := make([]byte, 4)
		n := 0
		for x := a.From; x < a.To; x++ {
			if x&0xfffff == 0 {
				if !c.Case(fmt.Sprintf("headers %08x+", x)) {
					x += 0xfffff
					continue
				}
				if c.Stop() {
					return
				}
			}
			v := uint32(x)
			if v>>24 != 0xea && !c.Tier.Thorough && v&0xffff > 63 && v&0x1fff != 0x1041 {
				// without the magic: all upper halves with some lower halves
				x |= 0x3f
				if x&0x1fff == 0x103f {
					x++
				}
				continue
			}
			n++
			binary.BigEndian.PutUint32(b, v)
			p = xmssmt.Params{}
			err := p.UnmarshalBinary(b)
			want, ok := decodeHeader(v)
			if ok && want.Func > 2 {
				// not a hash function: may be refused or not
				if err == nil {
					out, err := p.MarshalBinary()
					if err == nil && !bytes.Equal(out, b) {
						c.Violation("header %08x is decoded to %+v, which is encoded to %x", v, p, out)
					}
				}
				continue
			}
			if !ok {
				if err == nil {
					c.Violation("header %08x is decoded to %+v", v, p)
				}
				continue
			}
			if err != nil || p != want {
				c.Violation("header %08x is decoded to %+v (%v) instead of %+v", v, p, err, want)
				continue
			}
			out, err := p.MarshalBinary()
			if err != nil || !bytes.Equal(out, b) {
				c.Violation("header %08x is decoded to %+v, which is encoded to %x (%v)", v, p, out, err)
			}
			c.SigHash(x)
			c.Count("headers_round_trip", 1)
		}
		c.Count("headers", n)
		c.Count("transitions", n)
	case "fields":
		c12Fields(c, &a)
	case "objects":
		c12Objects(c, &a)
	}
}

func c12Fields(c *Ctx, a *c11Job) {
	var ns []uint32
	for n := uint32(0); n <= 272; n++ {
		ns = append(ns, n)
	}
	ns = append(ns, 512, 1024, 2048, 4096, 1<<16, 1<<24, 1<<31, 1<<32-8, 1<<32-1)
	var hs []uint32
	for h := uint32(0); h <= 130; h++ {
		hs = append(hs, h)
	}
	hs = append(hs, 255, 256, 1<<16, 1<<26, 1<<31, 1<<32-1)
	ds := []uint32{0, 1, 2, 3, 31, 32, 61, 62, 63, 64, 65, 127, 128, 256, 4096, 1 << 26, 1 << 31, 1<<32 - 1}
	ws := []uint16{0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 32, 64, 128, 255, 256, 257, 260, 272, 512, 4096, 1 << 15, 65535}
	test := func(p xmssmt.Params) bool {
		n := p.N
		can := n > 0 && n%8 == 0 && n <= 128 && p.Func <= 2 && p.FullHeight <= 63 && p.D <= 63 &&
			(p.WotsW == 4 || p.WotsW == 16 || p.WotsW == 256) && p.Prf <= 1
		out, err := p.MarshalBinary()
		if can != (err == nil) {
			c.Violation("%+v can be represented: %v, encoding it: %x %v", p, can, out, err)
			return !c.Stop()
		}
		c.Count("parameter_values", 1)
		if !can {
			return true
		}
		var q xmssmt.Params
		if err := q.UnmarshalBinary(out); err != nil || q != p || len(out) != 4 {
			c.Violation("%+v is encoded as %x, which is decoded as %+v (%v)", p, out, q, err)
			return !c.Stop()
		}
		c.Sig(p)
		// into buffers
		for l := 0; l < 9; l++ {
			buf := bytes.Repeat([]byte{0xcc}, 16)
			var err error
			e := noPanic(func() { err = p.WriteInto(buf[4 : 4+l : 4+l]) })
			if e != "" || (l >= 4) != (err == nil) {
				c.Violation("WriteInto a buffer of %d bytes: %v %s", l, err, e)
			}
			for i, x := range buf {
				if i >= 4 && i < 8 && l >= 4 {
					if x != out[i-4] {
						c.Violation("WriteInto a buffer of %d bytes writes %x instead of %x", l, buf[4:8], out)
						break
					}
				} else if x != 0xcc && !(l < 4 && i >= 4 && i < 4+l) {
					c.Violation("WriteInto a buffer of %d bytes changes byte %d", l, i-4)
					break
				}
			}
		}
		return true
	}
	f := xmssmt.HashFunc(a.From)
	for _, n := range ns {
		if !c.Case(fmt.Sprintf("fields %d n=%d", a.From, n)) {
			continue
		}
		for _, prf := range []xmssmt.PrfConstruction{0, 1, 2, 3, 16, 128, 255} {
			for _, w := range ws {
				for _, d := range ds {
					for _, h := range hs {
						// out of range in at most two ways, to save time
						bad := 0
						for _, x := range []bool{n%8 != 0 || n > 128, prf > 1, w != 4 && w != 16 && w != 256, d > 63, h > 63, f > 2} {
							if x {
								bad++
							}
						}
						if bad > 2 || n%64 != 0 && n != 16 && n != 24 && n != 32 && n != 128 && h%7 != 0 && h < 60 {
							continue
						}
						if !test(xmssmt.Params{Func: f, N: n, FullHeight: h, D: d, WotsW: w, Prf: prf}) {
							return
						}
					}
				}
			}
		}
	}
}

// c12Objects: signatures and public keys.
func c12Objects(c *Ctx, a *c11Job) {
	for _, w := range []int{4, 16, 256} {
		for h := 1; h <= 63; h++ {
			for d := 1; d <= h; d++ {
				if h%d != 0 {
					continue
				}
				p := a.P
				p.W, p.H, p.D = w, h, d
				if !c.Case(fmt.Sprint(p)) {
					continue
				}
				if h <= 16 || d == 1 || d == h || c.Tier.Thorough || h == 20 || h == 60 || h == 40 {
					c12Sig(c, p)
				}
				c12Pk(c, p)
				if c.Stop() {
					return
				}
			}
		}
	}
}

func patterned(n, k int) []byte {
	b := make([]byte, n)
	x := uint32(k)*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func c12Sig(c *Ctx, p P) {
	r := p.r()
	max := uint64(1)<<uint(p.H) - 1
	if r.IdxLen() < 8 && max >= 1<<uint(8*r.IdxLen()) {
		max = 1<<uint(8*r.IdxLen()) - 1
	}
	idxs := []uint64{0, 1, max, max - 1, max / 2, max/2 + 1, 0xa5a5a5a5a5a5a5a5 & max, 255 & max, 256 & max, 1 << 32 & max, (1<<32 - 1) & max}
	for i, idx := range idxs {
		enc := append(header(p), patterned(r.SigSize(), i)...)
		x := idx
		for k := r.IdxLen() - 1; k >= 0; k-- {
			enc[4+k] = byte(x)
			x >>= 8
		}
		want := append([]byte(nil), enc...)
		var s xmssmt.Signature
		if err := s.UnmarshalBinary(enc); err != nil {
			c.Violation("%v: a signature with number %d cannot be decoded: %v", p, idx, err)
			return
		}
		if uint64(s.SeqNo()) != idx {
			c.Violation("%v: the signature with number %d is decoded as having %d", p, idx, s.SeqNo())
		}
		// the input no longer matters
		for k := range enc {
			enc[k] = ^enc[k]
		}
		out, err := s.MarshalBinary()
		if err != nil || !bytes.Equal(out, want) {
			c.Violation("%v: the signature with number %d is encoded differently after overwriting what it was decoded from (%v, %s)", p, idx, err, diffParts(p, out, want))
			return
		}
		for k := range out {
			out[k] = ^out[k]
		}
		out2, err := s.MarshalBinary()
		if err != nil || !bytes.Equal(out2, want) {
			c.Violation("%v: the signature with number %d changes when an encoding of it is overwritten (%s)", p, idx, diffParts(p, out2, want))
			return
		}
		if i < 2 {
			for _, l := range []int{0, 3, 4, 5, len(want) - p.N, len(want) - 1, len(want), len(want) + 1, len(want) + 40} {
				buf := bytes.Repeat([]byte{0xcc}, l+8)
				var err error
				e := noPanic(func() { err = s.WriteInto(buf[:l:l]) })
				if e != "" || (err == nil) != (l >= len(want)) {
					c.Violation("%v: writing a signature of %d bytes into %d bytes: %v %s", p, len(want), l, err, e)
					return
				}
				if err == nil && !bytes.Equal(buf[:len(want)], want) {
					c.Violation("%v: WriteInto writes something else: %s", p, diffParts(p, buf[:len(want)], want))
					return
				}
				for k := l; k < len(buf); k++ {
					if buf[k] != 0xcc {
						c.Violation("%v: WriteInto writes beyond the buffer", p)
						return
					}
				}
				if err == nil {
					for k := len(want); k < l; k++ {
						if buf[k] != 0xcc {
							c.Violation("%v: WriteInto writes beyond the signature", p)
							return
						}
					}
				}
			}
			// decoding into an object used before
			other := append(header(P{0, 16, 4, 2, 4, false}), patterned(P{0, 16, 4, 2, 4, false}.r().SigSize(), 77)...)
			var t xmssmt.Signature
			if err := t.UnmarshalBinary(other); err == nil {
				if err := t.UnmarshalBinary(want); err != nil {
					c.Violation("%v: decoding into a used object: %v", p, err)
				}
				if o, err := t.MarshalBinary(); err != nil || !bytes.Equal(o, want) {
					c.Violation("%v: decoding into a used object yields something else (%v)", p, err)
				}
			}
			// objects decoded from the same bytes are independent
			if err := t.UnmarshalBinary(want); err == nil {
				u := t
				_ = u
				if err := t.UnmarshalBinary(other); err == nil {
					if o, _ := s.MarshalBinary(); !bytes.Equal(o, want) {
						c.Violation("%v: decoding changes another signature", p)
					}
				}
			}
			q := s.Context().Params()
			if q != p.x() {
				c.Violation("%v: the decoded signature has parameters %v", p, q)
			}
		}
		c.Count("signatures_round_trip", 1)
		c.Count("transitions", 4)
		c.Sig(p, idx)
	}
}

func c12Pk(c *Ctx, p P) {
	for i := 0; i < 3; i++ {
		enc := append(header(p), patterned(2*p.N, i)...)
		if i == 1 {
			enc = append(header(p), make([]byte, 2*p.N)...)
		} else if i == 2 {
			enc = append(header(p), bytes.Repeat([]byte{0xff}, 2*p.N)...)
		}
		want := append([]byte(nil), enc...)
		var pk, pt xmssmt.PublicKey
		if err := pk.UnmarshalBinary(enc); err != nil {
			c.Violation("%v: a public key cannot be decoded: %v", p, err)
			return
		}
		txt, err := pk.MarshalText()
		if err != nil || string(txt) != base64.StdEncoding.EncodeToString(want) {
			c.Violation("%v: the public key is encoded as text as %q (%v)", p, txt, err)
			return
		}
		if err := pt.UnmarshalText(txt); err != nil {
			c.Violation("%v: the text of a public key cannot be decoded: %v", p, err)
			return
		}
		for k := range txt {
			txt[k] ^= 0x55
		}
		for k := range enc {
			enc[k] = ^enc[k]
		}
		for _, o := range []*xmssmt.PublicKey{&pk, &pt} {
			out, err := o.MarshalBinary()
			if err != nil || !bytes.Equal(out, want) {
				c.Violation("%v: a public key is encoded differently after overwriting what it was decoded from: %x instead of %x (%v)", p, out, want, err)
				return
			}
			for k := range out {
				out[k] = ^out[k]
			}
			out, err = o.MarshalBinary()
			if err != nil || !bytes.Equal(out, want) {
				c.Violation("%v: a public key changes when an encoding of it is overwritten (%v)", p, err)
				return
			}
			for l := 0; l <= len(want)+9; l++ {
				buf := bytes.Repeat([]byte{0xcc}, l+8)
				var err error
				e := noPanic(func() { err = o.WriteInto(buf[:l:l]) })
				if e != "" || (err == nil) != (l >= len(want)) {
					c.Violation("%v: writing a public key of %d bytes into %d bytes: %v %s", p, len(want), l, err, e)
					return
				}
				if err == nil && !bytes.Equal(buf[:len(want)], want) {
					c.Violation("%v: WriteInto writes %x instead of %x", p, buf[:len(want)], want)
					return
				}
				from := len(want)
				if err != nil {
					from = l
				}
				for k := from; k < len(buf); k++ {
					if buf[k] != 0xcc {
						c.Violation("%v: WriteInto writes beyond the end", p)
						return
					}
				}
			}
			if o.Context().Params() != p.x() {
				c.Violation("%v: the decoded public key has parameters %v", p, o.Context().Params())
			}
		}
		// a failed decoding of something else must not disturb the object,
		// and a used object can be used again
		other := append(header(P{0, 16, 4, 2, 4, false}), patterned(32, 77)...)
		if err := pt.UnmarshalBinary(other); err != nil {
			c.Violation("%v: decoding into a used object: %v", p, err)
		} else if o, err := pt.MarshalBinary(); err != nil || !bytes.Equal(o, other) {
			c.Violation("%v: decoding into a used object yields something else (%v)", p, err)
		}
		if o, _ := pk.MarshalBinary(); !bytes.Equal(o, want) {
			c.Violation("%v: decoding changes another public key", p)
		}
		c.Count("public_keys_round_trip", 1)
		c.Count("transitions", 4)
		c.Sig(p, "pk", i)
	}
}
