//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	mathbig "math/big"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// C13: names, OIDs, parameters and sizes agree.

type c13Job struct {
	Part string
	F    int
	N    int
	From int
}

// stdEntry is an instance listed in RFC 8391 or SP 800-208.
type stdEntry struct {
	name string
	mt   bool
	oid  uint32
	p    xmssmt.Params
	rfc  bool
}

// stdTable is made from the numbering schemes of sections 5.3, 5.4 and 8 of
// RFC 8391 and of appendix A of SP 800-208.
func stdTable() (t []stdEntry) {
	add := func(mt bool, oid *uint32, f xmssmt.HashFunc, n, h, d uint32, rfc bool) {
		*oid++
		p := xmssmt.Params{Func: f, N: n, FullHeight: h, D: d, WotsW: 16}
		if n == 24 {
			p.Prf = xmssmt.NIST
		}
		fn := map[xmssmt.HashFunc]string{xmssmt.SHA2: "SHA2", xmssmt.SHAKE: "SHAKE", xmssmt.SHAKE256: "SHAKE256"}[f]
		name := fmt.Sprintf("XMSS-%s_%d_%d", fn, h, 8*n)
		if mt {
			name = fmt.Sprintf("XMSSMT-%s_%d/%d_%d", fn, h, d, 8*n)
		}
		t = append(t, stdEntry{name, mt, *oid, p, rfc})
	}
	type fn struct {
		f   xmssmt.HashFunc
		n   uint32
		rfc bool
	}
	var oid uint32
	for _, x := range []fn{{xmssmt.SHA2, 32, true}, {xmssmt.SHA2, 64, true}, {xmssmt.SHAKE, 32, true}, {xmssmt.SHAKE, 64, true},
		{xmssmt.SHA2, 24, false}, {xmssmt.SHAKE256, 32, false}, {xmssmt.SHAKE256, 24, false}} {
		for _, s := range [][2]uint32{{20, 2}, {20, 4}, {40, 2}, {40, 4}, {40, 8}, {60, 3}, {60, 6}, {60, 12}} {
			add(true, &oid, x.f, x.n, s[0], s[1], x.rfc)
		}
	}
	oid = 0
	for _, x := range []fn{{xmssmt.SHA2, 32, true}, {xmssmt.SHA2, 64, true}, {xmssmt.SHAKE, 32, true}, {xmssmt.SHAKE, 64, true},
		{xmssmt.SHA2, 24, false}, {xmssmt.SHAKE256, 32, false}, {xmssmt.SHAKE256, 24, false}} {
		for _, h := range []uint32{10, 16, 20} {
			add(false, &oid, x.f, x.n, h, 1, x.rfc)
		}
	}
	return
}

func init() {
	register(&Check{
		ID: "C13", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "all entries of the standards' tables (generated from their numbering schemes) x all ways to make a context; all OIDs up to 2^16 and at powers of two; all parameter values in a grid that contains all supported ones; all strings at edit distance one, and two if the first removes something (thorough: any two), from representative names and all names put together from lists of field values, against an independent parser; an outcome is one context or one accepted name",
		Assumptions: []string{"whether unusual spellings of numbers (signs, leading zeroes) are accepted is left open"},
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(j c13Job) { js = append(js, mkjob("plain", "c13", j)) }
			add(c13Job{Part: "table"})
			add(c13Job{Part: "oids"})
			add(c13Job{Part: "list"})
			add(c13Job{Part: "keys"})
			for f := 0; f < 5; f++ {
				add(c13Job{Part: "grid", F: f})
			}
			for i := range c13Names {
				add(c13Job{Part: "edits", From: i})
			}
			for i := 0; i < 9; i++ {
				add(c13Job{Part: "fields", From: i})
			}
			return js
		},
	})
	handle("c13", c13Run)
}

var c13Names = []string{"XMSSMT-SHA2_20/2_256", "XMSS-SHA2_10_192", "XMSSMT-SHAKE256_60/12_192", "XMSS-SHAKE_20_512",
	"XMSSMT-SHAKE_40/4_128_w4", "XMSS-SHA2_16_256_w256_NIST", "XMSSMT-SHAKE256_20/4_192_w4_RFC", "XMSS-SHA2_10_192_RFC", "XMSS-SHA2_5_256"}

// spell is an independent parser: what parameters a name spells; ok is false
// if it isn't a name, and canon whether all numbers are spelled without signs
// and leading zeroes.
func spell(name string) (p xmssmt.Params, mt, ok, canon bool) {
	i := strings.IndexByte(name, '-')
	if i < 0 {
		return
	}
	switch name[:i] {
	case "XMSS":
	case "XMSSMT":
		mt = true
	default:
		return
	}
	canon = true
	num := func(s string, bits int) (uint64, bool) {
		if s == "" {
			return 0, false
		}
		t := s
		neg := false
		if t[0] == '+' || t[0] == '-' {
			neg = t[0] == '-'
			t = t[1:]
			canon = false
		}
		if t == "" {
			return 0, false
		}
		for _, c := range []byte(t) {
			if c < '0' || c > '9' {
				return 0, false
			}
		}
		if len(t) > 1 && t[0] == '0' {
			canon = false
		}
		x, _ := new(mathbig.Int).SetString(t, 10)
		if neg {
			x.Neg(x)
		}
		if x.Sign() < 0 || x.BitLen() > bits {
			return 0, false
		}
		return x.Uint64(), true
	}
	f := strings.Split(name[i+1:], "_")
	if len(f) < 3 || len(f) > 5 {
		return
	}
	switch f[0] {
	case "SHA2":
		p.Func = xmssmt.SHA2
	case "SHAKE":
		p.Func = xmssmt.SHAKE
	case "SHAKE256":
		p.Func = xmssmt.SHAKE256
	default:
		return
	}
	hd := strings.Split(f[1], "/")
	if mt && len(hd) != 2 || !mt && len(hd) != 1 {
		return
	}
	h, k := num(hd[0], 32)
	if !k {
		return
	}
	p.FullHeight, p.D = uint32(h), 1
	if mt {
		d, k := num(hd[1], 32)
		if !k {
			return
		}
		p.D = uint32(d)
	}
	n, k := num(f[2], 32)
	if !k || n%8 != 0 {
		return
	}
	p.N = uint32(n / 8)
	p.WotsW = 16
	if n == 192 {
		p.Prf = xmssmt.NIST
	}
	var w, prf bool
	for _, o := range f[3:] {
		switch {
		case o == "RFC" && !prf:
			p.Prf, prf = xmssmt.RFC, true
		case o == "NIST" && !prf:
			p.Prf, prf = xmssmt.NIST, true
		case strings.HasPrefix(o, "w") && !w:
			x, k := num(o[1:], 16)
			if !k {
				return
			}
			p.WotsW, w = uint16(x), true
		default:
			return
		}
	}
	return p, mt, true, canon
}

var stdByName = map[string]stdEntry{}
var stdByParams = map[xmssmt.Params]stdEntry{}

func c13Init() {
	if len(stdByName) > 0 {
		return
	}
	for _, e := range stdTable() {
		stdByName[e.name] = e
		stdByParams[e.p] = e
	}
}

// canonName is how parameters are printed.
func canonName(p xmssmt.Params) string {
	s := "XMSS"
	if p.D != 1 {
		s += "MT"
	}
	s += "-" + []string{"SHA2", "SHAKE", "SHAKE256"}[p.Func] + fmt.Sprintf("_%d", p.FullHeight)
	if p.D != 1 {
		s += fmt.Sprintf("/%d", p.D)
	}
	s += fmt.Sprintf("_%d", uint64(p.N)*8)
	if p.WotsW != 16 {
		s += fmt.Sprintf("_w%d", p.WotsW)
	}
	if p.N == 24 && p.Prf == xmssmt.RFC {
		s += "_RFC"
	} else if p.N != 24 && p.Prf == xmssmt.NIST {
		s += "_NIST"
	}
	return s
}

// ctxRight compares a context with what its parameters say.
func ctxRight(ctx *xmssmt.Context, p xmssmt.Params) string {
	if ctx == nil {
		return "there is no context"
	}
	e, std := stdByParams[p]
	r := fromX(p).r()
	for i := 0; i < 2; i++ { // (queries don't change anything)
		if ctx.Params() != p {
			return fmt.Sprintf("its parameters are %+v instead of %+v", ctx.Params(), p)
		}
		if ctx.Name() != e.name {
			return fmt.Sprintf("its name is %q instead of %q", ctx.Name(), e.name)
		}
		if ctx.Oid() != e.oid {
			return fmt.Sprintf("its OID is %#x instead of %#x", ctx.Oid(), e.oid)
		}
		if ctx.MT() != (p.D > 1) {
			return fmt.Sprintf("MT() is %v", ctx.MT())
		}
		if ctx.FromRFC() != (std && e.rfc) {
			return fmt.Sprintf("FromRFC() is %v", ctx.FromRFC())
		}
		if ctx.FromNIST() != (std && !e.rfc) {
			return fmt.Sprintf("FromNIST() is %v", ctx.FromNIST())
		}
		if int(ctx.SignatureSize()) != r.SigSize() {
			return fmt.Sprintf("SignatureSize() is %d instead of %d", ctx.SignatureSize(), r.SigSize())
		}
	}
	return ""
}

// sizesRight checks the methods of parameters that compute something.
func sizesRight(p xmssmt.Params) string {
	r := fromX(p).r()
	if int(p.WotsLen1()) != r.Len1() || int(p.WotsLen2()) != r.Len2() || int(p.WotsLen()) != r.Len() {
		return fmt.Sprintf("there are %d+%d=%d WOTS+ chains instead of %d+%d", p.WotsLen1(), p.WotsLen2(), p.WotsLen(), r.Len1(), r.Len2())
	}
	if int(p.WotsSignatureSize()) != r.Len()*r.N {
		return fmt.Sprintf("a WOTS+ signature has %d bytes instead of %d", p.WotsSignatureSize(), r.Len()*r.N)
	}
	if 1<<p.WotsLogW() != int(p.WotsW) {
		return fmt.Sprintf("WotsLogW is %d", p.WotsLogW())
	}
	if p.FullHeight < 64 && p.MaxSignatureSeqNo() != 1<<p.FullHeight-1 {
		return fmt.Sprintf("MaxSignatureSeqNo is %d", p.MaxSignatureSeqNo())
	}
	if p.PrivateKeySize() != 3*int(p.N) {
		return fmt.Sprintf("PrivateKeySize is %d", p.PrivateKeySize())
	}
	if ht := p.FullHeight / p.D; ht < 24 {
		want := (1<<(ht+1) - 1) * int(p.N)
		if p.BareSubTreeSize() != want || p.CachedSubTreeSize() != want+r.Len()*r.N+8 {
			return fmt.Sprintf("BareSubTreeSize is %d and CachedSubTreeSize %d", p.BareSubTreeSize(), p.CachedSubTreeSize())
		}
	}
	return ""
}

func c13Run(c *Ctx) {
	var a c13Job
	c.Arg(&a)
	c13Init()
	bad := func(what, msg string) {
		if msg != "" {
			c.Violation("%s: %s", what, msg)
		}
	}
	fresh := func(p xmssmt.Params) *xmssmt.Context {
		ctx, err := xmssmt.NewContext(p)
		if err != nil {
			return nil
		}
		return ctx
	}
	// decoded from an encoding
	decoded := func(p xmssmt.Params) (r []*xmssmt.Context) {
		q := fromX(p)
		h := header(q)
		var pk xmssmt.PublicKey
		if pk.UnmarshalBinary(append(h[:4:4], make([]byte, 2*p.N)...)) == nil {
			r = append(r, pk.Context())
		} else {
			r = append(r, nil)
		}
		var sig xmssmt.Signature
		if sig.UnmarshalBinary(append(h[:4:4], make([]byte, q.r().SigSize())...)) == nil {
			r = append(r, sig.Context())
		} else {
			r = append(r, nil)
		}
		return
	}
	switch a.Part {
	case "table":
		names := xmssmt.ListNames()
		seen := map[string]bool{}
		c.Case("ListNames")
		for _, n := range names {
			if seen[n] {
				c.Violation("ListNames lists %s twice", n)
			}
			seen[n] = true
			if _, ok := stdByName[n]; !ok {
				c.Violation("ListNames lists %s, which is in no standard", n)
			}
		}
		for n, e := range stdByName {
			if !c.Case(n) {
				continue
			}
			if !seen[n] {
				c.Violation("ListNames does not list %s", n)
			}
			for i := 0; i < 2; i++ {
				bad("NewContextFromName("+n+")", ctxRight(xmssmt.NewContextFromName(n), e.p))
				x, err := xmssmt.NewContextFromName2(n)
				if err != nil {
					c.Violation("NewContextFromName2(%s): %v", n, err)
				} else {
					bad("NewContextFromName2("+n+")", ctxRight(x, e.p))
				}
				bad(fmt.Sprintf("NewContextFromOid(%v, %#x)", e.mt, e.oid), ctxRight(xmssmt.NewContextFromOid(e.mt, e.oid), e.p))
				bad(fmt.Sprintf("NewContext(%+v)", e.p), ctxRight(fresh(e.p), e.p))
				for _, d := range decoded(e.p) {
					bad("context of an object decoded for "+n, ctxRight(d, e.p))
				}
				pn := xmssmt.ParamsFromName(n)
				if pn == nil || *pn != e.p {
					c.Violation("ParamsFromName(%s) = %+v", n, pn)
				} else {
					// what is handed out does not matter
					*pn = xmssmt.Params{Func: 9}
				}
				pn, err = xmssmt.ParamsFromName2(n)
				if err != nil || *pn != e.p {
					c.Violation("ParamsFromName2(%s) = %+v, %v", n, pn, err)
				} else {
					*pn = xmssmt.Params{Func: 9}
				}
				q := e.p
				ln, lo := q.LookupNameAndOid()
				if ln != n || lo != e.oid || q != e.p {
					c.Violation("LookupNameAndOid of %+v: %s %#x", e.p, ln, lo)
				}
				if e.p.String() != n {
					c.Violation("%+v prints as %s instead of %s", e.p, e.p.String(), n)
				}
			}
			bad(n, sizesRight(e.p))
			c.Sig(n)
			c.Count("standard_instances", 1)
			c.Count("transitions", 10)
		}
		if len(names) != len(stdByName) {
			c.Violation("ListNames lists %d names instead of %d", len(names), len(stdByName))
		}
		// overwriting the list is harmless
		for i := range names {
			names[i] = "?"
		}
		for _, n := range xmssmt.ListNames() {
			if !seen[n] {
				c.Violation("ListNames lists %s afterwards", n)
			}
		}
	case "oids":
		try := func(o uint32) {
			for _, mt := range []bool{false, true} {
				var want *stdEntry
				for _, e := range stdByName {
					e := e
					if e.mt == mt && e.oid == o {
						want = &e
					}
				}
				var ctx *xmssmt.Context
				if e := noPanic(func() { ctx = xmssmt.NewContextFromOid(mt, o) }); e != "" {
					c.Violation("NewContextFromOid(%v, %#x) %s", mt, o, e)
					continue
				}
				if want == nil {
					if ctx != nil {
						c.Violation("NewContextFromOid(%v, %#x) returns a context for %s", mt, o, ctx.Name())
					}
					continue
				}
				bad(fmt.Sprintf("NewContextFromOid(%v, %#x)", mt, o), ctxRight(ctx, want.p))
			}
			c.Count("oids", 2)
		}
		for o := uint32(0); o < 1<<16; o++ {
			if o&0xfff == 0 && !c.Case(fmt.Sprintf("oids %#x+", o)) {
				o += 0xfff
				continue
			}
			try(o)
		}
		c.Case("oids, powers of two")
		for k := uint(16); k < 32; k++ {
			for d := uint32(0); d < 0x40; d++ {
				try(1<<k + d)
				try(1<<k - 1 - d)
				try(0xea<<24 + 1<<k + d)
			}
		}
		try(1<<32 - 1)
		c.Sig("oids")
	case "list":
		seen := map[string]bool{}
		for _, n := range xmssmt.ListNames2() {
			if !c.Case("ListNames2: " + n) {
				continue
			}
			if seen[n] {
				c.Violation("%s is listed twice", n)
			}
			seen[n] = true
			p, _, ok, _ := spell(n)
			if !ok {
				c.Violation("%s is not a name", n)
				continue
			}
			ctx, err := xmssmt.NewContextFromName2(n)
			if err != nil {
				c.Violation("NewContextFromName2(%s): %v", n, err)
				continue
			}
			bad(n, ctxRight(ctx, p))
			if q := ctx.Params(); q.String() != n {
				c.Violation("%s prints as %s", n, q.String())
			}
			c.Sig(n)
			c.Count("listed_names", 1)
		}
		for n := range stdByName {
			if !seen[n] && c.Case("ListNames2 lacks "+n) && !strings.Contains(n, "SHAKE256") {
				c.Violation("%s is not listed by ListNames2", n)
			}
		}
		for _, n := range []string{"", "XMSS", "nonsense", "XMSSMT-SHA2_20/2_256 ", "xmssmt-sha2_20/2_256", "XMSS-SHA2_20/2_256", "XMSSMT-SHA2_20_256",
			"XMSSMT-SHA2_20/3_256", "XMSS-SHA2_10_24", "XMSS-SHA2_0_256", "XMSSMT-SHA2_20/0_256"} {
			if c.Case("unknown name " + n) {
				if xmssmt.NewContextFromName(n) != nil {
					c.Violation("NewContextFromName(%q) returns a context", n)
				}
				if xmssmt.ParamsFromName(n) != nil {
					c.Violation("ParamsFromName(%q) returns parameters", n)
				}
				if x, err := xmssmt.NewContextFromName2(n); err == nil || x != nil {
					c.Violation("NewContextFromName2(%q): %v %v", n, x, err)
				}
			}
		}
	case "keys":
		// the contexts of generated and loaded keys
		for _, p := range []P{tiny(2, 2), tiny(2, 1), {2, 24, 2, 1, 16, true}, {0, 24, 2, 2, 16, false}, {1, 32, 20, 4, 16, false}, {0, 24, 20, 4, 16, true}} {
			if !c.Case("keys of " + p.String()) {
				continue
			}
			f := fix(p, "c13")
			sk, pk, ctr, err := f.deriveMem(2)
			if err != nil {
				c.Violation("%v: %v", p, err)
				continue
			}
			bad("private key of "+p.String(), ctxRight(sk.Context(), p.x()))
			bad("public key of "+p.String(), ctxRight(pk.Context(), p.x()))
			s, err2 := sk.Sign([]byte("m"))
			if err2 != nil {
				c.Violation("%v: %v", p, err2)
				continue
			}
			bad("signature of "+p.String(), ctxRight(s.Context(), p.x()))
			if want := fmt.Sprintf("%s seqno=0/%d", canonName(p.x()), uint64(1)<<uint(p.H)-1); s.String() != want {
				c.Violation("a signature prints as %q instead of %q", s.String(), want)
			}
			enc, _ := s.MarshalBinary()
			if len(enc) != 4+int(sk.Context().SignatureSize()) {
				c.Violation("%v: a signature has %d bytes, SignatureSize is %d", p, len(enc), sk.Context().SignatureSize())
			}
			if pb, _ := pk.MarshalBinary(); !bytes.Equal(pb[:4], enc[:4]) {
				c.Violation("%v: public key and signature have different headers", p)
			}
			sk.Close()
			sk2, pk2, _, err3 := xmssmt.LoadPrivateKeyFrom(ctr.reopen())
			if err3 != nil {
				c.Violation("%v: %v", p, err3)
				continue
			}
			bad("loaded private key of "+p.String(), ctxRight(sk2.Context(), p.x()))
			bad("public key loaded of "+p.String(), ctxRight(pk2.Context(), p.x()))
			sk2.Close()
			c.Sig("keys", p)
		}
	case "grid":
		c13Grid(c, a.F)
	case "edits":
		c13Edits(c, a.From)
	case "fields":
		c13Fields(c, a.From)
	}
}

func c13Grid(c *Ctx, f int) {
	var ns []uint32
	for n := uint32(0); n <= 136; n++ {
		if n%8 == 0 || n < 34 || n > 60 && n < 68 {
			ns = append(ns, n)
		}
	}
	ns = append(ns, 256, 272, 288, 1<<16, 1<<29, 1<<32-8)
	for _, n := range ns {
		if !c.Case(fmt.Sprintf("grid hash %d n=%d", f, n)) {
			continue
		}
		for _, w := range []uint16{0, 1, 2, 3, 4, 5, 8, 15, 16, 17, 32, 64, 128, 255, 256, 257, 512, 4096, 65535} {
			for _, prf := range []xmssmt.PrfConstruction{0, 1, 2, 255} {
				for h := uint32(0); h <= 66; h++ {
					for d := uint32(0); d <= 66; d++ {
						p := xmssmt.Params{Func: xmssmt.HashFunc(f), N: n, FullHeight: h, D: d, WotsW: w, Prf: prf}
						sup := supported(p)
						if !sup && d > 4 && d != h && d != 33 && h%16 != 1 {
							continue
						}
						var ctx *xmssmt.Context
						var err xmssmt.Error
						if e := noPanic(func() { ctx, err = xmssmt.NewContext(p) }); e != "" {
							c.Violation("NewContext(%+v) %s", p, e)
							continue
						}
						if h <= 63 && sup != (err == nil) || !sup && err == nil {
							c.Violation("NewContext(%+v): %v", p, err)
							continue
						}
						c.Count("parameter_sets", 1)
						if !sup || h > 63 {
							if f <= 2 && prf <= 1 && n <= 1<<16 {
								// prints as a name that parses back
								q, err := xmssmt.ParamsFromName2(p.String())
								if err != nil || *q != p {
									c.Violation("%+v prints as %s, which parses as %+v (%v)", p, p.String(), q, err)
								}
								if c.Stop() {
									return
								}
							}
							continue
						}
						if m := ctxRight(ctx, p); m != "" {
							c.Violation("NewContext(%+v): %s", p, m)
						}
						if m := sizesRight(p); m != "" {
							c.Violation("%+v: %s", p, m)
						}
						name := p.String()
						if name != canonName(p) {
							c.Violation("%+v prints as %s instead of %s", p, name, canonName(p))
						}
						q, err := xmssmt.ParamsFromName2(name)
						if err != nil || *q != p {
							c.Violation("%+v prints as %s, which parses as %+v (%v)", p, name, q, err)
						}
						if x, err := xmssmt.NewContextFromName2(name); err != nil {
							c.Violation("NewContextFromName2(%s): %v", name, err)
						} else if m := ctxRight(x, p); m != "" {
							c.Violation("NewContextFromName2(%s): %s", name, m)
						}
						_, std := stdByName[name]
						if (xmssmt.ParamsFromName(name) != nil) != std || (xmssmt.NewContextFromName(name) != nil) != std {
							c.Violation("%s is registered: %v", name, !std)
						}
						ln, lo := p.LookupNameAndOid()
						if e := stdByParams[p]; ln != e.name || lo != e.oid {
							c.Violation("LookupNameAndOid of %s: %s %#x", name, ln, lo)
						}
						c.Sig(p)
						c.Count("supported_sets", 1)
						c.Count("transitions", 5)
						if c.Stop() {
							return
						}
					}
				}
			}
		}
	}
}

// nameRight compares what a name yields with what it spells.
func nameRight(c *Ctx, n string) bool {
	var p *xmssmt.Params
	var err xmssmt.Error
	if e := noPanic(func() { p, err = xmssmt.ParamsFromName2(n) }); e != "" {
		c.Violation("ParamsFromName2(%q) %s", n, e)
		return !c.Stop()
	}
	c.Count("names_parsed", 1)
	want, mt, ok, canon := spell(n)
	if err == nil {
		if !ok {
			c.Violation("ParamsFromName2(%q) = %+v, although it spells no parameters", n, *p)
		} else if *p != want {
			c.Violation("ParamsFromName2(%q) = %+v instead of %+v", n, *p, want)
		}
		c.Sig(n)
	} else if ok && canon && supported(want) && (!mt || want.D > 1) {
		c.Violation("ParamsFromName2(%q): %v", n, err)
	}
	var ctx *xmssmt.Context
	if e := noPanic(func() { ctx, err = xmssmt.NewContextFromName2(n) }); e != "" {
		c.Violation("NewContextFromName2(%q) %s", n, e)
		return !c.Stop()
	}
	if err == nil {
		if !ok || !supported(want) {
			c.Violation("NewContextFromName2(%q) returns a context", n)
		} else if m := ctxRight(ctx, want); m != "" {
			c.Violation("NewContextFromName2(%q): %s", n, m)
		}
	}
	if ctx := xmssmt.NewContextFromName(n); ctx != nil {
		if e, std := stdByName[n]; !std {
			c.Violation("NewContextFromName(%q) returns a context", n)
		} else if m := ctxRight(ctx, e.p); m != "" {
			c.Violation("NewContextFromName(%q): %s", n, m)
		}
	}
	return !c.Stop()
}

func c13Edits(c *Ctx, i int) {
	n := c13Names[i]
	var alpha []byte
	for b := 32; b < 127; b++ {
		alpha = append(alpha, byte(b))
	}
	alpha = append(alpha, 0, '\n', 0x80, 0xff)
	edits := func(n string, f func(string) bool) {
		for o := 0; o <= len(n); o++ {
			if o < len(n) && !f(n[:o]+n[o+1:]) {
				return
			}
			if o+1 < len(n) && !f(n[:o]+n[o+1:o+2]+n[o:o+1]+n[o+2:]) {
				return
			}
			if !f(n[:o]) || !f(n[o:]) {
				return
			}
			for _, b := range alpha {
				if !f(n[:o] + string([]byte{b}) + n[o:]) {
					return
				}
				if o < len(n) && !f(n[:o]+string([]byte{b})+n[o+1:]) {
					return
				}
			}
		}
	}
	edits(n, func(s string) bool {
		if !c.Case(fmt.Sprintf("edit of %s: %q", n, s)) {
			return true
		}
		return nameRight(c, s)
	})
	// two edits
	alpha = []byte("0123456789/_-+wXMT ")
	if c.Only == "" {
		edits(n, func(s string) bool {
			if !c.Tier.Thorough && len(s) >= len(n) {
				return true // quick: something removed, and then any edit
			}
			c.Case(fmt.Sprintf("edits of %q", s))
			ok := true
			edits(s, func(u string) bool {
				ok = nameRight(c, u)
				return ok
			})
			return ok
		})
	}
}

func c13Fields(c *Ctx, k int) {
	algs := []string{"XMSS", "XMSSMT", "XMSSM"}
	alg := algs[k%3]
	fs := [][]string{{"SHA2", "SHA", ""}, {"SHAKE", "SHAKE128"}, {"SHAKE256", "SHA2-", "shake"}}[k/3]
	nums := []string{"0", "1", "2", "4", "5", "10", "20", "60", "63", "64", "", "+4", "-4", "-0", "04", "4 ", " 4", "0x4", "4e1", "4_2",
		"4294967296", "4294967297", "4294967300", "18446744073709551616", "18446744073709551620", "9223372036854775808", "340282366920938463463374607431768211460", "٤"}
	ns := []string{"128", "192", "256", "512", "255", "136", "0", "8", "24", "64", "2048", "34359738624", "4294967552", "4294967296", "18446744073709551872", "-256", "+256", "", "256 "}
	hs := append([]string(nil), nums...)
	for _, a := range nums {
		for _, b := range []string{"1", "2", "4", "0", "", "+2", "-2", "4294967298", "18446744073709551618", "2/2", "02"} {
			hs = append(hs, a+"/"+b)
		}
	}
	opts := []string{"", "_w4", "_w16", "_w256", "_NIST", "_RFC", "_w65540", "_w65552", "_w65792", "_w-4", "_w+4", "_w", "_W4", "_w04", "_w0", "_w5", "_", "_NISTRFC", "_nist", "_4", "_w18446744073709551620"}
	for _, f := range fs {
		for _, h := range hs {
			if !c.Case(fmt.Sprintf("names %s-%s_%s_*", alg, f, h)) {
				continue
			}
			for _, n := range ns {
				for _, o1 := range opts {
					for _, o2 := range opts {
						if o1 == "" && o2 != "" {
							continue
						}
						if !nameRight(c, alg+"-"+f+"_"+h+"_"+n+o1+o2) {
							return
						}
					}
				}
				nameRight(c, alg+"-"+f+"_"+h+"_"+n+"_w4_RFC_w4")
				nameRight(c, alg+f+"_"+h+"_"+n)
				nameRight(c, alg+"-"+f+h+"_"+n)
				nameRight(c, alg+"-"+f+"_"+h)
			}
		}
	}
}
