//go:build go1.21

package main

import (
	"encoding/binary"
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

// Damage to the cache between sessions (C06).

type damageArg struct {
	P     P
	Start uint64
	Warm  int    `json:",omitempty"`
	Kind  string // see damages
	Part  int    // of Parts
	Parts int
	Block int `json:",omitempty"` // granularity of exchanges
}

// damages enumerates damaged versions of the cache file; f is called with a
// description and the contents (nil: no file).
func (a *damageArg) damages(f *Fix, im *vfs.Image, cache []byte, do func(what string, b []byte) bool) {
	n := 0
	// part of the work of this job
	mine := func() bool {
		n++
		return a.Parts <= 1 || n%a.Parts == a.Part
	}
	cp := func() []byte { return append([]byte(nil), cache...) }
	try := func(what string, g func() []byte) bool {
		if !mine() {
			return true
		}
		return do(what, g())
	}
	switch a.Kind {
	case "flip":
		for i := range cache {
			for _, x := range []byte{0x01, 0x80, 0xff} {
				i, x := i, x
				if !try(fmt.Sprintf("byte %d xor %02x", i, x), func() []byte { b := cp(); b[i] ^= x; return b }) {
					return
				}
			}
		}
	case "trunc":
		for l := 0; l < len(cache); l++ {
			l := l
			if !try(fmt.Sprintf("truncated to %d bytes", l), func() []byte { return cp()[:l] }) {
				return
			}
		}
		for _, l := range []int{1, 12, 13, 14, 511, 512, 4095, 4096, 4097, 8192, 65536} {
			for _, x := range []byte{0, 1, 0xff} {
				l, x := l, x
				if !try(fmt.Sprintf("%d bytes %02x appended", l, x), func() []byte {
					b := cp()
					for i := 0; i < l; i++ {
						b = append(b, x)
					}
					return b
				}) {
					return
				}
			}
		}
		try("no cache file", func() []byte { return nil })
	case "zero": // ranges of sectors that were never written, or overwritten
		for _, s := range []int{16, 64, 512, 4096} {
			for o := 0; o < len(cache); o += s {
				for _, x := range []byte{0, 0xff} {
					s, o, x := s, o, x
					if !try(fmt.Sprintf("%d bytes at %d set to %02x", s, o, x), func() []byte {
						b := cp()
						for i := o; i < o+s && i < len(b); i++ {
							b[i] = x
						}
						return b
					}) {
						return
					}
				}
			}
		}
	case "swap": // blocks exchanged, or one written over another
		for _, s := range []int{a.Block, 2 * a.Block} {
			for o := 0; o+s <= len(cache); o += a.Block {
				for q := 0; q+s <= len(cache); q += a.Block {
					for _, off := range []int{0, 13} {
						s, o, q, off := s, o, q, off
						if o == q {
							continue
						}
						if o < q && !try(fmt.Sprintf("bytes from %d and %d exchanged in the blocks at %d and %d", off, s, o, q), func() []byte {
							b := cp()
							copy(b[o+off:o+s], cache[q+off:q+s])
							copy(b[q+off:q+s], cache[o+off:o+s])
							return b
						}) {
							return
						}
						if !try(fmt.Sprintf("bytes from %d to %d of the block at %d copied to %d", off, s, o, q), func() []byte {
							b := cp()
							copy(b[q+off:q+s], cache[o+off:o+s])
							return b
						}) {
							return
						}
					}
				}
			}
		}
	case "words": // words of the headers set to interesting values
		vals := []uint64{0, 1, 2, 3, 4, 5, 7, 8, 13, 20, 21, 22, 64, 255, 4095, 4096, 4097, 8192, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		at := map[int]bool{}
		for o := 0; o < 40; o++ {
			at[o] = true
		}
		for b := a.Block; b < len(cache); b += a.Block {
			for o := 0; o < 24; o++ {
				at[b+o] = true
			}
		}
		for o := 0; o+8 <= len(cache); o++ {
			if !at[o] {
				continue
			}
			for _, v := range vals {
				for _, sz := range []int{1, 4, 8} {
					if sz < 8 && v>>(8*uint(sz)) != 0 {
						continue
					}
					o, v, sz := o, v, sz
					if !try(fmt.Sprintf("%d bytes at %d set to %x", sz, o, v), func() []byte {
						b := cp()
						var t [8]byte
						binary.BigEndian.PutUint64(t[:], v)
						copy(b[o:o+sz], t[8-sz:])
						return b
					}) {
						return
					}
				}
			}
		}
	case "foreign": // caches of other times and of other keys
		for s := uint64(0); s <= f.max(); s++ {
			for warm := 0; warm < 2; warm++ {
				if s+uint64(warm) > f.max() {
					continue
				}
				s, warm := s, warm
				if !try(fmt.Sprintf("the cache of the same key at %d+%d", s, warm), func() []byte { return cacheOf(f.image(s, warm)) }) {
					return
				}
				g := fix(a.P, "other")
				if !try(fmt.Sprintf("the cache of another key at %d+%d", s, warm), func() []byte { return cacheOf(g.image(s, warm)) }) {
					return
				}
				// block by block
				for o := 0; o < len(cache); o += a.Block {
					for _, off := range []int{0, 13} {
						s, warm, o, off := s, warm, o, off
						for _, k := range []*Fix{f, g} {
							k := k
							who := "another key"
							if k == f {
								who = "the same key"
							}
							if !try(fmt.Sprintf("the block at %d from byte %d is from the cache of %s at %d+%d", o, off, who, s, warm), func() []byte {
								b := cp()
								x := cacheOf(k.image(s, warm))
								if o+off < len(x) {
									copy(b[o+off:min(o+a.Block, len(b))], x[o+off:])
								}
								return b
							}) {
								return
							}
						}
					}
				}
			}
		}
		for _, p := range []P{tiny(2, 2), tiny(3, 3), tiny(4, 2), tiny(2, 1), {0, 16, a.P.H, a.P.D, 16, false}, {0, 32, a.P.H, a.P.D, 4, false}, {1, 16, a.P.H, a.P.D, 4, false}} {
			if p == a.P {
				continue
			}
			p := p
			if !try(fmt.Sprintf("the cache of a key with parameters %v", p), func() []byte { return cacheOf(fix(p, "").image(1, 1)) }) {
				return
			}
		}
	}
}

func cacheOf(im *vfs.Image) []byte {
	for n, b := range im.Files {
		if strings.HasSuffix(n, ".cache") {
			return b
		}
	}
	return nil
}

// damaged uses a key with a damaged cache.
func damaged(f *Fix, im *vfs.Image, cache []byte, next uint64) (string, string) {
	d := im.Clone()
	for n := range d.Files {
		if strings.HasSuffix(n, ".cache") {
			if cache == nil {
				delete(d.Files, n)
			} else {
				d.Files[n] = cache
			}
		}
	}
	w := world(dropLock(d))
	bad, sig := "", ""
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	e := managed(func() {
		for round := 0; round < 2; round++ {
			sk, pk, lost, err := xmssmt.LoadPrivateKey(w.path)
			if err != nil {
				fails("loading the key fails (session %d): %v", round, err)
				return
			}
			sk.Context().Threads = 1
			if m := f.pkRight(pk); m != "" {
				fails("session %d: %s", round, m)
				return
			}
			if n := uint64(sk.SeqNo()); n != next || lost != 0 {
				fails("the key continues with %d (%d lost) instead of %d", n, lost, next)
				return
			}
			sig += fmt.Sprint(sk.CachedSubTrees(), ".")
			for i := 0; i < 3 && next < f.max(); i++ {
				s, err := sk.Sign([]byte("damaged"))
				if err != nil {
					fails("signing fails (session %d): %v", round, err)
					return
				}
				if uint64(s.SeqNo()) != next {
					fails("number %d is used instead of %d", s.SeqNo(), next)
					return
				}
				enc, _ := s.MarshalBinary()
				if m := f.right(next, "damaged", enc); m != "" {
					fails("session %d: %s", round, m)
					return
				}
				next++
			}
			sig += fmt.Sprint(sk.CachedSubTrees(), " ")
			if err := sk.Close(); err != nil {
				fails("Close fails (session %d): %v", round, err)
				return
			}
		}
	})
	if e != "" {
		fails("%s", e)
	}
	if m := w.end(); m != "" {
		fails("%s", m)
	}
	return bad, sig
}

func init() {
	handle("damage", func(c *Ctx) {
		var a damageArg
		c.Arg(&a)
		f := fix(a.P, "")
		im := f.image(a.Start, a.Warm)
		cache := cacheOf(im)
		c.Max("cache_bytes", len(cache))
		a.damages(f, im, cache, func(what string, b []byte) bool {
			if c.Stop() {
				return false
			}
			what = fmt.Sprintf("%v at %d+%d: %s", a.P, a.Start, a.Warm, what)
			if !c.Case(what) {
				return true
			}
			bad, sig := damaged(f, im, b, a.Start+uint64(a.Warm))
			c.Count("damages_"+a.Kind, 1)
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			if bad != "" {
				c.Violation("%s\n%s", what, bad)
				return true
			}
			c.SigHash(hashStr(a.P.String(), fmt.Sprint(a.Start), string(b), sig))
			c.Sample("%s: cached subtrees %s", what, sig)
			return true
		})
	})
	register(&Check{
		ID: "C06", Level: "model_checking", Budget: [2]int{300, 3300},
		Rule:        "cache files: every byte changed in three ways, every truncation, every sector zeroed, every exchange and copy of blocks (with and without entry headers), every word of every header set to every boundary value, caches and cache blocks of every other moment of the key's life and of other keys and parameters; each is loaded, used for three signatures, closed, loaded and used again; plus lives with a kill at every statement that changes the cache; distinct = distinct (damaged file, outcome)",
		Assumptions: lifeAssume,
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(p P, start uint64, warm int, parts int, kinds string) {
				for _, k := range strings.Fields(kinds) {
					for i := 0; i < parts; i++ {
						js = append(js, mkjob("inst", "damage", damageArg{P: p, Start: start, Warm: warm, Kind: k, Part: i, Parts: parts, Block: 4096}))
					}
				}
			}
			const all = "flip trunc zero swap words foreign"
			add(tiny(2, 2), 0, 0, 8, "zero swap words foreign trunc flip")
			add(tiny(3, 3), 3, 1, 8, "zero swap words foreign")
			add(tiny(4, 2), 5, 0, 8, "zero swap words foreign")
			add(tiny(2, 1), 1, 0, 4, all)
			add(P{1, 32, 2, 1, 16, false}, 0, 1, 4, "zero swap words")
			add(P{0, 64, 4, 2, 16, false}, 3, 0, 4, "swap")
			if t.Thorough {
				add(tiny(3, 3), 3, 1, 8, "flip trunc")
				add(tiny(4, 2), 5, 0, 8, "flip trunc")
				add(P{0, 64, 4, 2, 16, false}, 3, 0, 8, "flip trunc zero words foreign")
				add(P{0, 24, 4, 2, 16, true}, 3, 1, 8, all)
				add(tiny(5, 1), 3, 1, 8, all)
			}
			const tags = "bytes pk load panic memory"
			js = append(js, lifePlan(
				lifeCfg{P: tiny(2, 2), Ops: "S P", Len: 2, Age: 2, Tags: tags, Ticks: true},
				lifeCfg{P: tiny(3, 3), Start: 1, Ops: "S", Len: 2, Age: 2, Tags: tags, Ticks: true},
				lifeCfg{P: tiny(4, 2), Start: 3, Ops: "S", Len: 2, Age: 2, Tags: tags, Ticks: true},
			)...)
			for _, d := range [][]string{{"0/0"}, {"1/0"}, {"2/0"}, {"0/0", "1/0", "2/0"}} {
				js = append(js, concJobs(tags, 1, 2, "inst", concArg{P: tiny(3, 3), Damage: d, Threads: []string{"S", "S"}})...)
			}
			return js
		},
	})
}
