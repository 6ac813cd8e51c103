//go:build go1.21

package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

// Key files that are damaged, foreign or of keys this library does not
// support (C25).
//
// What a key file says is read here by an independent decoder of the format;
// the library has to refuse the file or to agree.

type keyfileArg struct {
	P     P
	Start uint64
	Kind  string // see files
	Cache bool   // with the cache
	Part  int
	Parts int
	Full  bool `json:",omitempty"` // all combinations of unsupported parameters
}

const kfHeader = 36 // magic 8, hash 1, n 4, height 4, d 4, w 2, prf 1, next 8, borrowed 4

// keyFile is what a key file says.
type keyFile struct {
	f    *Fix
	next uint64
	lost uint64
	huge bool // a supported key that takes too long to work with
	bad  string
}

func putKeyFile(fn, prf uint8, n, h, d uint32, w uint16, next uint64, borrowed uint32, key []byte) []byte {
	b, _ := hex.DecodeString("4089430a5ced6844")
	b = append(b, fn)
	b = binary.BigEndian.AppendUint32(b, n)
	b = binary.BigEndian.AppendUint32(b, h)
	b = binary.BigEndian.AppendUint32(b, d)
	b = binary.BigEndian.AppendUint16(b, w)
	b = append(b, prf)
	b = binary.BigEndian.AppendUint64(b, next)
	b = binary.BigEndian.AppendUint32(b, borrowed)
	return append(b, key...)
}

// The number of hash computations for keys to be used.
var kfLimit int

var kfMemo = map[string]*Fix{}

func readKeyFile(b []byte) (k keyFile) {
	if len(b) < kfHeader {
		k.bad = "it is too short"
		return
	}
	if hex.EncodeToString(b[:8]) != "4089430a5ced6844" {
		k.bad = "the magic is wrong"
		return
	}
	u := binary.BigEndian
	fn, n, h, d, w, prf := b[8], u.Uint32(b[9:]), u.Uint32(b[13:]), u.Uint32(b[17:]), u.Uint16(b[21:]), b[23]
	next, borrowed := u.Uint64(b[24:]), u.Uint32(b[32:])
	switch {
	case fn > 2:
		k.bad = "the hash function is unknown"
	case prf > 1:
		k.bad = "the PRF is unknown"
	case n != 16 && n != 24 && n != 32 && n != 64:
		k.bad = "n is not supported"
	case h == 0 || d == 0 || h%d != 0:
		k.bad = "the heights are impossible"
	case w != 4 && w != 16 && w != 256:
		k.bad = "w is not supported"
	case h > 63 || h/d > 6 || d > 63:
		k.huge = true
	case len(b) < kfHeader+3*int(n):
		k.bad = "the seeds are cut off"
	}
	if k.bad != "" || k.huge {
		return
	}
	p := P{int(fn), int(n), int(h), int(d), int(w), prf == 1}
	if (1<<uint(p.H/p.D))*p.D*p.r().Len()*p.W > kfLimit {
		k.huge = true
		return
	}
	key := b[kfHeader : kfHeader+3*p.N]
	id := p.String() + hexs(key)
	f := kfMemo[id]
	if f == nil {
		f = &Fix{P: p, memo: map[string][]byte{}, images: map[string]*vfs.Image{}}
		f.SkSeed, f.SkPrf, f.PubSeed = key[:p.N], key[p.N:2*p.N], key[2*p.N:]
		f.K = ref.NewKey(p.r(), f.SkSeed, f.SkPrf, f.PubSeed)
		f.Root = f.K.Root()
		f.Hdr = header(p)
		f.Pk = append(append(append([]byte(nil), f.Hdr...), f.Root...), f.PubSeed...)
		if len(kfMemo) > 200 {
			kfMemo = map[string]*Fix{}
		}
		kfMemo[id] = f
	}
	k.f, k.next, k.lost = f, next, uint64(borrowed)
	if over := next - f.max(); next > f.max() {
		k.next = f.max()
		if over < k.lost {
			k.lost -= over
		} else {
			k.lost = 0
		}
	}
	return
}

func setFile(im *vfs.Image, suffix string, b []byte) {
	name := vfs.Dir + "/key" + suffix
	if b == nil {
		delete(im.Files, name)
	} else {
		im.Files[name] = append([]byte(nil), b...)
	}
}

// keyfileRun uses a key file.
func keyfileRun(f *Fix, im *vfs.Image, b []byte, cache bool, tmp []byte, again bool) (bad, sig string, huge bool) {
	k := readKeyFile(b)
	if k.huge {
		return "", "", true
	}
	d := dropLock(im.Clone())
	good := d.Files[vfs.Dir+"/key"]
	if !cache {
		setFile(d, ".cache", nil)
	}
	setFile(d, "", b)
	setFile(d, ".tmp", tmp)
	w := world(d)
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	clean := func(what string) {
		for _, n := range w.fs.Names() {
			if strings.HasSuffix(n, ".lock") {
				fails("%s leaves the lock behind", what)
			}
		}
		if w.fs.OpenFiles != 0 {
			fails("%s leaves %d files open", what, w.fs.OpenFiles)
		}
	}
	untouched := func(what string) {
		got, ok := w.fs.ReadRaw(vfs.Dir + "/key")
		if b == nil && ok {
			fails("%s makes a key file", what)
		} else if b != nil && (!ok || string(got) != string(b)) {
			fails("%s changes the key file", what)
		}
		clean(what)
	}
	use := func(f *Fix, next, lost uint64) {
		for round := 0; round < 2; round++ {
			sk, pk, l, err := xmssmt.LoadPrivateKey(w.path)
			if err != nil {
				if b != nil && len(b) > kfHeader+3*f.P.N && round == 0 {
					sig += "refused"
					untouched("the refused load")
					return // longer than it should be
				}
				fails("session %d: loading the key fails: %v", round, err)
				return
			}
			sk.Context().Threads = 1
			if m := f.pkRight(pk); m != "" {
				fails("session %d: %s", round, m)
			}
			if p := sk.Context().Params(); p != f.P.x() {
				fails("session %d: the parameters are %v instead of %v", round, p, f.P)
			}
			if n := uint64(sk.SeqNo()); n != next || uint64(l) != lost {
				fails("session %d: the key continues with %d (%d lost) instead of %d (%d lost)", round, n, l, next, lost)
			}
			sig += fmt.Sprintf("%d-%d ", sk.SeqNo(), l)
			if bad == "" && next < f.max() {
				s, err := sk.Sign([]byte("m"))
				if err != nil {
					fails("session %d: signing fails: %v", round, err)
				} else {
					enc, _ := s.MarshalBinary()
					if uint64(s.SeqNo()) != next {
						fails("session %d: number %d is used instead of %d", round, s.SeqNo(), next)
					} else if m := f.right(next, "m", enc); m != "" {
						fails("session %d: %s", round, m)
					}
				}
				next++
				lost = 0
			} else if bad == "" {
				if s, err := sk.Sign([]byte("m")); err == nil || s != nil {
					fails("session %d: a key without unused numbers signs", round)
				}
			}
			if err := sk.Close(); err != nil {
				fails("session %d: Close fails: %v", round, err)
			}
			clean("Close")
			if bad != "" || next >= f.max() {
				return
			}
		}
	}
	e := managed(func() {
		if k.bad == "" && b != nil {
			use(k.f, k.next, k.lost)
			return
		}
		if b == nil {
			k.bad = "there is none"
		}
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		sk, pk, _, err := xmssmt.LoadPrivateKey(w.path)
		runtime.ReadMemStats(&m1)
		if err == nil || sk != nil || pk != nil {
			fails("the key file is loaded although %s (error: %v)", k.bad, err)
			return
		}
		if n := m1.TotalAlloc - m0.TotalAlloc; n > 64<<20 {
			fails("refusing a key file of %d bytes takes %d bytes of memory", len(b), n)
		}
		if err.Locked() {
			fails("the error for a bad key file says the key is locked")
		}
		sig = "refused: " + err.Error()
		untouched("the refused load")
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
		if b == nil && err == nil {
			// There may be one.
			if ctr.Initialized() != nil {
				fails("a container without key file is initialized")
			}
			err := ctr.Close()
			if err != nil {
				fails("closing a container without key file fails: %v", err)
			}
		} else if err == nil || ctr != nil {
			fails("the container is opened although %s", k.bad)
			return
		}
		untouched("the refused opening of the container")
		s, err := xmssmt.Sign(w.path, []byte("m"))
		if err == nil || s != nil {
			fails("Sign works although %s", k.bad)
			return
		}
		untouched("the refused Sign")
		if bad != "" || !again {
			return
		}
		// The right file is put back.
		w.fs.WriteRaw(vfs.Dir+"/key", good)
		b = good
		g := readKeyFile(good)
		s2 := sig
		use(f, g.next, g.lost)
		sig = s2
	})
	if e != "" {
		fails("%s", e)
	}
	if m := w.end(); m != "" {
		fails("%s", m)
	}
	return
}

// files enumerates key files.
func (a *keyfileArg) files(f *Fix, key []byte, do func(what string, b, tmp []byte) bool) {
	n := 0
	try := func(what string, b, tmp []byte) bool {
		n++
		if a.Parts > 1 && n%a.Parts != a.Part {
			return true
		}
		return do(what, b, tmp)
	}
	switch a.Kind {
	case "bytes":
		for i := range key {
			for x := 1; x < 256; x++ {
				if i >= kfHeader && x != 1 && x != 0x80 && x != 0xff {
					continue
				}
				b := append([]byte(nil), key...)
				b[i] ^= byte(x)
				if !try(fmt.Sprintf("byte %d is %02x instead of %02x", i, b[i], key[i]), b, nil) {
					return
				}
			}
		}
	case "trunc":
		for l := 0; l < len(key); l++ {
			if !try(fmt.Sprintf("cut off after %d bytes", l), key[:l:l], nil) {
				return
			}
			z := append(append([]byte(nil), key[:l]...), make([]byte, len(key)-l)...)
			if !try(fmt.Sprintf("zeroes after %d bytes", l), z, nil) {
				return
			}
			if !try(fmt.Sprintf("the first %d bytes are missing", l), key[l:], nil) {
				return
			}
		}
		for l := 1; l <= 200; l++ {
			for _, x := range []byte{0, 0xff} {
				if !try(fmt.Sprintf("%d bytes %02x", l, x), []byte(strings.Repeat(string([]byte{x}), l)), nil) {
					return
				}
				if l < 20 && !try(fmt.Sprintf("followed by %d bytes %02x", l, x), append(append([]byte(nil), key...), []byte(strings.Repeat(string([]byte{x}), l))...), nil) {
					return
				}
			}
		}
		try("no key file", nil, nil)
		try("no key file but a temporary one", nil, key)
		try("empty", []byte{}, nil)
	case "params":
		seeds := seedBytes("keyfile", 192)
		for _, fn := range []uint8{0, 1, 2, 3, 4, 128, 255} {
			for _, n := range []uint32{0, 1, 8, 16, 17, 24, 32, 40, 64, 128, 256 + 16, 1<<31 + 16, 0x55555556, 1<<32 - 1, 1<<32 - 16} {
				for _, hd := range [][2]uint32{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}, {3, 1}, {4, 2}, {6, 3}, {5, 2}, {2, 4}, {1, 2}, {12, 6}, {4, 1<<31 + 2}, {1 << 31, 1<<31 - 1}, {1<<32 - 1, 0}, {3, 1<<32 - 1}} {
					for _, w := range []uint16{0, 1, 2, 3, 4, 8, 15, 16, 17, 64, 255, 256, 257, 260, 272, 512, 4096, 1024, 65535} {
						for _, prf := range []uint8{0, 1, 2, 3, 255} {
							what := fmt.Sprintf("hash %d, n %d, height %d, d %d, w %d, prf %d", fn, n, hd[0], hd[1], w, prf)
							wrong := 0
							for _, ok := range []bool{fn < 3, prf < 2, n == 16 || n == 24 || n == 32 || n == 64, hd[1] != 0 && hd[0] != 0 && hd[0]%max(hd[1], 1) == 0, w == 4 || w == 16 || w == 256} {
								if !ok {
									wrong++
								}
							}
							for _, next := range []uint64{0, 1} {
								if next == 1 && wrong > 0 || wrong > 2 && !a.Full {
									continue
								}
								if !try(fmt.Sprintf("%s, next %d", what, next), putKeyFile(fn, prf, n, hd[0], hd[1], w, next, 0, seeds), nil) {
									return
								}
							}
						}
					}
				}
			}
		}
	case "seqno":
		top := f.max()
		var vals []uint64
		for i := uint64(0); i <= top+3; i++ {
			vals = append(vals, i)
		}
		for _, s := range []uint{8, 16, 31, 32, 33, 62, 63} {
			vals = append(vals, 1<<s-1, 1<<s, 1<<s+1)
		}
		vals = append(vals, 1<<64-1, 1<<64-2)
		for _, v := range vals {
			for _, br := range []uint32{0, 1, 2, 3, uint32(top), uint32(top) + 1, uint32(v), uint32(v) + 1, uint32(v-top) - 1, uint32(v - top), uint32(v-top) + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1} {
				b := append([]byte(nil), key...)
				binary.BigEndian.PutUint64(b[24:], v)
				binary.BigEndian.PutUint32(b[32:], br)
				if !try(fmt.Sprintf("next %d, %d borrowed", v, br), b, nil) {
					return
				}
			}
		}
	case "blend": // part of it is another key file
		others := map[string][]byte{}
		var names []string
		add := func(n string, b []byte) { others[n] = b; names = append(names, n) }
		for _, p := range []P{a.P, tiny(2, 2), tiny(3, 1), {1, 32, 2, 1, 16, false}, {0, 24, 4, 2, 4, true}, {2, 64, 2, 2, 16, false}} {
			for _, s := range []uint64{0, 1, 2} {
				k := fix(p, map[bool]string{true: "other"}[p == a.P || s == 2])
				add(fmt.Sprintf("that of another key with %v at %d", p, s), k.image(s, 0).Files[vfs.Dir+"/key"])
			}
		}
		for _, n := range names {
			o := others[n]
			for l := 0; l <= len(key) || l <= len(o); l++ {
				if l <= len(key) && l <= len(o) {
					if !try(fmt.Sprintf("from byte %d it is %s", l, n), append(append([]byte(nil), key[:l]...), o[l:]...), nil) ||
						!try(fmt.Sprintf("up to byte %d it is %s", l, n), append(append([]byte(nil), o[:l]...), key[l:]...), nil) {
						return
					}
				}
			}
		}
	case "tmp": // whatever the temporary file is
		var tmps [][]byte
		for l := 0; l <= len(key); l++ {
			tmps = append(tmps, key[:l:l], append([]byte(nil), key[len(key)-l:]...))
		}
		for _, p := range []P{tiny(3, 1), {1, 32, 2, 1, 16, false}, {2, 64, 2, 2, 16, false}} {
			k := fix(p, "other").image(1, 0).Files[vfs.Dir+"/key"]
			for l := 0; l <= len(k); l += 4 {
				tmps = append(tmps, k[:l:l])
			}
		}
		for _, x := range []byte{0, 0xff, 'A'} {
			for _, l := range []int{1, 100, 1000, 5000} {
				tmps = append(tmps, []byte(strings.Repeat(string([]byte{x}), l)))
			}
		}
		for i, t := range tmps {
			if !try(fmt.Sprintf("it is whole, and the temporary file is number %d (%d bytes)", i, len(t)), key, t) {
				return
			}
		}
	}
}

func init() {
	handle("keyfile", func(c *Ctx) {
		var a keyfileArg
		c.Arg(&a)
		f := fix(a.P, "")
		im := f.image(a.Start, 0)
		kfLimit = 40000
		if c.Tier.Thorough {
			kfLimit = 300000
		}
		key := im.Files[vfs.Dir+"/key"]
		a.files(f, key, func(what string, b, tmp []byte) bool {
			if c.Stop() {
				return false
			}
			what = fmt.Sprintf("%v at %d, cache: %v; key file: %s", a.P, a.Start, a.Cache, what)
			if !c.Case(what) {
				return true
			}
			bad, sig, huge := keyfileRun(f, im, b, a.Cache, tmp, a.Kind != "params" || hashStr(what)%16 == 0)
			if huge {
				c.Count("supported_but_too_large_to_use", 1)
				return true
			}
			c.Count("files_"+a.Kind, 1)
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			if strings.HasPrefix(sig, "refused") {
				c.Count("refused", 1)
			} else {
				c.Count("read", 1)
			}
			if bad != "" {
				c.Violation("%s\n%s", what, bad)
				return true
			}
			c.SigHash(hashStr(a.P.String(), fmt.Sprint(a.Start, a.Cache), string(b), string(tmp), sig))
			c.Sample("%s: %s", what, sig)
			return true
		})
	})
	register(&Check{
		ID: "C25", Level: "model_checking", Budget: [2]int{300, 3300},
		Rule:        "key files: every header byte with every value and every other byte changed in three ways, every truncation, missing prefix and zeroed tail, the full product of boundary values of all parameter fields, of sequence numbers and borrowed counts, every prefix and suffix of other key files, every temporary file of a family, each with and without a cache; each file is read by an independent decoder, and the library has to refuse it (leaving the files as they were, no lock, nothing open) or to give exactly the key it describes, over two sessions; distinct = distinct (files, outcome)",
		Assumptions: append([]string{"files that describe supported keys with more than 2^6 leaves per subtree, or more than 40000 (thorough: 300000) hash computations, are counted but not loaded: using such keys takes long by nature"}, lifeAssume...),
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(p P, start uint64, parts int, kinds string) {
				for _, k := range strings.Fields(kinds) {
					for _, cache := range []bool{false, true} {
						for i := 0; i < parts; i++ {
							js = append(js, mkjob("inst", "keyfile", keyfileArg{P: p, Start: start, Kind: k, Cache: cache, Part: i, Parts: parts}))
						}
					}
				}
			}
			add(tiny(2, 2), 1, 8, "params")
			add(tiny(2, 2), 1, 4, "bytes")
			add(tiny(3, 1), 2, 4, "bytes")
			add(tiny(2, 2), 1, 1, "trunc seqno tmp")
			add(tiny(2, 2), 1, 4, "blend")
			add(P{1, 32, 2, 1, 16, false}, 0, 4, "bytes blend")
			add(P{1, 32, 2, 1, 16, false}, 0, 1, "trunc seqno tmp")
			if t.Thorough {
				for i := 0; i < 64; i++ {
					js = append(js, mkjob("inst", "keyfile", keyfileArg{P: tiny(2, 2), Start: 1, Kind: "params", Cache: i%2 == 0, Part: i / 2, Parts: 32, Full: true}))
				}
				add(P{0, 24, 4, 2, 4, true}, 5, 4, "bytes blend trunc seqno tmp")
				add(P{2, 64, 2, 2, 16, false}, 1, 4, "bytes blend trunc seqno tmp")
				add(tiny(4, 2), 7, 4, "bytes blend trunc seqno tmp")
				add(tiny(3, 3), 0, 8, "params")
				add(tiny(5, 1), 8, 4, "bytes trunc seqno")
			}
			return js
		},
	})
}
