//go:build go1.21

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

// The subtree cache as a map (C14), and caches in old formats (C24).

var cacheAddrs = []xmssmt.SubTreeAddress{{Layer: 0, Tree: 0}, {Layer: 0, Tree: 1}, {Layer: 1, Tree: 0},
	{Layer: 1, Tree: 1<<40 + 1}, {Layer: 2, Tree: 1<<64 - 1}}

// cacheModel is what a cache should contain.
type cacheModel struct {
	Live  map[int]int // address index -> generation of the contents; -1: unknown
	High  int         // most entries there have been at a time
	Adopt bool        `json:",omitempty"` // killed: what is there is to be found out
}

func (m cacheModel) clone() cacheModel {
	n := cacheModel{map[int]int{}, m.High, m.Adopt}
	for k, v := range m.Live {
		n.Live[k] = v
	}
	return n
}

func (m cacheModel) key() string {
	var s []string
	for k, v := range m.Live {
		s = append(s, fmt.Sprintf("%d:%d", k, v))
	}
	sort.Strings(s)
	return fmt.Sprint(s, m.High, m.Adopt)
}

var patterns = map[[3]int][]byte{}

func cachePattern(addr, gen, size int) []byte {
	k := [3]int{addr, gen, size}
	if p, ok := patterns[k]; ok {
		return p
	}
	p := make([]byte, size)
	x := uint32(addr*7+gen*3+1) * 2654435761
	for i := range p {
		x = x*1664525 + 1013904223
		p[i] = byte(x >> 24)
	}
	patterns[k] = p
	return p
}

// cacheSess uses a container.
type cacheSess struct {
	params xmssmt.Params
	ctr    xmssmt.PrivateKeyContainer
	m      cacheModel
	held   map[int][]byte
	size   func() int64 // of the cache file
	sync   func()       // makes writes to mappings visible everywhere
	bad    string
	gens   int // different contents per address
}

func (s *cacheSess) fails(f string, a ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *cacheSess) op(o string) {
	var a int
	if len(o) > 1 {
		a = int(o[1] - '0')
	}
	bufSize := s.params.CachedSubTreeSize()
	before := s.size()
	switch o[0] {
	case 'G':
		addr := cacheAddrs[a]
		gen, live := s.m.Live[a]
		n := len(s.m.Live)
		buf, exists, err := s.ctr.GetSubTree(addr)
		if err != nil {
			s.fails("GetSubTree(%v) fails: %v", addr, err)
			return
		}
		if exists != live {
			s.fails("GetSubTree(%v) tells exists=%v", addr, exists)
			return
		}
		if len(buf) != bufSize {
			s.fails("the buffer of %v has %d bytes instead of %d", addr, len(buf), bufSize)
			return
		}
		if live && gen >= 0 && !bytes.Equal(buf, cachePattern(a, gen, bufSize)) {
			s.fails("the buffer of %v lost its contents", addr)
			return
		}
		if live {
			gen = (gen + 1) % s.gens
		} else {
			gen = 0
		}
		copy(buf, cachePattern(a, gen, bufSize))
		s.m.Live[a] = gen
		s.held[a] = buf
		if !live && n < s.m.High && s.size() > before {
			s.fails("the cache file grew from %d to %d bytes for %v, although only %d entries are in use and there have been %d",
				before, s.size(), addr, n, s.m.High)
		}
		if live && s.size() > before {
			s.fails("the cache file grew from %d to %d bytes when getting %v, which was there", before, s.size(), addr)
		}
		if len(s.m.Live) > s.m.High {
			s.m.High = len(s.m.Live)
		}
		if old, ok := s.held[a]; ok {
			s.sync()
			if !bytes.Equal(old, buf) {
				s.fails("two buffers of %v differ", addr)
			}
		}
	case 'D':
		if err := s.ctr.DropSubTree(cacheAddrs[a]); err != nil {
			s.fails("DropSubTree(%v) fails: %v", cacheAddrs[a], err)
			return
		}
		delete(s.m.Live, a)
		delete(s.held, a)
		if s.size() > before {
			s.fails("the cache file grew when dropping %v", cacheAddrs[a])
		}
	case 'Z':
		if err := s.ctr.ResetCache(); err != nil {
			s.fails("ResetCache fails: %v", err)
			return
		}
		s.m.Live = map[int]int{}
		s.m.High = 0
		s.held = map[int][]byte{}
	}
	s.check()
}

// check looks at everything that can be looked at without changing anything.
func (s *cacheSess) check() {
	if s.bad != "" {
		return
	}
	if !s.ctr.CacheInitialized() {
		s.fails("the cache is not initialized any more")
		return
	}
	l, err := s.ctr.ListSubTrees()
	if err != nil {
		s.fails("ListSubTrees fails: %v", err)
		return
	}
	got := map[xmssmt.SubTreeAddress]int{}
	for _, a := range l {
		got[a]++
	}
	n := 0
	for i, a := range cacheAddrs {
		_, live := s.m.Live[i]
		if live {
			n++
		}
		if live != s.ctr.HasSubTree(a) {
			s.fails("HasSubTree(%v) is %v", a, !live)
		}
		if got[a] > 1 || live != (got[a] == 1) {
			s.fails("ListSubTrees lists %v %d times, although it is there: %v", a, got[a], live)
		}
	}
	if len(l) != n {
		s.fails("ListSubTrees returns %d entries, there are %d", len(l), n)
	}
	if _, ok := s.m.Live[0]; !ok && s.ctr.HasSubTree(xmssmt.SubTreeAddress{Layer: 5, Tree: 5}) {
		s.fails("HasSubTree knows a subtree that never was")
	}
	s.sync()
	for a, b := range s.held {
		if !bytes.Equal(b, cachePattern(a, s.m.Live[a], len(b))) {
			s.fails("the buffer of %v changed", cacheAddrs[a])
		}
	}
}

// verify looks at all contents.
func (s *cacheSess) verify() {
	if s.bad != "" {
		return
	}
	var ks []int
	for a := range s.m.Live {
		ks = append(ks, a)
	}
	sort.Ints(ks)
	for _, a := range ks {
		buf, exists, err := s.ctr.GetSubTree(cacheAddrs[a])
		if err != nil || !exists {
			s.fails("GetSubTree(%v): exists=%v %v", cacheAddrs[a], exists, err)
			return
		}
		if s.m.Live[a] >= 0 && !bytes.Equal(buf, cachePattern(a, s.m.Live[a], s.params.CachedSubTreeSize())) {
			s.fails("the buffer of %v lost its contents", cacheAddrs[a])
			return
		}
	}
}

// opened begins a session.
func (s *cacheSess) opened() {
	s.held = map[int][]byte{}
	if p := s.ctr.Initialized(); p == nil || *p != s.params {
		s.fails("the container is not initialized")
		return
	}
	if !s.m.Adopt {
		s.check()
		return
	}
	// After a kill: whatever is there.
	s.m.Adopt = false
	if !s.ctr.CacheInitialized() {
		if err := s.ctr.ResetCache(); err != nil {
			s.fails("ResetCache fails: %v", err)
		}
	}
	l, err := s.ctr.ListSubTrees()
	if err != nil {
		s.fails("ListSubTrees fails: %v", err)
		return
	}
	was := s.m.Live
	s.m.Live = map[int]int{}
	for _, a := range l {
		k := -1
		for i, b := range cacheAddrs {
			if a == b {
				k = i
			}
		}
		if _, ok := was[k]; !ok {
			s.fails("after a kill, %v is cached, which was not before", a)
			return
		}
		s.m.Live[k] = -1
	}
	s.m.High = len(s.m.Live)
	s.check()
}

type cacheJob struct {
	P     P
	Image string // packed; empty: fresh container
	Model cacheModel
	Len   int    // operations per session
	Len2  int    `json:",omitempty"` // in later sessions
	Ops   string // alphabet
	Pages []int
	Kill  bool `json:",omitempty"` // sessions may end with a kill
	Depth int  `json:",omitempty"` // sessions so far
	Max   int  `json:",omitempty"` // most sessions
	Gens  int  `json:",omitempty"` // contents per address
	What  string
	Fmt   *cacheFmt `json:",omitempty"` // format of a hand-written cache
	Slots []int     `json:",omitempty"` // its slots: address index or -1
}

// initial makes the state a search begins with.
func (j *cacheJob) initial() *vfs.Image {
	im := freshContainer(j.P)
	j.Model = cacheModel{Live: map[int]int{}, High: len(j.Slots)}
	if j.Fmt == nil {
		return im
	}
	params := j.P.x()
	n := params.CachedSubTreeSize()
	var es []cacheEntry
	for _, a := range j.Slots {
		if a < 0 {
			es = append(es, cacheEntry{nil, cachePattern(3, 0, n)})
			continue
		}
		j.Model.Live[a] = 0
		ad := cacheAddrs[a]
		es = append(es, cacheEntry{&ad, cachePattern(a, 0, n)})
	}
	return setCache(im, writeCache(*j.Fmt, n, es))
}

// freshContainer is a container with an empty cache.
func freshContainer(p P) *vfs.Image {
	w := world(nil)
	e := managed(func() {
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
		must(err)
		must(ctr.Reset(seedBytes("ctr", 3*p.N), p.x()))
		must(ctr.Close())
	})
	if e != "" {
		panic("creating a container: " + e)
	}
	im := dropLock(w.fs.Image())
	w.end()
	return im
}

// afterClose uses a closed container: anything may happen but a crash.
func afterClose(ctr xmssmt.PrivateKeyContainer) {
	ctr.GetSubTree(cacheAddrs[0])
	ctr.DropSubTree(cacheAddrs[0])
	ctr.HasSubTree(cacheAddrs[0])
	ctr.ListSubTrees()
	ctr.CacheInitialized()
	ctr.Initialized()
	ctr.Close()
}

func (j *cacheJob) session(im *vfs.Image, ops []string, page int) (bad string, end *vfs.Image, m cacheModel) {
	w := world(im)
	w.fs.PageSize = page
	s := &cacheSess{params: j.P.x(), m: j.Model.clone(), gens: j.Gens}
	if s.gens == 0 {
		s.gens = 1
	}
	s.size = func() int64 {
		b, _ := w.fs.ReadRaw(w.path + ".cache")
		return int64(len(b))
	}
	s.sync = func() { w.fs.Flush() }
	kill := len(ops) > 0 && ops[len(ops)-1] == "K"
	e := managed(func() {
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
		if err != nil {
			s.fails("the container cannot be opened: %v", err)
			return
		}
		s.ctr = ctr
		s.opened()
		for _, o := range ops {
			if s.bad == "" && o != "K" {
				s.op(o)
			}
		}
		s.verify()
		s.check()
		if kill {
			s.m.Adopt = true
			end = dropLock(w.fs.Image())
			return
		}
		if err := ctr.Close(); err != nil {
			s.fails("Close fails: %v", err)
		}
		afterClose(ctr)
	})
	if e != "" {
		s.fails("%s", e)
	}
	if end == nil {
		end = dropLock(w.fs.Image())
	}
	if m := w.end(); m != "" {
		s.fails("%s", m)
	}
	return s.bad, end, s.m
}

func init() {
	handle("cache", func(c *Ctx) {
		var j cacheJob
		c.Arg(&j)
		var im *vfs.Image
		if j.Image == "" {
			im = j.initial()
		} else {
			im = unpackImage(j.Image)
		}
		if j.Model.Live == nil {
			j.Model.Live = map[int]int{}
		}
		n := j.Len
		if j.Depth > 0 && j.Len2 > 0 {
			n = j.Len2
		}
		for _, page := range j.Pages {
			page := page
			seqs(strings.Fields(j.Ops), n, func(ops []string) bool {
				if c.Stop() {
					return false
				}
				for _, kill := range []bool{false, true} {
					if kill && !j.Kill {
						continue
					}
					seq := ops
					if kill {
						seq = append(ops[:len(ops):len(ops)], "K")
					}
					what := fmt.Sprintf("%v%s, state %x, page size %d: %s", j.P, j.What, hashStr(im.Key(), j.Model.key()), page, strings.Join(seq, " "))
					if !c.Case(what) {
						continue
					}
					bad, end, m := j.session(im, seq, page)
					c.Count("sessions", 1)
					c.Count("transitions", len(seq)+2)
					c.Count("traces_validated_against_impl", 1)
					if bad != "" {
						c.Violation("%s\nentries at the beginning of the session: %v\n%s", what, j.Model.key(), bad)
						continue
					}
					c.Sig(j.P, j.What, len(m.Live), m.High, page, seq)
					if len(ops) == n {
						c.Sample("%s: entries afterwards %s", what, m.key())
					}
					if j.Max > 0 && j.Depth+1 >= j.Max {
						continue
					}
					b := j
					b.Image = packImage(end)
					b.Model = m
					b.Depth = j.Depth + 1
					k := hashStr(fmt.Sprint(j.P, j.Ops, j.Pages, j.Kill), end.Key(), m.key())
					c.Out.States = append(c.Out.States, StateOut{k, mkjob(c.Build, "cache", b)})
				}
				return true
			})
		}
	})
	handle("cachereal", func(c *Ctx) {
		var a cacheRealArg
		c.Arg(&a)
		a.run(c)
	})
	register(&Check{
		ID: "C14", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule: "explicit-state search: a state is the bytes of the files of a container together with the map it should represent; a transition is a session with the real container (open with one of the page sizes, a sequence of get, drop and reset operations with all buffers filled and everything compared after each, then close or a kill); from a fresh container to a fixpoint; and, on the real file system with the uninstrumented code, all sequences up to a length with reopening as an operation; distinct = states",
		Assumptions: []string{"in the instrumented part, file system and memory mapping are an in-memory model (the uninstrumented part uses the real ones)",
			"five subtree addresses stand for all"},
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(a cacheJob) { js = append(js, mkjob("inst", "cache", a)) }
			k1 := P{0, 16, 7, 1, 4, false} // two pages
			k2 := P{0, 16, 8, 1, 4, false} // three pages
			k5 := P{0, 64, 8, 1, 4, false} // ten pages
			t22 := tiny(2, 2)
			one := []int{4096}
			l, l2 := 3, 1
			if t.Thorough {
				l, l2 = 4, 3
			}
			add(cacheJob{P: t22, Ops: "G0 G1 G2 D0 D1 D2 Z", Len: l, Len2: 2, Pages: one})
			add(cacheJob{P: t22, Ops: "G0 G1 G2 D0 D1 D2 Z", Len: 2, Len2: l2, Pages: one, Kill: true})
			add(cacheJob{P: t22, Ops: "G0 G2 D0 D2 Z", Len: l + 1, Len2: 2, Gens: 2, Pages: one})
			add(cacheJob{P: t22, Ops: "G0 G1 G2 D0 D1 D2", Len: l2, Pages: []int{4096, 65536}})
			add(cacheJob{P: k1, Ops: "G0 G2 D0 D2 Z", Len: 3, Len2: l2, Pages: []int{4096, 8192}, Kill: true})
			add(cacheJob{P: k2, Ops: "G0 G1 G4 D0 D1 D4", Len: 2, Len2: l2, Pages: []int{4096, 16384}})
			add(cacheJob{P: k5, Ops: "G0 G1 G2 D0 D1 D2", Len: 2, Len2: 1, Pages: one})
			add(cacheJob{P: t22, Ops: "G0 G1 G2 G3 G4 D0 D1 D2 D3 D4", Len: 3, Len2: 1, Max: 4, Pages: one})
			for _, p := range []P{{0, 24, 4, 1, 16, false}, {2, 32, 4, 2, 16, false}, {1, 64, 4, 4, 256, false}} {
				add(cacheJob{P: p, Ops: "G0 G1 D0 D1 Z", Len: 2, Len2: l2, Pages: []int{4096, 65536}})
			}
			rl := 4
			if t.Thorough {
				rl = 6
				add(cacheJob{P: t22, Ops: "G0 G1 G2 D0 D1 D2 Z", Len: 5, Len2: 4, Gens: 2, Pages: one, Kill: true})
				add(cacheJob{P: k1, Ops: "G0 G1 G2 G3 D0 D1 D2 D3 Z", Len: 3, Len2: 2, Pages: []int{4096, 65536}, Kill: true})
				add(cacheJob{P: t22, Ops: "G0 G1 G2 G3 D0 D1 D2 D3 Z", Len: 4, Len2: 3, Pages: []int{4096}, Kill: true})
			}
			for _, p := range []P{tiny(2, 2), k1} {
				for _, f := range strings.Fields("G0 G1 G2 D0 R Z") {
					js = append(js, mkjob("plain", "cachereal", cacheRealArg{p, f, "G0 G1 G2 D0 D1 D2 R Z", rl}))
				}
			}
			return js
		},
	})
	register(&Check{
		ID: "C24", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule:        "cache files written by hand in the old format (without alignment) and in the new one with every alignment listed, with every arrangement of up to three entries and holes, are opened with every page size, used by every sequence of operations up to a length, closed, and so on to a fixpoint; and keys whose genuine cache was converted to such a format are loaded, used, closed and loaded again with every combination of page sizes, and every signature compared; distinct = states (files with the map they represent)",
		Assumptions: []string{"file system and memory mapping are an in-memory model with settable page size", "the old format is as documented in container.go (magic, number of entries, entries at multiples of 4096)"},
		Plan:        c24Plan,
	})
	handle("oldkey", oldKey)
}

// cacheRealArg: all sequences on the real file system.
type cacheRealArg struct {
	P     P
	First string
	Ops   string
	Len   int
}

func (a *cacheRealArg) run(c *Ctx) {
	dir, err := os.MkdirTemp(os.Getenv("HX_WORK"), "cache")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	params := a.P.x()
	n := 0
	seqs(strings.Fields(a.Ops), a.Len, func(ops []string) bool {
		if len(ops) > 0 && ops[0] != a.First {
			return true // (not extended: cheap enough)
		}
		if len(ops) < a.Len {
			return true // prefixes are checked along the way
		}
		if c.Stop() {
			return false
		}
		what := fmt.Sprintf("real files, %v: %s", a.P, strings.Join(ops, " "))
		if !c.Case(what) {
			return true
		}
		n++
		path := filepath.Join(dir, fmt.Sprintf("key%d", n))
		s := &cacheSess{params: params, m: cacheModel{Live: map[int]int{}}, held: map[int][]byte{}, gens: 2}
		s.size = func() int64 {
			st, err := os.Stat(path + ".cache")
			if err != nil {
				return 0
			}
			return st.Size()
		}
		s.sync = func() {}
		ctr, err2 := xmssmt.OpenFSPrivateKeyContainer(path)
		must(err2)
		must(ctr.Reset(seedBytes("ctr", 3*a.P.N), params))
		s.ctr = ctr
		reopen := func() {
			s.verify()
			if err := s.ctr.Close(); err != nil {
				s.fails("Close fails: %v", err)
			}
			s.held = map[int][]byte{}
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(path)
			if err != nil {
				s.fails("the container cannot be opened again: %v", err)
				return
			}
			s.ctr = ctr
			s.opened()
		}
		for _, o := range ops {
			if s.bad != "" {
				break
			}
			if o == "R" {
				reopen()
			} else {
				s.op(o)
			}
		}
		if s.bad == "" {
			reopen()
			s.verify()
		}
		s.ctr.Close()
		c.Count("sequences_on_real_files", 1)
		c.Count("transitions", len(ops)+1)
		c.Count("traces_validated_against_impl", 1)
		for _, x := range []string{"", ".cache", ".lock", ".tmp"} {
			os.Remove(path + x)
		}
		if s.bad != "" {
			c.Violation("%s\n%s", what, s.bad)
		}
		c.Sig(a.P, len(s.m.Live), s.m.High, ops)
		return true
	})
}

// Old formats

// cacheFmt is a format of a cache file.
type cacheFmt struct {
	V0    bool `json:",omitempty"`
	Align int
}

func (f cacheFmt) String() string {
	if f.V0 {
		return " with a cache in the old format"
	}
	return fmt.Sprintf(" with a cache aligned to %d", f.Align)
}

// entry of a cache file; Addr nil: free.
type cacheEntry struct {
	Addr *xmssmt.SubTreeAddress
	Data []byte
}

// writeCache makes a cache file.
func writeCache(f cacheFmt, size int, es []cacheEntry) []byte {
	magic, align := "5a11d7cf4a1f6314", f.Align
	if f.V0 {
		magic, align = "e77957607ef79446", 4096
	}
	if align == 0 {
		align = 4096
	}
	padded := (size + 13 + align - 1) / align * align
	out := make([]byte, align+len(es)*padded)
	m, _ := hex.DecodeString(magic)
	copy(out, m)
	binary.BigEndian.PutUint32(out[8:], uint32(len(es)))
	if !f.V0 {
		out[12] = 1
		binary.BigEndian.PutUint32(out[13:], uint32(f.Align))
	}
	for i, e := range es {
		o := align + i*padded
		if e.Addr == nil {
			// as left by dropping
			copy(out[o+13:], e.Data)
			continue
		}
		out[o] = 1
		binary.BigEndian.PutUint32(out[o+1:], e.Addr.Layer)
		binary.BigEndian.PutUint64(out[o+5:], e.Addr.Tree)
		copy(out[o+13:o+13+size], e.Data)
	}
	return out
}

func setCache(im *vfs.Image, cache []byte) *vfs.Image {
	im = im.Clone()
	for n := range im.Files {
		if strings.HasSuffix(n, ".cache") {
			im.Files[n] = cache
			return im
		}
	}
	im.Files[vfs.Dir+"/key.cache"] = cache
	return im
}

func c24Plan(t Tier) []Job {
	fmts := []cacheFmt{{true, 0}, {false, 0}, {false, 17}, {false, 100}, {false, 512}, {false, 1000}, {false, 4096},
		{false, 5000}, {false, 8192}, {false, 16384}, {false, 65536}}
	var js []Job
	pages := []int{4096, 16384, 65536}
	for _, p := range []P{tiny(2, 2), {0, 16, 7, 1, 4, false}} {
		for _, f := range fmts {
			// arrangements of three addresses and holes in up to three slots
			var rec func(slots []int)
			rec = func(slots []int) {
				seen := map[int]bool{}
				for _, a := range slots {
					if a >= 0 && seen[a] {
						return
					}
					seen[a] = true
				}
				f := f
				j := cacheJob{P: p, Fmt: &f, Slots: slots, Len: 2, Len2: 1,
					Ops: "G0 G1 G2 D0 D1 D2", Pages: pages, What: f.String()}
				if p.H > 2 {
					j.Ops = "G0 G2 D0 D2"
					j.Pages = []int{4096, 65536}
					if len(slots) == 3 {
						return
					}
				}
				if len(slots) > 1 {
					j.Len = 1
				}
				if t.Thorough {
					j.Len, j.Len2 = 3, 2
					j.Ops = "G0 G1 G2 D0 D1 D2 Z"
					j.Pages = []int{4096, 8192, 16384, 65536}
				}
				js = append(js, mkjob("inst", "cache", j))
				if len(slots) == 3 {
					return
				}
				for a := -1; a < 3; a++ {
					if p.H > 2 && a == 1 {
						continue
					}
					rec(append(slots[:len(slots):len(slots)], a))
				}
			}
			rec(nil)
		}
	}
	for _, p := range []P{tiny(2, 2), tiny(3, 3), {0, 16, 7, 1, 4, false}, {1, 32, 2, 2, 16, false}, {0, 24, 2, 2, 16, true}, tiny(4, 2)} {
		if p == tiny(4, 2) && !t.Thorough {
			continue
		}
		for _, f := range fmts {
			for _, s := range []uint64{0, 1} {
				js = append(js, mkjob("inst", "oldkey", oldKeyArg{p, f, s}))
			}
		}
	}
	return js
}

// oldKeyArg: a key whose cache is in an old format.
type oldKeyArg struct {
	P     P
	Fmt   cacheFmt
	Start uint64
}

func oldKey(c *Ctx) {
	var a oldKeyArg
	c.Arg(&a)
	f := fix(a.P, "")
	orig := f.image(a.Start, 1)
	// What is cached?
	var all []cacheEntry
	size := 0
	edited(orig, func(ctr xmssmt.PrivateKeyContainer) {
		l, err := ctr.ListSubTrees()
		must(err)
		sort.Slice(l, func(i, j int) bool {
			return l[i].Layer < l[j].Layer || l[i].Layer == l[j].Layer && l[i].Tree < l[j].Tree
		})
		for _, ad := range l {
			ad := ad
			b, _, err := ctr.GetSubTree(ad)
			must(err)
			size = len(b)
			all = append(all, cacheEntry{&ad, append([]byte(nil), b...)})
		}
	})
	junk := cachePattern(3, 0, size)
	// every subset of the entries, with and without holes
	for sub := 0; sub < 1<<uint(len(all)); sub++ {
		for hole := 0; hole < 3; hole++ {
			var es []cacheEntry
			n := 0
			for i, e := range all {
				if sub>>uint(i)&1 == 1 {
					if hole == 1 || hole == 2 && n == 0 {
						es = append(es, cacheEntry{nil, junk})
					}
					es = append(es, e)
					n++
				}
			}
			im := setCache(orig, writeCache(a.Fmt, size, es))
			pages := []int{4096, 65536}
			if a.P == tiny(2, 2) || c.Tier.Thorough {
				pages = []int{4096, 16384, 65536}
			}
			for _, p1 := range pages {
				for _, p2 := range pages {
					if c.Stop() {
						return
					}
					what := fmt.Sprintf("%v at %d+1%v, %d of %d subtrees (%b), holes %d, page sizes %d and then %d", a.P, a.Start, a.Fmt, n, len(all), sub, hole, p1, p2)
					if !c.Case(what) {
						continue
					}
					bad := oldKeyLife(f, im, n, a.Start+1, []int{p1, p2, p1}, sub == 1<<uint(len(all))-1)
					c.Count("lives_from_old_caches", 1)
					c.Count("transitions", 6)
					c.Count("traces_validated_against_impl", 1)
					if bad != "" {
						c.Violation("%s\n%s", what, bad)
					}
					c.Sig(what)
				}
			}
		}
	}
}

func oldKeyLife(f *Fix, im *vfs.Image, have int, next uint64, pages []int, full bool) (bad string) {
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	w := world(im)
	e := managed(func() {
		cached := -1
		for i, page := range pages {
			w.fs.PageSize = page
			if i == 0 {
				ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
				if err != nil {
					fails("the container cannot be opened: %v", err)
					return
				}
				l, err := ctr.ListSubTrees()
				if err != nil || len(l) != have {
					fails("%d subtrees are found instead of %d (%v)", len(l), have, err)
				}
				ctr.Close()
			}
			before, _ := w.fs.ReadRaw(w.path + ".cache")
			sk, pk, lost, err := xmssmt.LoadPrivateKey(w.path)
			if err != nil {
				fails("session %d: loading the key fails: %v", i, err)
				return
			}
			sk.Context().Threads = 1
			if m := f.pkRight(pk); m != "" {
				fails("session %d: %s", i, m)
			}
			if uint64(sk.SeqNo()) != next || lost != 0 {
				fails("session %d: the key continues with %d (%d lost) instead of %d", i, sk.SeqNo(), lost, next)
				return
			}
			n := sk.CachedSubTrees()
			if i > 0 && n != cached {
				fails("session %d: %d subtrees are cached, %d were at the end of the last session", i, n, cached)
			}
			if i == 0 && full {
				if n != have {
					fails("%d subtrees are cached after loading instead of %d", n, have)
				}
				// nothing needs to be computed anew
				after, _ := w.fs.ReadRaw(w.path + ".cache")
				if len(after) < len(before) {
					fails("the cache was rebuilt")
				}
			}
			for k := 0; k < 2 && next < f.max(); k++ {
				s, err := sk.Sign([]byte("old"))
				if err != nil {
					fails("session %d: signing fails: %v", i, err)
					return
				}
				enc, _ := s.MarshalBinary()
				if uint64(s.SeqNo()) != next {
					fails("number %d is used instead of %d", s.SeqNo(), next)
				} else if m := f.right(next, "old", enc); m != "" {
					fails("session %d: %s", i, m)
				}
				next++
			}
			cached = sk.CachedSubTrees()
			if err := sk.Close(); err != nil {
				fails("session %d: Close fails: %v", i, err)
				return
			}
		}
	})
	if e != "" {
		fails("%s", e)
	}
	if m := w.end(); m != "" {
		fails("%s", m)
	}
	return
}
