//go:build go1.21

package main

import (
	"bytes"
	"compress/flate"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"io"
	"sort"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/ref"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vlock"
	"github.com/bwesterb/go-xmssmt/internal/verif/vrand"
	"github.com/bwesterb/go-xmssmt/internal/verif/vruntime"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// P is the parameters of an instance in a form that is easy to pass around.
type P struct {
	F    int
	N    int
	H    int
	D    int
	W    int
	NIST bool `json:",omitempty"`
}

func (p P) x() xmssmt.Params {
	q := xmssmt.Params{Func: xmssmt.HashFunc(p.F), N: uint32(p.N), FullHeight: uint32(p.H),
		D: uint32(p.D), WotsW: uint16(p.W)}
	if p.NIST {
		q.Prf = xmssmt.NIST
	}
	return q
}

func (p P) r() ref.Params {
	return ref.Params{Func: p.F, N: p.N, H: p.H, D: p.D, W: p.W, NIST: p.NIST}
}

func (p P) String() string {
	s := fmt.Sprintf("%s-%d/%d-%d-w%d", []string{"sha2", "shake", "shake256", "?"}[p.F&3], p.H, p.D, 8*p.N, p.W)
	if p.NIST {
		s += "-nist"
	}
	return s
}

func tiny(h, d int) P { return P{0, 16, h, d, 4, false} }

// Fix is a key with known seeds.
type Fix struct {
	P                      P
	K                      *ref.Key
	SkSeed, SkPrf, PubSeed []byte
	Root                   []byte
	Pk                     []byte // marshalled public key
	Hdr                    []byte
	memo                   map[string][]byte
	images                 map[string]*vfs.Image
}

var fixes = map[string]*Fix{}

func seedBytes(tag string, n int) []byte {
	var out []byte
	for i := 0; len(out) < n; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s %d", tag, i)))
		out = append(out, h[:]...)
	}
	return out[:n:n]
}

func header(p P) []byte {
	v := uint32(0xea) << 24
	if p.NIST {
		v |= 1 << 20
	}
	v |= uint32(p.N/8-1) << 16
	v |= uint32(p.F) << 14
	v |= map[int]uint32{4: 0, 16: 1, 256: 2}[p.W] << 12
	v |= uint32(p.H) << 6
	v |= uint32(p.D)
	return binary.BigEndian.AppendUint32(nil, v)
}

// fix returns the fixture for p; key tells apart several keys with the same
// parameters.
func fix(p P, key string) *Fix {
	id := fmt.Sprint(p, key)
	if f, ok := fixes[id]; ok {
		return f
	}
	f := &Fix{P: p, memo: map[string][]byte{}, images: map[string]*vfs.Image{}}
	f.SkSeed = seedBytes(key+"skseed", p.N)
	f.SkPrf = seedBytes(key+"skprf", p.N)
	f.PubSeed = seedBytes(key+"pubseed", p.N)
	f.K = ref.NewKey(p.r(), f.SkSeed, f.SkPrf, f.PubSeed)
	f.Root = f.K.Root()
	f.Hdr = header(p)
	f.Pk = append(append(append([]byte(nil), f.Hdr...), f.Root...), f.PubSeed...)
	fixes[id] = f
	return f
}

// want is the one right signature.
func (f *Fix) want(idx uint64, msg string) []byte {
	k := fmt.Sprintf("%d %s", idx, msg)
	if s, ok := f.memo[k]; ok {
		return s
	}
	s := append(append([]byte(nil), f.Hdr...), f.K.Sign(idx, []byte(msg))...)
	f.memo[k] = s
	return s
}

func (f *Fix) max() uint64 { return 1<<uint(f.P.H) - 1 }

var lives = 0

// World is the world as seen by one process: a file system and a path.
type World struct {
	fs   *vfs.FS
	path string
}

// world starts a process in front of a disk.
func world(im *vfs.Image) *World {
	lives++
	w := &World{fs: vfs.FromImage(im), path: fmt.Sprintf("/m%d/d/key", lives)}
	w.fs.Pid = 100000 + lives
	vfs.Cur = w.fs
	vlock.Alive = map[int]bool{}
	vruntime.CPUs = 1
	vsync.TickFn = nil
	vsync.PointAtTicks = false
	vrand.Reset(1)
	return w
}

// relife makes the process a new one (after a kill) with the same disk.
func (w *World) relife() {
	lives++
	w.path = fmt.Sprintf("/m%d/d/key", lives)
	w.fs.Pid = 100000 + lives
}

func (w *World) end() string {
	m := w.fs.Dispose()
	if len(m) > 0 {
		return m[0]
	}
	return ""
}

const horizon = 60000

// managed runs f alone under the controlled scheduler, so that deadlocks and
// panics are noticed.
func managed(f func()) string {
	r := vsync.Run(nil, horizon, f)
	return r.Err()
}

func dropLock(im *vfs.Image) *vfs.Image {
	for n := range im.Files {
		if strings.HasSuffix(n, ".lock") {
			delete(im.Files, n)
		}
	}
	return im
}

func estr(err xmssmt.Error) string {
	if err == nil {
		return "ok"
	}
	return "error: " + err.Error()
}

// newKey creates the key of a fixture in a world.
func (f *Fix) derive(path string) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	ctx, err := xmssmt.NewContext(f.P.x())
	if err != nil {
		return nil, nil, err
	}
	ctx.Threads = 1
	a, b, c, wipe := f.seeds()
	defer wipe()
	return ctx.Derive(path, a, b, c)
}

// seeds are copies of the seeds to be passed to the code, and wiped after.
func (f *Fix) seeds() (pub, sk, prf []byte, wipe func()) {
	pub = append([]byte(nil), f.PubSeed...)
	sk = append([]byte(nil), f.SkSeed...)
	prf = append([]byte(nil), f.SkPrf...)
	return pub, sk, prf, func() {
		for _, b := range [][]byte{pub, sk, prf} {
			for i := range b {
				b[i] = 0xdb
			}
		}
	}
}

// image is the disk after creating the key, setting its sequence number and
// closing it.  With warm > 0, the key has made that many signatures before.
func (f *Fix) image(seq uint64, warm int) *vfs.Image {
	k := fmt.Sprint(seq, warm)
	if im, ok := f.images[k]; ok {
		return im.Clone()
	}
	w := world(nil)
	e := managed(func() {
		sk, _, err := f.derive(w.path)
		must(err)
		if sk == nil {
			panic("no key")
		}
		must(sk.Close())
		if seq > 0 {
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
			must(err)
			must(ctr.SetSeqNo(xmssmt.SignatureSeqNo(seq)))
			must(ctr.Close())
		}
		if warm > 0 {
			sk, _, _, err := xmssmt.LoadPrivateKey(w.path)
			must(err)
			for i := 0; i < warm; i++ {
				_, err := sk.Sign([]byte("warm"))
				must(err)
			}
			must(sk.Close())
		}
	})
	if e != "" {
		panic("creating a key: " + e)
	}
	im := dropLock(w.fs.Image())
	w.end()
	f.images[k] = im
	return im.Clone()
}

func must(err xmssmt.Error) {
	if err != nil {
		panic(err.Error())
	}
}

// Mon watches the signatures of a key over all its lives.
type Mon struct {
	f      *Fix
	issued map[uint64]bool
	next   uint64 // one more than the highest issued
	kept   []kept
}

type kept struct {
	sig *xmssmt.Signature
	enc []byte
}

func (f *Fix) mon() *Mon { return &Mon{f: f, issued: map[uint64]bool{}} }

func (m *Mon) clone() *Mon {
	n := &Mon{f: m.f, issued: map[uint64]bool{}, next: m.next}
	for k := range m.issued {
		n.issued[k] = true
	}
	return n
}

func (m *Mon) key() string {
	var s []int
	for k := range m.issued {
		s = append(s, int(k))
	}
	sort.Ints(s)
	return fmt.Sprint(s)
}

// sig checks a signature handed out: fresh number and the right bytes.
func (m *Mon) sig(s *xmssmt.Signature, msg string) string {
	if s == nil {
		return "Sign returned neither a signature nor an error"
	}
	idx := uint64(s.SeqNo())
	if m.issued[idx] {
		return fmt.Sprintf("sequence number %d was issued a second time", idx)
	}
	m.issued[idx] = true
	if idx+1 > m.next {
		m.next = idx + 1
	}
	enc, err := s.MarshalBinary()
	if err != nil {
		return "MarshalBinary: " + err.Error()
	}
	m.kept = append(m.kept, kept{s, enc})
	return m.f.right(idx, msg, enc)
}

func (f *Fix) right(idx uint64, msg string, enc []byte) string {
	if idx > f.max() {
		return fmt.Sprintf("sequence number %d is out of range", idx)
	}
	want := f.want(idx, msg)
	if bytes.Equal(enc, want) {
		return ""
	}
	if len(enc) != len(want) {
		return fmt.Sprintf("signature %d has %d bytes instead of %d", idx, len(enc), len(want))
	}
	ok := false
	if bytes.Equal(enc[:4], want[:4]) {
		ok, _ = ref.Verify(f.P.r(), f.Root, f.PubSeed, []byte(msg), enc[4:])
	}
	return fmt.Sprintf("signature %d on %q is not the right one (valid: %v; %s)", idx, msg, ok, diffParts(f.P, enc, want))
}

// diffParts names the parts of a signature that differ.
func diffParts(p P, a, b []byte) string {
	r := p.r()
	names := []string{}
	off := 0
	part := func(n string, l int) {
		if off+l <= len(a) && off+l <= len(b) && !bytes.Equal(a[off:off+l], b[off:off+l]) {
			names = append(names, n)
		}
		off += l
	}
	part("header", 4)
	part("index", r.IdxLen())
	part("R", p.N)
	for i := 0; i < p.D; i++ {
		part(fmt.Sprintf("wots%d", i), r.Len()*p.N)
		part(fmt.Sprintf("path%d", i), r.HT()*p.N)
	}
	return "differs in " + strings.Join(names, ", ")
}

// stable checks that earlier signatures have not changed.
func (m *Mon) stable() string {
	for _, k := range m.kept {
		enc, err := k.sig.MarshalBinary()
		if err != nil || !bytes.Equal(enc, k.enc) {
			return fmt.Sprintf("signature %d changed after it was issued", k.sig.SeqNo())
		}
	}
	return ""
}

// pkRight checks a public key.
func (f *Fix) pkRight(pk *xmssmt.PublicKey) string {
	if pk == nil {
		return "no public key"
	}
	b, err := pk.MarshalBinary()
	if err != nil {
		return "PublicKey.MarshalBinary: " + err.Error()
	}
	if !bytes.Equal(b, f.Pk) {
		return "the public key is not the right one"
	}
	return ""
}

// Images as text, for passing between processes.

func packImage(im *vfs.Image) string {
	var buf bytes.Buffer
	w, _ := flate.NewWriter(&buf, 6)
	var names []string
	for n := range im.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(w, "%s %d\n", n, len(im.Files[n]))
		w.Write(im.Files[n])
	}
	w.Close()
	return hex.EncodeToString(buf.Bytes())
}

func unpackImage(s string) *vfs.Image {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	d, err := io.ReadAll(flate.NewReader(bytes.NewReader(b)))
	if err != nil {
		panic(err)
	}
	im := &vfs.Image{Files: map[string][]byte{}}
	for len(d) > 0 {
		i := bytes.IndexByte(d, '\n')
		var n string
		var l int
		fmt.Sscan(string(d[:i]), &n, &l)
		d = d[i+1:]
		im.Files[n] = append([]byte(nil), d[:l]...)
		d = d[l:]
	}
	return im
}

func hashStr(parts ...string) uint64 {
	h := fnv.New64a()
	for _, s := range parts {
		io.WriteString(h, s)
		h.Write([]byte{0})
	}
	return h.Sum64()
}

func hexs(b []byte) string { return hex.EncodeToString(b) }
