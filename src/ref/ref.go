//go:build go1.21

// Package ref is a plain transcription of RFC 8391 and NIST SP 800-208,
// independent of the package under test.
package ref

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha3"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"io"
)

const (
	SHA2     = 0
	SHAKE    = 1
	SHAKE256 = 2
)

type Params struct {
	Func int // hash function
	N    int
	H    int // full height
	D    int
	W    int
	NIST bool // SP 800-208 prefixes
}

func (p Params) logW() int {
	switch p.W {
	case 4:
		return 2
	case 16:
		return 4
	case 256:
		return 8
	}
	panic("w")
}
func (p Params) Len1() int { return (8*p.N + p.logW() - 1) / p.logW() }

// Len2 is floor(log2(len1*(w-1))/log2(w)) + 1
func (p Params) Len2() int {
	max := p.Len1() * (p.W - 1)
	n := 0
	for max > 0 {
		max /= p.W
		n++
	}
	return n
}
func (p Params) Len() int { return p.Len1() + p.Len2() }
func (p Params) HT() int  { return p.H / p.D }
func (p Params) IdxLen() int {
	if p.D == 1 {
		return 4
	}
	return (p.H + 7) / 8
}
func (p Params) SigSize() int { return p.IdxLen() + p.N + p.D*p.Len()*p.N + p.H*p.N }

// HashFn, if set, replaces SHA-2.
var HashFn func(n int, parts ...[]byte) []byte

// MsgDigest, if set, may dictate the hash of a message.
var MsgDigest func(msg []byte) ([]byte, bool)

// MsgFrom, if set, may give the message that msg stands for.
var MsgFrom func(msg []byte) io.Reader

// hashFrom hashes the parts and what r gives.
func (p Params) hashFrom(r io.Reader, parts ...[]byte) []byte {
	var h io.Writer
	out := make([]byte, p.N)
	var sum func()
	switch {
	case p.Func == SHA2 && p.N == 64:
		x := sha512.New()
		h, sum = x, func() { copy(out, x.Sum(nil)) }
	case p.Func == SHA2:
		x := sha256.New()
		h, sum = x, func() { copy(out, x.Sum(nil)) }
	case p.Func == SHAKE && p.N != 64:
		x := sha3.NewSHAKE128()
		h, sum = x, func() { x.Read(out) }
	default:
		x := sha3.NewSHAKE256()
		h, sum = x, func() { x.Read(out) }
	}
	for _, q := range parts {
		h.Write(q)
	}
	buf := make([]byte, 1<<16)
	for {
		n, err := r.Read(buf)
		h.Write(buf[:n])
		if err == io.EOF {
			break
		}
		if err != nil {
			panic(err)
		}
	}
	sum()
	return out
}

func (p Params) hash(parts ...[]byte) []byte {
	if HashFn != nil && p.Func == SHA2 {
		if p.N == 64 {
			return HashFn(64, parts...)
		}
		return HashFn(32, parts...)[:p.N:p.N]
	}
	var in []byte
	for _, q := range parts {
		in = append(in, q...)
	}
	switch p.Func {
	case SHA2:
		if p.N == 64 {
			h := sha512.Sum512(in)
			return h[:64]
		}
		h := sha256.Sum256(in)
		return h[:p.N:p.N]
	case SHAKE:
		if p.N == 64 {
			return sha3.SumSHAKE256(in, p.N)
		}
		return sha3.SumSHAKE128(in, p.N)
	case SHAKE256:
		return sha3.SumSHAKE256(in, p.N)
	}
	panic("func")
}

func toByte(x uint64, n int) []byte {
	r := make([]byte, n)
	for i := n - 1; i >= 0 && x > 0; i-- {
		r[i] = byte(x)
		x >>= 8
	}
	return r
}

func (p Params) prefix(x uint64) []byte {
	if p.NIST {
		return toByte(x, 4)
	}
	return toByte(x, p.N)
}

// Address words as in RFC 8391, section 2.5.
type adrs [8]uint32

func (a adrs) bytes() []byte {
	r := make([]byte, 32)
	for i, w := range a {
		binary.BigEndian.PutUint32(r[4*i:], w)
	}
	return r
}

func treeAdrs(layer int, tree uint64, typ uint32) (a adrs) {
	a[0] = uint32(layer)
	a[1] = uint32(tree >> 32)
	a[2] = uint32(tree)
	a[3] = typ
	return
}

func (p Params) prf(key, m []byte) []byte { return p.hash(p.prefix(3), key, m) }

func xor(a, b []byte) []byte {
	r := make([]byte, len(a))
	for i := range a {
		r[i] = a[i] ^ b[i]
	}
	return r
}

func (p Params) f(seed []byte, a adrs, m []byte) []byte {
	a[7] = 0
	key := p.prf(seed, a.bytes())
	a[7] = 1
	bm := p.prf(seed, a.bytes())
	return p.hash(p.prefix(0), key, xor(m, bm))
}

func (p Params) randHash(seed []byte, a adrs, l, r []byte) []byte {
	a[7] = 0
	key := p.prf(seed, a.bytes())
	a[7] = 1
	b0 := p.prf(seed, a.bytes())
	a[7] = 2
	b1 := p.prf(seed, a.bytes())
	return p.hash(p.prefix(1), key, xor(l, b0), xor(r, b1))
}

func (p Params) chain(seed []byte, a adrs, x []byte, start, steps int) []byte {
	for i := start; i < start+steps; i++ {
		a[6] = uint32(i)
		x = p.f(seed, a, x)
	}
	return x
}

// Digits returns the chain positions for an n-byte message: message digits
// followed by checksum digits.
func (p Params) Digits(m []byte) []int {
	var d []int
	lw := p.logW()
	for _, b := range m {
		for s := 8 - lw; s >= 0; s -= lw {
			d = append(d, int(b>>uint(s))&(p.W-1))
		}
	}
	c := 0
	for _, x := range d {
		c += p.W - 1 - x
	}
	cs := make([]int, p.Len2())
	for i := len(cs) - 1; i >= 0; i-- {
		cs[i] = c % p.W
		c /= p.W
	}
	return append(d, cs...)
}

func (p Params) ltree(seed []byte, a adrs, pk [][]byte) []byte {
	pk = append([][]byte(nil), pk...)
	h := uint32(0)
	for len(pk) > 1 {
		a[5] = h
		var nx [][]byte
		for i := 0; i+1 < len(pk); i += 2 {
			a[6] = uint32(i / 2)
			nx = append(nx, p.randHash(seed, a, pk[i], pk[i+1]))
		}
		if len(pk)%2 == 1 {
			nx = append(nx, pk[len(pk)-1])
		}
		pk = nx
		h++
	}
	return pk[0]
}

type treeID struct {
	layer int
	tree  uint64
}

// Key is a private key.
type Key struct {
	P                      Params
	SkSeed, SkPrf, PubSeed []byte
	trees                  map[treeID][][][]byte
	wots                   map[[2]interface{}][]byte
}

func NewKey(p Params, skSeed, skPrf, pubSeed []byte) *Key {
	return &Key{P: p, SkSeed: skSeed, SkPrf: skPrf, PubSeed: pubSeed,
		trees: map[treeID][][][]byte{}}
}

func (k *Key) wotsSk(a adrs, i int) []byte {
	a[5] = uint32(i)
	a[6], a[7] = 0, 0
	return k.P.hash(k.P.prefix(4), k.SkSeed, k.PubSeed, a.bytes())
}

func (k *Key) wotsSign(layer int, tree uint64, leaf uint32, m []byte) []byte {
	a := treeAdrs(layer, tree, 0)
	a[4] = leaf
	var out []byte
	for i, d := range k.P.Digits(m) {
		a[5] = uint32(i)
		out = append(out, k.P.chain(k.PubSeed, a, k.wotsSk(a, i), 0, d)...)
	}
	return out
}

func (k *Key) tree(layer int, tree uint64) [][][]byte {
	id := treeID{layer, tree}
	if t, ok := k.trees[id]; ok {
		return t
	}
	p := k.P
	var lv [][]byte
	for leaf := uint32(0); leaf < 1<<uint(p.HT()); leaf++ {
		a := treeAdrs(layer, tree, 0)
		a[4] = leaf
		var pk [][]byte
		for i := 0; i < p.Len(); i++ {
			a[5] = uint32(i)
			pk = append(pk, p.chain(k.PubSeed, a, k.wotsSk(a, i), 0, p.W-1))
		}
		l := treeAdrs(layer, tree, 1)
		l[4] = leaf
		lv = append(lv, p.ltree(k.PubSeed, l, pk))
	}
	t := [][][]byte{lv}
	for h := 0; h < p.HT(); h++ {
		var nx [][]byte
		a := treeAdrs(layer, tree, 2)
		a[5] = uint32(h)
		for i := 0; i < len(lv); i += 2 {
			a[6] = uint32(i / 2)
			nx = append(nx, p.randHash(k.PubSeed, a, lv[i], lv[i+1]))
		}
		t = append(t, nx)
		lv = nx
	}
	k.trees[id] = t
	return t
}

// TreeNodes returns the nodes of a subtree, leaves first.
func (k *Key) TreeNodes(layer int, tree uint64) []byte {
	var out []byte
	for _, l := range k.tree(layer, tree) {
		for _, n := range l {
			out = append(out, n...)
		}
	}
	return out
}

func (k *Key) Root() []byte { return k.tree(k.P.D-1, 0)[k.P.HT()][0] }

func split(p Params, idx uint64, layer int) (tree uint64, leaf uint32) {
	s := uint(p.HT() * layer)
	leaf = uint32(idx>>s) & (1<<uint(p.HT()) - 1)
	s += uint(p.HT())
	if s >= 64 {
		return 0, leaf
	}
	return idx >> s, leaf
}

func (p Params) msgHash(r, root []byte, idx uint64, msg []byte) []byte {
	if MsgDigest != nil {
		if d, ok := MsgDigest(msg); ok {
			return d[:p.N:p.N]
		}
	}
	if MsgFrom != nil {
		if rd := MsgFrom(msg); rd != nil {
			return p.hashFrom(rd, p.prefix(2), r, root, toByte(idx, p.N))
		}
	}
	return p.hash(p.prefix(2), r, root, toByte(idx, p.N), msg)
}

// Sign returns the signature in the format of the RFC.
func (k *Key) Sign(idx uint64, msg []byte) []byte {
	p := k.P
	r := p.prf(k.SkPrf, toByte(idx, 32))
	m := p.msgHash(r, k.Root(), idx, msg)
	out := append(toByte(idx, p.IdxLen()), r...)
	for layer := 0; layer < p.D; layer++ {
		tree, leaf := split(p, idx, layer)
		out = append(out, k.wotsSign(layer, tree, leaf, m)...)
		t := k.tree(layer, tree)
		n := leaf
		for h := 0; h < p.HT(); h++ {
			out = append(out, t[h][n^1]...)
			n >>= 1
		}
		m = t[p.HT()][0]
	}
	return out
}

// Signed is what a one-time key signed.
type Signed struct {
	Layer int
	Tree  uint64
	Leaf  uint32
	Value []byte
}

// Verify is the RFC's verification; it also returns which one-time keys
// signed what.
func Verify(p Params, root, pubSeed, msg, sig []byte) (bool, []Signed) {
	if len(sig) != p.SigSize() {
		return false, nil
	}
	var idx uint64
	for _, b := range sig[:p.IdxLen()] {
		idx = idx<<8 | uint64(b)
	}
	if p.H < 64 && idx >= 1<<uint(p.H) {
		return false, nil
	}
	sig = sig[p.IdxLen():]
	r := sig[:p.N]
	sig = sig[p.N:]
	m := p.msgHash(r, root, idx, msg)
	var ret []Signed
	for layer := 0; layer < p.D; layer++ {
		tree, leaf := split(p, idx, layer)
		ret = append(ret, Signed{layer, tree, leaf, m})
		a := treeAdrs(layer, tree, 0)
		a[4] = leaf
		var pk [][]byte
		for i, d := range p.Digits(m) {
			a[5] = uint32(i)
			pk = append(pk, p.chain(pubSeed, a, sig[:p.N], d, p.W-1-d))
			sig = sig[p.N:]
		}
		l := treeAdrs(layer, tree, 1)
		l[4] = leaf
		node := p.ltree(pubSeed, l, pk)
		na := treeAdrs(layer, tree, 2)
		n := leaf
		for h := 0; h < p.HT(); h++ {
			na[5] = uint32(h)
			na[6] = n >> 1
			if n&1 == 0 {
				node = p.randHash(pubSeed, na, node, sig[:p.N])
			} else {
				node = p.randHash(pubSeed, na, sig[:p.N], node)
			}
			sig = sig[p.N:]
			n >>= 1
		}
		m = node
	}
	return bytes.Equal(m, root), ret
}

// Judge checks a signature on msg without computing whole trees: it is valid
// for the given root, its randomizer is right and on every layer the one-time
// signature is made with the secret keys of that very leaf.
func (k *Key) Judge(root []byte, idx uint64, msg, sig []byte) string {
	p := k.P
	ok, signed := Verify(p, root, k.PubSeed, msg, sig)
	if !ok {
		return "is not valid according to the RFC"
	}
	if !bytes.Equal(sig[:p.IdxLen()], toByte(idx, p.IdxLen())) {
		return "has another sequence number"
	}
	sig = sig[p.IdxLen():]
	if !bytes.Equal(sig[:p.N], p.prf(k.SkPrf, toByte(idx, 32))) {
		return "has another randomizer"
	}
	sig = sig[p.N:]
	for _, s := range signed {
		w := k.wotsSign(s.Layer, s.Tree, s.Leaf, s.Value)
		if !bytes.Equal(sig[:len(w)], w) {
			return fmt.Sprintf("uses other secret keys on layer %d (leaf %d of tree %d)", s.Layer, s.Leaf, s.Tree)
		}
		sig = sig[len(w)+p.HT()*p.N:]
	}
	return ""
}

// Chains returns, for a one-time key, the values on every chain.
func (k *Key) Chains(layer int, tree uint64, leaf uint32) [][][]byte {
	a := treeAdrs(layer, tree, 0)
	a[4] = leaf
	var out [][][]byte
	for i := 0; i < k.P.Len(); i++ {
		a[5] = uint32(i)
		x := k.wotsSk(a, i)
		c := [][]byte{x}
		for j := 0; j+1 < k.P.W; j++ {
			x = k.P.chain(k.PubSeed, a, x, j, 1)
			c = append(c, x)
		}
		out = append(out, c)
	}
	return out
}

// Undigits is the message with the given digits.
func (p Params) Undigits(d []int) []byte {
	out := make([]byte, p.N)
	lw := p.logW()
	per := 8 / lw
	for i, x := range d {
		out[i/per] |= byte(x << uint(8-lw*(i%per+1)))
	}
	return out
}
