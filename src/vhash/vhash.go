//go:build go1.21

// Package vhash controls the hash functions of the "mock" build: the digest of
// chosen messages can be dictated, and SHA-2 can be replaced by a cheap
// function.  Everything else about the code under test stays the same.
package vhash

import "encoding/binary"

// Cheap makes the mock SHA-256 and SHA-512 use a cheap function.
var Cheap bool

// From and To: a digest that begins with From is replaced by To.
var From, To []byte

// Swapped counts the replacements.
var Swapped int

// Out is called with every digest before it is handed out.
func Out(d []byte) {
	if From == nil || len(d) < len(From) {
		return
	}
	for i, b := range From {
		if d[i] != b {
			return
		}
	}
	copy(d, To)
	Swapped++
}

// Magic starts a message whose digest is dictated: the rest of the message.
const Magic = "\x93VERIF-DIGEST\x00\xfe\x01"

// Dictated tells whether p, something written to a hash, dictates its digest.
func Dictated(p []byte) ([]byte, bool) {
	if len(p) <= len(Magic) || p[0] != Magic[0] || string(p[:len(Magic)]) != Magic {
		return nil, false
	}
	return p[len(Magic):], true
}

// Mix is a cheap function of its input, which must have at most 512 bytes.
type Mix struct {
	h   [4]uint64
	buf [8]byte
	nb  int
	n   uint64
}

const k0, k1 = 0x9e3779b97f4a7c15, 0xd6e8feb86659fd93

func (m *Mix) Reset() { *m = Mix{} }

func (m *Mix) word(w uint64) {
	i := m.n & 3
	m.n++
	x := (m.h[i] ^ w) * k0
	x ^= x >> 29
	m.h[i] = x + m.n*k1
}

func (m *Mix) Write(p []byte) {
	for m.nb != 0 && len(p) > 0 {
		m.buf[m.nb] = p[0]
		p = p[1:]
		m.nb++
		if m.nb == 8 {
			m.word(binary.LittleEndian.Uint64(m.buf[:]))
			m.nb = 0
		}
	}
	for len(p) >= 8 {
		m.word(binary.LittleEndian.Uint64(p))
		p = p[8:]
	}
	m.nb += copy(m.buf[m.nb:], p)
}

// Sum fills out, a multiple of 8 bytes; m is not changed.
func (m *Mix) Sum(out []byte) {
	f := *m
	for i := f.nb; i < 8; i++ {
		f.buf[i] = 0x80
	}
	f.word(binary.LittleEndian.Uint64(f.buf[:]) ^ uint64(f.nb)<<56)
	for r := 0; r < 2; r++ {
		for i := range f.h {
			x := (f.h[i] + f.h[(i+1)&3]) * k1
			x ^= x>>32 ^ f.n
			f.h[i] = x
		}
	}
	for i := 0; i*8 < len(out); i++ {
		x := f.h[i&3] + uint64(i)*k0
		x = (x ^ x>>31) * k1
		x ^= x >> 30
		binary.LittleEndian.PutUint64(out[i*8:], x)
	}
}

// MixSum is the cheap function.
func MixSum(n int, parts ...[]byte) []byte {
	var m Mix
	for _, p := range parts {
		m.Write(p)
	}
	out := make([]byte, n)
	m.Sum(out)
	return out
}
