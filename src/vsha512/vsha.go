//go:build go1.21

// Package vsha512 replaces crypto/sha512 in the mock build.
package vsha512

import (
	real "crypto/sha512"
	"hash"

	"github.com/bwesterb/go-xmssmt/internal/verif/vhash"
)

const (
	Size      = real.Size
	BlockSize = real.BlockSize
)

type digest struct {
	cheap bool
	mix   vhash.Mix
	in    [264]byte
	n     int
	over  [64]byte
	nover int
	big   hash.Hash // for long inputs
}

func New() hash.Hash {
	return &digest{cheap: vhash.Cheap}
}

func (d *digest) Size() int      { return Size }
func (d *digest) BlockSize() int { return BlockSize }
func (d *digest) Reset()         { *d = digest{cheap: d.cheap} }

func (d *digest) Write(p []byte) (int, error) {
	if o, ok := vhash.Dictated(p); ok {
		d.nover = copy(d.over[:], o)
		return len(p), nil
	}
	if d.cheap {
		d.mix.Write(p)
		return len(p), nil
	}
	if d.big == nil && d.n+len(p) <= len(d.in) {
		d.n += copy(d.in[d.n:], p)
		return len(p), nil
	}
	if d.big == nil {
		d.big = real.New()
		d.big.Write(d.in[:d.n])
	}
	d.big.Write(p)
	return len(p), nil
}

func (d *digest) Sum(b []byte) []byte {
	var out [Size]byte
	switch {
	case d.nover > 0:
		copy(out[:], d.over[:d.nover])
	case d.cheap:
		d.mix.Sum(out[:])
	case d.big != nil:
		copy(out[:], d.big.Sum(nil))
	default:
		out = real.Sum512(d.in[:d.n])
	}
	vhash.Out(out[:])
	return append(b, out[:]...)
}

func Sum512(data []byte) (ret [Size]byte) {
	d := New()
	d.Write(data)
	copy(ret[:], d.Sum(nil))
	return
}
