//go:build go1.21

// Package vsha3 replaces golang.org/x/crypto/sha3 in the mock build.
package vsha3

import (
	"hash"

	real "golang.org/x/crypto/sha3"

	"github.com/bwesterb/go-xmssmt/internal/verif/vhash"
)

type ShakeHash = real.ShakeHash

type shake struct {
	real.ShakeHash
	over []byte
}

func NewShake128() ShakeHash { return &shake{ShakeHash: real.NewShake128()} }
func NewShake256() ShakeHash { return &shake{ShakeHash: real.NewShake256()} }

func New256() hash.Hash               { return real.New256() }
func New512() hash.Hash               { return real.New512() }
func ShakeSum128(hash, data []byte)   { s := NewShake128(); s.Write(data); s.Read(hash) }
func ShakeSum256(hash, data []byte)   { s := NewShake256(); s.Write(data); s.Read(hash) }
func Sum256(data []byte) (r [32]byte) { return real.Sum256(data) }
func Sum512(data []byte) (r [64]byte) { return real.Sum512(data) }

func (s *shake) Write(p []byte) (int, error) {
	if o, ok := vhash.Dictated(p); ok {
		s.over = append([]byte(nil), o...)
		return len(p), nil
	}
	return s.ShakeHash.Write(p)
}

func (s *shake) Read(p []byte) (int, error) {
	if s.over != nil {
		n := copy(p, s.over)
		s.over = s.over[n:]
		return n, nil
	}
	n, err := s.ShakeHash.Read(p)
	vhash.Out(p[:n])
	return n, err
}

func (s *shake) Reset() {
	s.over = nil
	s.ShakeHash.Reset()
}

func (s *shake) Clone() ShakeHash {
	return &shake{s.ShakeHash.Clone(), append([]byte(nil), s.over...)}
}
