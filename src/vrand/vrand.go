//go:build go1.21

// Package vrand replaces crypto/rand in the instrumented build: a reproducible
// stream that records what was drawn and may fail.
package vrand

import (
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"io"
	"math/big"
	"sync"

	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

var (
	seed   uint64
	pos    uint64
	stream []byte // everything drawn since Reset
	gen    []byte
	mu     sync.Mutex
)

// Reset restarts the stream.
func Reset(s uint64) { seed, pos, stream, gen = s, 0, nil, nil }

// Drawn returns what was drawn since the last Reset.
func Drawn() []byte { return stream }

type reader struct{}

var Reader io.Reader = reader{}

func (reader) Read(b []byte) (int, error) {
	if vfs.Cur == nil {
		return crand.Read(b)
	}
	m := vfs.Cur.Begin("rand", "")
	mu.Lock()
	defer mu.Unlock()
	if m == vfs.FailBefore {
		return 0, errors.New("entropy source failed")
	}
	want := len(b)
	if m == vfs.Partial {
		want = len(b) / 2
	}
	for len(gen) < want {
		var c [16]byte
		binary.BigEndian.PutUint64(c[:], seed)
		binary.BigEndian.PutUint64(c[8:], pos)
		pos++
		h := sha256.Sum256(c[:])
		gen = append(gen, h[:]...)
	}
	n := copy(b[:want], gen)
	gen = gen[n:]
	stream = append(stream, b[:n]...)
	if m == vfs.FailAfter {
		return n, errors.New("entropy source failed")
	}
	if m == vfs.Partial {
		return n, errors.New("entropy source failed after some bytes")
	}
	return n, nil
}

func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }
