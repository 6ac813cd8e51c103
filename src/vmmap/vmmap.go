//go:build go1.21

// Package vmmap replaces github.com/edsrzf/mmap-go in the instrumented build.
package vmmap

import (
	"errors"

	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

const (
	RDONLY = 0
	RDWR   = 1 << iota
	COPY
	EXEC
)

const (
	ANON = 1 << iota
)

type MMap []byte

func Map(f *vfs.File, prot, flags int) (MMap, error) {
	return MapRegion(f, -1, prot, flags, 0)
}

func MapRegion(f *vfs.File, length int, prot, flags int, offset int64) (MMap, error) {
	if flags&ANON != 0 {
		if length <= 0 {
			return nil, errors.New("anonymous mapping requires non-zero length")
		}
		return make([]byte, length), nil
	}
	b, err := vfs.MapRegion(f, length, prot&(RDWR|COPY) == 0, prot&COPY != 0, offset)
	return MMap(b), err
}

func (m MMap) Lock() error   { return nil }
func (m MMap) Unlock() error { return nil }
func (m MMap) Flush() error  { return nil }

func (m *MMap) Unmap() error {
	err := vfs.Unmap([]byte(*m))
	*m = nil
	return err
}
