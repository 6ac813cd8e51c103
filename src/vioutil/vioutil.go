//go:build go1.21

// Package vioutil replaces package io/ioutil in the instrumented build.
package vioutil

import (
	"io"

	"github.com/bwesterb/go-xmssmt/internal/verif/vos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)  { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser  { return io.NopCloser(r) }
func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }
func WriteFile(name string, data []byte, perm vos.FileMode) error {
	return vos.WriteFile(name, data, perm)
}
func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
