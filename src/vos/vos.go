//go:build go1.21

// Package vos replaces package os in the instrumented build.
package vos

import (
	"fmt"
	"io"
	gofs "io/fs"
	"os"
	"sync/atomic"

	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

type (
	File         = vfs.File
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
	Process      = os.Process
	DirEntry     = os.DirEntry
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir       = os.ModeDir
	ModePerm      = os.ModePerm
	PathSeparator = os.PathSeparator
	SEEK_SET      = 0
	SEEK_CUR      = 1
	SEEK_END      = 2
	DevNull       = os.DevNull
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	Stdin               = os.Stdin
	Stdout              = os.Stdout
	Stderr              = os.Stderr
	Args                = os.Args
)

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	return vfs.OpenFile(name, flag, perm)
}
func Open(name string) (*File, error) { return vfs.OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return vfs.OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666)
}
func Stat(name string) (FileInfo, error)  { return vfs.Stat(name) }
func Lstat(name string) (FileInfo, error) { return vfs.Stat(name) }
func SameFile(a, b FileInfo) bool         { return vfs.SameFile(a, b) }
func Rename(a, b string) error            { return vfs.Rename(a, b) }
func Link(a, b string) error              { return vfs.Link(a, b) }
func Remove(name string) error            { return vfs.Remove(name) }
func RemoveAll(name string) error {
	err := vfs.Remove(name)
	if os.IsNotExist(err) {
		return nil
	}
	return err
}
func Truncate(name string, n int64) error       { return vfs.Truncate(name, n) }
func Chmod(name string, m FileMode) error       { return vfs.Chmod(name, m) }
func Mkdir(name string, m FileMode) error       { return nil }
func MkdirAll(name string, m FileMode) error    { return nil }
func IsNotExist(err error) bool                 { return os.IsNotExist(err) }
func IsExist(err error) bool                    { return os.IsExist(err) }
func IsPermission(err error) bool               { return os.IsPermission(err) }
func IsTimeout(err error) bool                  { return os.IsTimeout(err) }
func Getenv(k string) string                    { return os.Getenv(k) }
func LookupEnv(k string) (string, bool)         { return os.LookupEnv(k) }
func Hostname() (string, error)                 { return os.Hostname() }
func Getwd() (string, error)                    { return vfs.Dir, nil }
func TempDir() string                           { return vfs.Dir }
func Exit(code int)                             { panic(fmt.Sprintf("os.Exit(%d)", code)) }
func FindProcess(pid int) (*Process, error)     { return os.FindProcess(pid) }
func NewSyscallError(s string, err error) error { return os.NewSyscallError(s, err) }
func DirFS(dir string) gofs.FS                  { return os.DirFS(dir) }

func Getpid() int {
	if vfs.Cur != nil {
		return vfs.Cur.GetPid()
	}
	return os.Getpid()
}

func Getpagesize() int {
	if vfs.Cur != nil {
		return vfs.Cur.PageSize
	}
	return os.Getpagesize()
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

var tmpCounter int64

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = vfs.Dir
	}
	for {
		c := atomic.AddInt64(&tmpCounter, 1)
		n := ""
		star := false
		for _, r := range pattern {
			if r == '*' && !star {
				n += fmt.Sprint(c)
				star = true
			} else {
				n += string(r)
			}
		}
		if !star {
			n += fmt.Sprint(c)
		}
		f, err := OpenFile(dir+"/"+n, O_RDWR|O_CREATE|O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}
