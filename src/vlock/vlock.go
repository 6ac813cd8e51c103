//go:build go1.21

// Package vlock replaces github.com/nightlyone/lockfile in the instrumented
// build.  It has the same observable behaviour: a lock file with the pid of
// its owner, which the same process may take again and which is taken over
// from dead processes.
package vlock

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"syscall"

	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

type Lockfile string

type TemporaryError string

func (t TemporaryError) Error() string   { return string(t) }
func (t TemporaryError) Temporary() bool { return true }

var (
	ErrBusy          = TemporaryError("Locked by other process")
	ErrNotExist      = TemporaryError("Lockfile created, but doesn't exist")
	ErrNeedAbsPath   = errors.New("Lockfiles must be given as absolute path names")
	ErrInvalidPid    = errors.New("Lockfile contains invalid pid for system")
	ErrDeadOwner     = errors.New("Lockfile contains pid of process not existent on this system anymore")
	ErrRogueDeletion = errors.New("Lockfile owned by me has been removed unexpectedly")
)

// Alive lists the pids of other living processes.
var Alive = map[int]bool{}

func New(path string) (Lockfile, error) {
	if !filepath.IsAbs(path) {
		return Lockfile(""), ErrNeedAbsPath
	}
	return Lockfile(path), nil
}

func (l Lockfile) owner(fs *vfs.FS) (int, bool) {
	b, ok := fs.ReadRaw(string(l))
	if !ok {
		return 0, false
	}
	pid := 0
	fmt.Sscanln(string(b), &pid)
	return pid, true
}

func (l Lockfile) GetOwner() (*os.Process, error) {
	fs := vfs.Cur
	pid, ok := l.owner(fs)
	if !ok {
		return nil, &os.PathError{Op: "open", Path: string(l), Err: syscall.ENOENT}
	}
	if pid <= 0 {
		return nil, ErrInvalidPid
	}
	if pid == fs.GetPid() || Alive[pid] {
		return &os.Process{Pid: pid}, nil
	}
	return nil, ErrDeadOwner
}

func (l Lockfile) TryLock() error {
	fs := vfs.Cur
	m := fs.Begin("lock", string(l))
	if m == vfs.FailBefore || m == vfs.Partial {
		return &os.LinkError{Op: "link", Old: string(l) + ".x", New: string(l), Err: syscall.EACCES}
	}
	pid, ok := l.owner(fs)
	if ok && pid > 0 && pid != fs.GetPid() && Alive[pid] {
		return ErrBusy
	}
	fs.WriteRaw(string(l), []byte(fmt.Sprintf("%d\n", fs.GetPid())))
	if m == vfs.FailAfter {
		return &os.PathError{Op: "lstat", Path: string(l), Err: syscall.EIO}
	}
	return nil
}

func (l Lockfile) Unlock() error {
	fs := vfs.Cur
	m := fs.Begin("unlock", string(l))
	if m == vfs.FailBefore || m == vfs.Partial {
		return &os.PathError{Op: "open", Path: string(l), Err: syscall.EIO}
	}
	pid, ok := l.owner(fs)
	if !ok || pid != fs.GetPid() {
		return ErrRogueDeletion
	}
	fs.RemoveRaw(string(l))
	if m == vfs.FailAfter {
		return &os.PathError{Op: "remove", Path: string(l), Err: syscall.EIO}
	}
	return nil
}
