//go:build go1.21

// Package vfs is a small in-memory file system with fault injection, crash
// images and a power-loss model.  The packages vos, vmmap, vlock and vrand
// give it the interfaces of the packages they replace.
package vfs

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// What to do with an operation.
type Mode int

const (
	OK         Mode = iota
	FailBefore      // error, no effect
	Partial         // half of the effect, then an error
	FailAfter       // full effect, but an error is reported
)

func (m Mode) String() string {
	return [...]string{"ok", "fail-before", "partial", "fail-after"}[m]
}

// Op is one operation on the file system (or the random source).
type Op struct {
	N    int
	Kind string
	Path string
}

func (o Op) String() string { return fmt.Sprintf("#%d %s(%s)", o.N, o.Kind, o.Path) }

type Inode struct {
	id     int
	data   []byte
	dir    bool
	perm   os.FileMode
	synced []byte // contents as of the last fsync
	ever   bool   // ever fsynced (or part of the initial image)
	maps   []*Mapping
}

type dirOp struct {
	kind     string // link, unlink, rename
	old, new string
	ino      *Inode
}

type FS struct {
	mu      sync.Mutex
	names   map[string]*Inode
	durable map[string]*Inode
	pending []dirOp
	dir     *Inode
	nextID  int

	Pid      int
	PidOf    func() int // if set, tells the process that is running
	PageSize int
	Guard    bool // use real memory protection for mappings

	nops    int
	Log     []Op
	KeepLog bool
	Fault   func(Op) Mode // decides about faults

	// OnChange, if set, is called (without locks) whenever the contents of
	// the file system have changed.
	OnChange func()
	inChange bool

	mappings []*Mapping // all ever made
	live     []*Mapping // live
	// Wrong uses noticed
	Misuse    []string
	OpenFiles int
}

// Cur is the file system in use; nil for the real one.
var Cur *FS

// Dir is the directory in which everything happens.
const Dir = "/d"

// Image is the contents of the file system after a crash.
type Image struct {
	Files map[string][]byte
	Desc  string
}

func New() *FS { return FromImage(nil) }

func FromImage(im *Image) *FS {
	fs := &FS{names: map[string]*Inode{}, durable: map[string]*Inode{}, PageSize: 4096, Pid: 1000}
	fs.dir = &Inode{dir: true}
	if im != nil {
		names := make([]string, 0, len(im.Files))
		for n := range im.Files {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			d := append([]byte(nil), im.Files[n]...)
			ino := fs.newInode()
			ino.data = d
			ino.synced = append([]byte(nil), d...)
			ino.ever = true
			fs.names[n] = ino
			fs.durable[n] = ino
		}
	}
	fs.Guard = !vsync.RaceEnabled
	return fs
}

func (fs *FS) newInode() *Inode {
	fs.nextID++
	return &Inode{id: fs.nextID, perm: 0600}
}

// Clean maps /m12/d/x to /d/x.
func Clean(path string) string {
	path = filepath.Clean(path)
	if len(path) > 2 && path[0] == '/' && path[1] == 'm' {
		i := 2
		for i < len(path) && path[i] >= '0' && path[i] <= '9' {
			i++
		}
		if i > 2 && i < len(path) && path[i] == '/' {
			return path[i:]
		}
	}
	return path
}

var errIO = syscall.EIO

// Begin counts an operation and decides about its fault.
func (fs *FS) Begin(kind, path string) Mode {
	fs.mu.Lock()
	o := Op{N: fs.nops, Kind: kind, Path: Clean(path)}
	fs.nops++
	if fs.KeepLog {
		fs.Log = append(fs.Log, o)
	}
	f := fs.Fault
	fs.mu.Unlock()
	if f != nil {
		return f(o)
	}
	return OK
}

// GetPid returns the pid of the running process.
func (fs *FS) GetPid() int {
	if fs.PidOf != nil {
		return fs.PidOf()
	}
	return fs.Pid
}

func (fs *FS) NOps() int { return fs.nops }

func (fs *FS) changed() {
	if fs.OnChange == nil || fs.inChange {
		return
	}
	fs.inChange = true
	fs.OnChange()
	fs.inChange = false
}

// Tick notices changes made through mappings.
func (fs *FS) Tick() {
	if fs.OnChange == nil || fs.inChange {
		return
	}
	ch := false
	for _, m := range fs.live {
		if m.dirty() {
			m.flush()
			ch = true
		}
	}
	if ch {
		fs.changed()
	}
}

func perr(op, path string, err error) error {
	return &os.PathError{Op: op, Path: path, Err: err}
}

// Files

type File struct {
	fs     *FS
	ino    *Inode
	name   string
	pos    int64
	flag   int
	closed bool
	rdone  bool
}

func (fs *FS) isDir(p string) bool { return p == Dir || p == "/" }

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	fs := Cur
	m := fs.Begin("open", name)
	if m == FailBefore || m == Partial {
		return nil, perr("open", name, errIO)
	}
	p := Clean(name)
	fs.mu.Lock()
	if fs.isDir(p) {
		if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			fs.mu.Unlock()
			return nil, perr("open", name, syscall.EISDIR)
		}
		fs.mu.Unlock()
		if m != OK {
			return nil, perr("open", name, errIO)
		}
		return &File{fs: fs, ino: fs.dir, name: name, flag: flag}, nil
	}
	if filepath.Dir(p) != Dir {
		fs.mu.Unlock()
		return nil, perr("open", name, syscall.ENOENT)
	}
	ino := fs.names[p]
	ch := false
	switch {
	case ino == nil && flag&os.O_CREATE == 0:
		fs.mu.Unlock()
		return nil, perr("open", name, syscall.ENOENT)
	case ino == nil:
		ino = fs.newInode()
		ino.perm = perm & os.ModePerm &^ Umask
		fs.names[p] = ino
		fs.pending = append(fs.pending, dirOp{kind: "link", new: p, ino: ino})
		ch = true
	case flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0:
		fs.mu.Unlock()
		return nil, perr("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 && len(ino.data) > 0 {
		ino.resize(0)
		ch = true
	}
	fs.mu.Unlock()
	if ch {
		fs.changed()
	}
	if m == FailAfter {
		return nil, perr("open", name, errIO)
	}
	fs.mu.Lock()
	fs.OpenFiles++
	fs.mu.Unlock()
	return &File{fs: fs, ino: ino, name: name, flag: flag}, nil
}

func (ino *Inode) resize(n int) {
	if n <= len(ino.data) {
		ino.data = ino.data[:n:n]
	} else {
		d := make([]byte, n)
		copy(d, ino.data)
		ino.data = d
	}
	for _, m := range ino.maps {
		m.resized()
	}
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(1<<20 + f.ino.id) }

func (f *File) flushMaps() {
	if vsync.RaceEnabled {
		return
	}
	for _, m := range f.ino.maps {
		m.flush()
	}
}

func (f *File) Read(b []byte) (int, error) {
	n, err := f.readAt("read", b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	n, err := f.readAt("read", b, off)
	if err == nil && n < len(b) {
		err = io.EOF
	}
	return n, err
}

func (f *File) readAt(op string, b []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr(op, f.name, os.ErrClosed)
	}
	m := f.fs.Begin("read", f.name)
	if m == FailBefore || m == FailAfter {
		return 0, perr(op, f.name, errIO)
	}
	if f.ino.dir {
		return 0, perr(op, f.name, syscall.EISDIR)
	}
	f.fs.mu.Lock()
	defer f.fs.mu.Unlock()
	f.flushMaps()
	if len(b) == 0 {
		return 0, nil
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	if m == Partial {
		b = b[:(len(b)+1)/2]
	}
	n := copy(b, f.ino.data[off:])
	return n, nil
}

func (f *File) Write(b []byte) (int, error) {
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.ino.data))
	}
	n, err := f.writeAt(b, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) { return f.writeAt(b, off) }

func (f *File) writeAt(b []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	m := f.fs.Begin("write", f.name)
	if m == FailBefore {
		return 0, perr("write", f.name, syscall.ENOSPC)
	}
	if m == Partial {
		b = b[:len(b)/2]
	}
	f.fs.mu.Lock()
	f.flushMaps()
	if end := off + int64(len(b)); end > int64(len(f.ino.data)) {
		f.ino.resize(int(end))
	}
	copy(f.ino.data[off:], b)
	for _, mp := range f.ino.maps {
		mp.reload()
	}
	f.fs.mu.Unlock()
	f.fs.changed()
	if m == Partial {
		return len(b), perr("write", f.name, syscall.ENOSPC)
	}
	if m == FailAfter {
		return 0, perr("write", f.name, errIO)
	}
	return len(b), nil
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.closed {
		return 0, perr("seek", f.name, os.ErrClosed)
	}
	if f.fs.Begin("seek", f.name) != OK {
		return 0, perr("seek", f.name, errIO)
	}
	switch whence {
	case 1:
		off += f.pos
	case 2:
		off += int64(len(f.ino.data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = off
	return off, nil
}

func (f *File) Truncate(n int64) error {
	if f.closed {
		return perr("truncate", f.name, os.ErrClosed)
	}
	m := f.fs.Begin("truncate", f.name)
	if m == FailBefore || m == Partial {
		return perr("truncate", f.name, syscall.ENOSPC)
	}
	if n < 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	if n > 1<<28 {
		return perr("truncate", f.name, syscall.EFBIG)
	}
	f.fs.mu.Lock()
	f.flushMaps()
	f.ino.resize(int(n))
	f.fs.mu.Unlock()
	f.fs.changed()
	if m == FailAfter {
		return perr("truncate", f.name, errIO)
	}
	return nil
}

func (f *File) Sync() error {
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	m := f.fs.Begin("sync", f.name)
	if m == FailBefore || m == Partial {
		return perr("sync", f.name, errIO)
	}
	f.fs.mu.Lock()
	if f.ino.dir {
		f.fs.pending = nil
		f.fs.durable = map[string]*Inode{}
		for n, i := range f.fs.names {
			f.fs.durable[n] = i
		}
	} else {
		f.flushMaps()
		f.ino.synced = append([]byte(nil), f.ino.data...)
		f.ino.ever = true
	}
	f.fs.mu.Unlock()
	f.fs.changed()
	if m == FailAfter {
		return perr("sync", f.name, errIO)
	}
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	m := f.fs.Begin("close", f.name)
	f.closed = true
	if !f.ino.dir {
		f.fs.mu.Lock()
		f.fs.OpenFiles--
		f.fs.mu.Unlock()
	}
	if m != OK {
		return perr("close", f.name, errIO)
	}
	return nil
}

func (f *File) Chmod(m os.FileMode) error {
	if f.closed {
		return perr("chmod", f.name, os.ErrClosed)
	}
	return f.fs.chmod(f.ino, f.name, m)
}

func (fs *FS) chmod(ino *Inode, name string, m os.FileMode) error {
	mode := fs.Begin("chmod", name)
	if mode == FailBefore || mode == Partial {
		return perr("chmod", name, syscall.EPERM)
	}
	fs.mu.Lock()
	ino.perm = m & os.ModePerm
	fs.mu.Unlock()
	fs.changed()
	if mode == FailAfter {
		return perr("chmod", name, errIO)
	}
	return nil
}

func Chmod(name string, m os.FileMode) error {
	fs := Cur
	fs.mu.Lock()
	ino := fs.names[Clean(name)]
	fs.mu.Unlock()
	if ino == nil {
		fs.Begin("chmod", name)
		return perr("chmod", name, syscall.ENOENT)
	}
	return fs.chmod(ino, name, m)
}

func (f *File) Stat() (os.FileInfo, error) {
	if f.closed {
		return nil, perr("stat", f.name, os.ErrClosed)
	}
	if f.fs.Begin("stat", f.name) != OK {
		return nil, perr("stat", f.name, errIO)
	}
	return &info{filepath.Base(f.name), f.ino, int64(len(f.ino.data))}, nil
}

func (f *File) Readdirnames(n int) ([]string, error) {
	f.fs.mu.Lock()
	defer f.fs.mu.Unlock()
	if !f.ino.dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if f.rdone && n > 0 {
		return nil, io.EOF
	}
	f.rdone = true
	var ret []string
	for p := range f.fs.names {
		ret = append(ret, filepath.Base(p))
	}
	sort.Strings(ret)
	return ret, nil
}

type info struct {
	name string
	ino  *Inode
	size int64
}

func (i *info) Name() string { return i.name }
func (i *info) Size() int64  { return i.size }
func (i *info) Mode() os.FileMode {
	if i.ino.dir {
		return os.ModeDir | 0700
	}
	return i.ino.perm
}
func (i *info) ModTime() time.Time { return time.Unix(1600000000, 0) }
func (i *info) IsDir() bool        { return i.ino.dir }
func (i *info) Sys() interface{}   { return i.ino }

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(*info)
	y, ok2 := b.(*info)
	return ok1 && ok2 && x.ino == y.ino
}

func Stat(name string) (os.FileInfo, error) {
	fs := Cur
	if fs.Begin("stat", name) != OK {
		return nil, perr("stat", name, errIO)
	}
	p := Clean(name)
	fs.mu.Lock()
	defer fs.mu.Unlock()
	if fs.isDir(p) {
		return &info{filepath.Base(p), fs.dir, 0}, nil
	}
	ino := fs.names[p]
	if ino == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return &info{filepath.Base(p), ino, int64(len(ino.data))}, nil
}

func Rename(a, b string) error {
	fs := Cur
	lerr := func(e error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: e} }
	m := fs.Begin("rename", a)
	if m == FailBefore || m == Partial {
		return lerr(errIO)
	}
	pa, pb := Clean(a), Clean(b)
	fs.mu.Lock()
	ino := fs.names[pa]
	if ino == nil || filepath.Dir(pb) != Dir {
		fs.mu.Unlock()
		return lerr(syscall.ENOENT)
	}
	if pa != pb {
		delete(fs.names, pa)
		fs.names[pb] = ino
		fs.pending = append(fs.pending, dirOp{kind: "rename", old: pa, new: pb, ino: ino})
	}
	fs.mu.Unlock()
	fs.changed()
	if m == FailAfter {
		return lerr(errIO)
	}
	return nil
}

func Link(a, b string) error {
	fs := Cur
	lerr := func(e error) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: e} }
	m := fs.Begin("link", a)
	if m == FailBefore || m == Partial {
		return lerr(errIO)
	}
	pa, pb := Clean(a), Clean(b)
	fs.mu.Lock()
	ino := fs.names[pa]
	if ino == nil || filepath.Dir(pb) != Dir {
		fs.mu.Unlock()
		return lerr(syscall.ENOENT)
	}
	if fs.names[pb] != nil {
		fs.mu.Unlock()
		return lerr(syscall.EEXIST)
	}
	fs.names[pb] = ino
	fs.pending = append(fs.pending, dirOp{kind: "link", new: pb, ino: ino})
	fs.mu.Unlock()
	fs.changed()
	if m == FailAfter {
		return lerr(errIO)
	}
	return nil
}

func Remove(name string) error {
	fs := Cur
	m := fs.Begin("remove", name)
	if m == FailBefore || m == Partial {
		return perr("remove", name, errIO)
	}
	p := Clean(name)
	fs.mu.Lock()
	if fs.names[p] == nil {
		fs.mu.Unlock()
		return perr("remove", name, syscall.ENOENT)
	}
	delete(fs.names, p)
	fs.pending = append(fs.pending, dirOp{kind: "unlink", old: p})
	fs.mu.Unlock()
	fs.changed()
	if m == FailAfter {
		return perr("remove", name, errIO)
	}
	return nil
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}

// Locks (see package vlock)

// ReadRaw returns the contents of a file without counting an operation.
func (fs *FS) ReadRaw(name string) ([]byte, bool) {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	ino := fs.names[Clean(name)]
	if ino == nil {
		return nil, false
	}
	for _, m := range ino.maps {
		m.flush()
	}
	return append([]byte(nil), ino.data...), true
}

// WriteRaw creates or replaces a file without counting an operation.
func (fs *FS) WriteRaw(name string, data []byte) {
	fs.mu.Lock()
	p := Clean(name)
	ino := fs.newInode()
	ino.data = append([]byte(nil), data...)
	fs.names[p] = ino
	fs.pending = append(fs.pending, dirOp{kind: "link", new: p, ino: ino})
	fs.mu.Unlock()
	fs.changed()
}

func (fs *FS) RemoveRaw(name string) {
	fs.mu.Lock()
	p := Clean(name)
	delete(fs.names, p)
	fs.pending = append(fs.pending, dirOp{kind: "unlink", old: p})
	fs.mu.Unlock()
	fs.changed()
}

// Umask is the file mode creation mask.
const Umask os.FileMode = 022

// Walk calls f for every file.
func (fs *FS) Walk(f func(name string, perm os.FileMode, data []byte)) {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	var names []string
	for n := range fs.names {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ino := fs.names[n]
		f(n, ino.perm, ino.data)
	}
}

// Names returns the names of all files.
func (fs *FS) Names() []string {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	var ret []string
	for n := range fs.names {
		ret = append(ret, n)
	}
	sort.Strings(ret)
	return ret
}

// Mappings

type Mapping struct {
	fs       *FS
	ino      *Inode
	off      int
	buf      []byte // what the program sees (full pages in guard mode)
	length   int
	shadow   []byte // contents as of the last synchronisation with the file
	unmapped bool
	ro       bool
}

const realPage = 4096

func MapRegion(f *File, length int, ro, private bool, off int64) ([]byte, error) {
	fs := f.fs
	m := fs.Begin("mmap", f.name)
	if m != OK {
		return nil, syscall.ENOMEM
	}
	if off%int64(fs.PageSize) != 0 {
		return nil, errors.New("offset parameter must be a multiple of the system's page size")
	}
	if f.closed {
		return nil, syscall.EBADF
	}
	if f.flag&os.O_RDWR == 0 && !ro && !private {
		return nil, syscall.EACCES
	}
	fs.mu.Lock()
	defer fs.mu.Unlock()
	if length < 0 {
		length = len(f.ino.data)
	}
	if length == 0 {
		return nil, syscall.EINVAL
	}
	mp := &Mapping{fs: fs, ino: f.ino, off: int(off), length: length, ro: ro || private}
	f.flushMaps()
	if fs.Guard {
		n := (length + realPage - 1) / realPage * realPage
		b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE,
			syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			return nil, err
		}
		mp.buf = b
	} else {
		mp.buf = make([]byte, length)
	}
	if int(off) < len(f.ino.data) {
		copy(mp.buf[:length], f.ino.data[off:])
	}
	mp.shadow = append([]byte(nil), mp.buf[:length]...)
	f.ino.maps = append(f.ino.maps, mp)
	fs.mappings = append(fs.mappings, mp)
	fs.live = append(fs.live, mp)
	if fs.Guard {
		mp.resized()
	}
	return mp.buf[:length:length], nil
}

// avail is the number of bytes of the mapping backed by the file.
func (m *Mapping) avail() int {
	n := len(m.ino.data) - m.off
	if n < 0 {
		return 0
	}
	if n > m.length {
		return m.length
	}
	return n
}

func (m *Mapping) accessible() int {
	a := m.avail()
	return (a + realPage - 1) / realPage * realPage
}

func (m *Mapping) resized() {
	if m.fs.Guard && !m.unmapped {
		a := m.accessible()
		if a > len(m.buf) {
			a = len(m.buf)
		}
		prot := syscall.PROT_READ | syscall.PROT_WRITE
		if a > 0 {
			syscall.Mprotect(m.buf[:a], prot)
		}
		if a < len(m.buf) {
			syscall.Mprotect(m.buf[a:], syscall.PROT_NONE)
		}
	}
	m.reload()
}

func (m *Mapping) dirty() bool {
	if m.unmapped || m.ro {
		return false
	}
	n := m.avail()
	return !bytes.Equal(m.buf[:n], m.shadow[:n])
}

// flush copies changes made through the mapping to the file.
func (m *Mapping) flush() {
	if m.unmapped || m.ro {
		return
	}
	n := m.avail()
	if bytes.Equal(m.buf[:n], m.shadow[:n]) {
		return
	}
	d := m.ino.data[m.off:]
	for i := 0; i < n; i++ {
		if m.buf[i] != m.shadow[i] {
			d[i] = m.buf[i]
			m.shadow[i] = m.buf[i]
		}
	}
	for _, o := range m.ino.maps {
		if o != m {
			o.reload()
		}
	}
}

// reload makes changes of the file visible in the mapping.
func (m *Mapping) reload() {
	if m.unmapped {
		return
	}
	if vsync.RaceEnabled {
		return
	}
	n := m.avail()
	d := m.ino.data[m.off:]
	for i := 0; i < n; i++ {
		if d[i] != m.shadow[i] {
			m.buf[i] = d[i]
			m.shadow[i] = d[i]
		}
	}
}

// Unmap ends the mapping starting at b.
func Unmap(b []byte) error {
	if len(b) == 0 {
		return syscall.EINVAL
	}
	fs := Cur
	p := unsafe.Pointer(&b[0])
	fs.mu.Lock()
	var m *Mapping
	for _, x := range fs.mappings {
		if unsafe.Pointer(&x.buf[0]) == p {
			m = x
		}
	}
	fs.mu.Unlock()
	if m == nil || m.unmapped {
		fs.mu.Lock()
		fs.Misuse = append(fs.Misuse, "unmapping memory that is not mapped")
		fs.mu.Unlock()
		return syscall.EINVAL
	}
	switch fs.Begin("munmap", "") {
	case FailBefore, Partial:
		return syscall.EINVAL
	case FailAfter:
		m.unmap()
		return errIO
	}
	m.unmap()
	return nil
}

const poison = 0xdb

func (m *Mapping) unmap() {
	m.fs.mu.Lock()
	ch := m.dirty()
	m.flush()
	m.unmapped = true
	for i, x := range m.ino.maps {
		if x == m {
			m.ino.maps = append(m.ino.maps[:i:i], m.ino.maps[i+1:]...)
			break
		}
	}
	for i, x := range m.fs.live {
		if x == m {
			m.fs.live = append(m.fs.live[:i:i], m.fs.live[i+1:]...)
			break
		}
	}
	if m.fs.Guard {
		syscall.Mprotect(m.buf, syscall.PROT_NONE)
	} else {
		for i := range m.buf {
			m.buf[i] = poison
		}
	}
	m.fs.mu.Unlock()
	if ch {
		m.fs.changed()
	}
}

// Live returns the number of live mappings.
func (fs *FS) Live() int { return len(fs.live) }

// Dispose frees the memory of the mappings and returns what misuse was seen.
// Call it only when nothing uses the file system any more.
func (fs *FS) Dispose() []string {
	for _, m := range fs.mappings {
		if fs.Guard {
			syscall.Munmap(m.buf)
		} else if m.unmapped {
			for _, c := range m.buf {
				if c != poison {
					fs.Misuse = append(fs.Misuse, "write to memory after it was unmapped")
					break
				}
			}
		}
		m.unmapped = true
	}
	fs.mappings, fs.live = nil, nil
	for _, i := range fs.names {
		i.maps = nil
	}
	return fs.Misuse
}

// Crash images

func (fs *FS) flushAll() {
	for _, m := range fs.live {
		m.flush()
	}
}

// Image returns what is left when the process is killed now.
func (fs *FS) Image() *Image {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	fs.flushAll()
	im := &Image{Files: map[string][]byte{}}
	for n, i := range fs.names {
		im.Files[n] = append([]byte(nil), i.data...)
	}
	return im
}

// Key identifies the contents of an image.
func (im *Image) Key() string {
	names := make([]string, 0, len(im.Files))
	for n := range im.Files {
		names = append(names, n)
	}
	sort.Strings(names)
	var sb strings.Builder
	for _, n := range names {
		sb.WriteString(n)
		sb.WriteByte(0)
		fmt.Fprintf(&sb, "%d:", len(im.Files[n]))
		sb.Write(im.Files[n])
	}
	return sb.String()
}

// Clone returns a copy.
func (im *Image) Clone() *Image {
	r := &Image{Files: map[string][]byte{}, Desc: im.Desc}
	for n, d := range im.Files {
		r.Files[n] = append([]byte(nil), d...)
	}
	return r
}

const sector = 512

type variant struct {
	desc string
	data []byte
}

func fit(b []byte, n int) []byte {
	r := make([]byte, n)
	copy(r, b)
	return r
}

// variants lists what may be found in an inode after a power loss: first the
// current data, then the last synced data, then mixtures.
func (i *Inode) variants() []variant {
	cur := append([]byte(nil), i.data...)
	old := append([]byte(nil), i.synced...)
	vs := []variant{{"current", cur}}
	if i.ever && bytes.Equal(cur, old) {
		return vs
	}
	vs = append(vs, variant{"old", old})
	if len(cur) == 0 {
		return vs
	}
	// size updated, data not
	vs = append(vs, variant{"size only", fit(old, len(cur))})
	// data updated, size not
	if len(old) < len(cur) && len(old) > 0 {
		vs = append(vs, variant{"old size", cur[:len(old)]})
	}
	o := fit(old, len(cur))
	// byte-wise torn
	for _, k := range []int{len(cur) / 4, len(cur) / 2, len(cur) - 1} {
		t := append(append([]byte(nil), cur[:k]...), o[k:]...)
		vs = append(vs, variant{fmt.Sprintf("torn at %d", k), t})
		vs = append(vs, variant{fmt.Sprintf("cut at %d", k), append([]byte(nil), cur[:k]...)})
	}
	n := 0
	for p := 0; p < len(cur) && n < 16; p += sector {
		e := p + sector
		if e > len(cur) {
			e = len(cur)
		}
		if bytes.Equal(cur[p:e], o[p:e]) {
			continue
		}
		n++
		a := append([]byte(nil), cur...)
		copy(a[p:e], o[p:e])
		vs = append(vs, variant{fmt.Sprintf("without sector %d", p/sector), a})
		b := append([]byte(nil), o...)
		copy(b[p:e], cur[p:e])
		vs = append(vs, variant{fmt.Sprintf("only sector %d", p/sector), b})
	}
	return vs
}

// PowerImages returns what may be left after the power fails now, up to
// duplicates: every subset of the directory operations that are not synced
// yet, and for the data, every combination of current and old contents, and
// mixtures in one file at a time.
func (fs *FS) PowerImages() []*Image {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	fs.flushAll()
	seen := map[string]bool{}
	var ret []*Image
	n := len(fs.pending)
	var masks []int
	if n <= 7 {
		for m := 0; m < 1<<n; m++ {
			masks = append(masks, m)
		}
	} else {
		all := 1<<n - 1
		for k := 0; k <= n; k++ {
			masks = append(masks, 1<<k-1)
			if k < n {
				masks = append(masks, all&^(1<<k), 1<<k)
			}
		}
	}
	for _, mask := range masks {
		ns := map[string]*Inode{}
		for k, v := range fs.durable {
			ns[k] = v
		}
		desc := ""
		for k, op := range fs.pending {
			if mask&(1<<k) == 0 {
				desc += fmt.Sprintf(" lost %s %s>%s;", op.kind, filepath.Base(op.old), filepath.Base(op.new))
				continue
			}
			switch op.kind {
			case "link":
				ns[op.new] = op.ino
			case "unlink":
				delete(ns, op.old)
			case "rename":
				if ns[op.old] == op.ino {
					delete(ns, op.old)
				}
				ns[op.new] = op.ino
			}
		}
		var names []string
		for k := range ns {
			names = append(names, k)
		}
		sort.Strings(names)
		vs := make([][]variant, len(names))
		for k, nm := range names {
			vs[k] = ns[nm].variants()
		}
		emit := func(sel []int) {
			im := &Image{Files: map[string][]byte{}, Desc: desc}
			for k, nm := range names {
				v := vs[k][sel[k]]
				im.Files[nm] = v.data
				if sel[k] != 0 {
					im.Desc += fmt.Sprintf(" %s: %s;", filepath.Base(nm), v.desc)
				}
			}
			key := im.Key()
			if !seen[key] {
				seen[key] = true
				ret = append(ret, im)
			}
		}
		// all combinations of current and old
		for c := 0; c < 1<<len(names); c++ {
			sel := make([]int, len(names))
			ok := true
			for k := range names {
				if c&(1<<k) != 0 {
					if len(vs[k]) < 2 {
						ok = false
						break
					}
					sel[k] = 1
				}
			}
			if !ok {
				continue
			}
			emit(sel)
			// one file with a mixture
			for k := range names {
				if sel[k] != 0 {
					continue
				}
				for v := 2; v < len(vs[k]); v++ {
					s2 := append([]int(nil), sel...)
					s2[k] = v
					emit(s2)
				}
			}
		}
	}
	return ret
}

// Flush makes changes made through a mapping visible to all others, as they
// are with real memory mappings.
func (fs *FS) Flush() {
	fs.mu.Lock()
	fs.flushAll()
	fs.mu.Unlock()
}
