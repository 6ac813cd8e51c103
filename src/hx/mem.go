//go:build go1.21

package main

import (
	"fmt"
	"sort"

	xmssmt "github.com/bwesterb/go-xmssmt"
)

// memCtr is a PrivateKeyContainer in memory.
type memCtr struct {
	params   xmssmt.Params
	key      []byte
	seqNo    xmssmt.SignatureSeqNo
	borrowed uint32
	init     bool
	cacheOK  bool
	closed   bool
	trees    map[xmssmt.SubTreeAddress][]byte

	calls    []string
	keepLog  bool
	hook     func(call string) // called at every call
	fail     func(call string) bool
	maxTrees int
	closes   int
	afterCl  int // calls after Close
	written  []xmssmt.SignatureSeqNo
	destroy  bool // overwrite all buffers when closed
	saved    map[xmssmt.SubTreeAddress][]byte
}

func newMemCtr() *memCtr {
	return &memCtr{trees: map[xmssmt.SubTreeAddress][]byte{}}
}

type ctrErr struct{ s string }

func (e *ctrErr) Error() string { return e.s }
func (e *ctrErr) Locked() bool  { return false }
func (e *ctrErr) Inner() error  { return nil }

func (m *memCtr) call(f string, a ...any) xmssmt.Error {
	s := f
	if len(a) > 0 {
		s = fmt.Sprintf(f, a...)
	}
	if m.keepLog {
		m.calls = append(m.calls, s)
	}
	if m.closed && f != "Close" {
		m.afterCl++
	}
	if m.hook != nil {
		m.hook(s)
	}
	if m.fail != nil && m.fail(s) {
		return &ctrErr{"injected failure of " + s}
	}
	return nil
}

func (m *memCtr) ResetCache() xmssmt.Error {
	if err := m.call("ResetCache"); err != nil {
		return err
	}
	if !m.init {
		return &ctrErr{"not initialized"}
	}
	m.trees = map[xmssmt.SubTreeAddress][]byte{}
	m.cacheOK = true
	return nil
}

func (m *memCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	if err := m.call("GetSubTree(%d,%d)", a.Layer, a.Tree); err != nil {
		return nil, false, err
	}
	if !m.cacheOK {
		return nil, false, &ctrErr{"cache not initialized"}
	}
	if b, ok := m.trees[a]; ok {
		return b, true, nil
	}
	b := make([]byte, m.params.CachedSubTreeSize())
	m.trees[a] = b
	if len(m.trees) > m.maxTrees {
		m.maxTrees = len(m.trees)
	}
	return b, false, nil
}

func (m *memCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	m.call("HasSubTree")
	_, ok := m.trees[a]
	return ok && m.cacheOK
}

func (m *memCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	if err := m.call("DropSubTree(%d,%d)", a.Layer, a.Tree); err != nil {
		return err
	}
	if !m.cacheOK {
		return &ctrErr{"cache not initialized"}
	}
	for i := range m.trees[a] {
		m.trees[a][i] = 0xee // whoever still uses it will notice
	}
	delete(m.trees, a)
	return nil
}

func (m *memCtr) list() []xmssmt.SubTreeAddress {
	var ret []xmssmt.SubTreeAddress
	for a := range m.trees {
		ret = append(ret, a)
	}
	sort.Slice(ret, func(i, j int) bool {
		if ret[i].Layer != ret[j].Layer {
			return ret[i].Layer < ret[j].Layer
		}
		return ret[i].Tree < ret[j].Tree
	})
	return ret
}

func (m *memCtr) ListSubTrees() ([]xmssmt.SubTreeAddress, xmssmt.Error) {
	if err := m.call("ListSubTrees"); err != nil {
		return nil, err
	}
	if !m.cacheOK {
		return nil, &ctrErr{"cache not initialized"}
	}
	return m.list(), nil
}

func (m *memCtr) Reset(privateKey []byte, params xmssmt.Params) xmssmt.Error {
	if err := m.call("Reset"); err != nil {
		return err
	}
	m.key = append([]byte(nil), privateKey...)
	m.params = params
	m.seqNo, m.borrowed = 0, 0
	m.init = true
	return m.ResetCache()
}

func (m *memCtr) BorrowSeqNos(amount uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	if err := m.call("BorrowSeqNos(%d)", amount); err != nil {
		return 0, err
	}
	if !m.init {
		return 0, &ctrErr{"not initialized"}
	}
	m.seqNo += xmssmt.SignatureSeqNo(amount)
	m.borrowed += amount
	m.written = append(m.written, m.seqNo)
	return m.seqNo - xmssmt.SignatureSeqNo(amount), nil
}

func (m *memCtr) SetSeqNo(seqNo xmssmt.SignatureSeqNo) xmssmt.Error {
	if err := m.call("SetSeqNo(%d)", seqNo); err != nil {
		return err
	}
	if !m.init {
		return &ctrErr{"not initialized"}
	}
	m.seqNo = seqNo
	m.borrowed = 0
	m.written = append(m.written, m.seqNo)
	return nil
}

func (m *memCtr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	if err := m.call("GetSeqNo"); err != nil {
		return 0, 0, err
	}
	if !m.init {
		return 0, 0, &ctrErr{"not initialized"}
	}
	return m.seqNo, m.borrowed, nil
}

func (m *memCtr) GetPrivateKey() ([]byte, xmssmt.Error) {
	if err := m.call("GetPrivateKey"); err != nil {
		return nil, err
	}
	if !m.init {
		return nil, &ctrErr{"not initialized"}
	}
	return m.key, nil
}

func (m *memCtr) Initialized() *xmssmt.Params {
	m.call("Initialized")
	if !m.init {
		return nil
	}
	return &m.params
}

func (m *memCtr) CacheInitialized() bool {
	m.call("CacheInitialized")
	return m.cacheOK
}

func (m *memCtr) Close() xmssmt.Error {
	if err := m.call("Close"); err != nil {
		return err
	}
	m.closes++
	if m.closed {
		return &ctrErr{"already closed"}
	}
	m.closed = true
	if m.destroy {
		m.saved = map[xmssmt.SubTreeAddress][]byte{}
		for a, b := range m.trees {
			m.saved[a] = append([]byte(nil), b...)
			for i := range b {
				b[i] = 0xee
			}
		}
	}
	m.init = false
	m.cacheOK = false
	return nil
}

// reopen returns the container as a next process finds it.
func (m *memCtr) reopen() *memCtr {
	n := newMemCtr()
	n.params, n.key, n.seqNo, n.borrowed = m.params, append([]byte(nil), m.key...), m.seqNo, m.borrowed
	n.init, n.cacheOK = m.key != nil, true
	from := m.trees
	if m.saved != nil {
		from = m.saved
	}
	for a, b := range from {
		n.trees[a] = append([]byte(nil), b...)
	}
	return n
}

// dirty tells whether a buffer was written to after it was destroyed.
func (m *memCtr) dirty() bool {
	if m.saved == nil {
		return false
	}
	for _, b := range m.trees {
		for _, x := range b {
			if x != 0xee {
				return true
			}
		}
	}
	return false
}

// deriveMem makes the key of a fixture in memory.
func (f *Fix) deriveMem(threads int) (*xmssmt.PrivateKey, *xmssmt.PublicKey, *memCtr, error) {
	ctx, err := xmssmt.NewContext(f.P.x())
	if err != nil {
		return nil, nil, nil, err
	}
	ctx.Threads = threads
	c := newMemCtr()
	s1, s2, s3, wipe := f.seeds()
	defer wipe()
	sk, pk, err := ctx.DeriveInto(c, s1, s2, s3)
	if err != nil {
		return nil, nil, nil, err
	}
	return sk, pk, c, nil
}
