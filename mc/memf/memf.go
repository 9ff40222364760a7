// Package memf is an in-memory orcio.File whose operations can be observed,
// shortened and failed by operation number.
package memf

import (
	"errors"
	"fmt"
	"io"
	"sync"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

// Op describes one file operation before it happens.
type Op struct {
	Seq  int  // number of the operation over all handles of the disk
	Kind byte // r read, w write, s seek, c close, z size, k clone
	N    int  // bytes requested
	Off  int64
}

// Act is what the hook wants to happen: at most Limit bytes are transferred
// (when Limit >= 0) and Err is returned.
type Act struct {
	Limit int
	Err   error
}

var Pass = Act{Limit: -1}

// Disk is the content shared by the handles of one file.
type Disk struct {
	mu    sync.Mutex
	Data  []byte
	Hook  func(Op) Act
	seq   int
	Ops   []Op
	Log   bool
	Open  int  // handles not closed
	Twice int  // closes of a closed handle
	EOF   bool // reads that take the last byte return io.EOF with it
}

func New(b []byte) *Disk { return &Disk{Data: b} }

func (d *Disk) Handle() *File {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.Open++
	return &File{d: d}
}

func (d *Disk) Seq() int { d.mu.Lock(); defer d.mu.Unlock(); return d.seq }

type File struct {
	d      *Disk
	off    int64
	closed bool
}

var _ orcio.File = &File{}

// Fault is the error injected by hooks that fail operations.
var Fault = errors.New("injected fault")

func (f *File) act(kind byte, n int) Act {
	o := Op{f.d.seq, kind, n, f.off}
	f.d.seq++
	if f.d.Log {
		f.d.Ops = append(f.d.Ops, o)
	}
	if f.d.Hook != nil {
		return f.d.Hook(o)
	}
	return Pass
}

func (f *File) Read(p []byte) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	a := f.act('r', len(p))
	if f.closed {
		return 0, errors.New("read of a closed file")
	}
	if len(p) == 0 {
		return 0, a.Err
	}
	if f.off >= int64(len(f.d.Data)) {
		if a.Err != nil {
			return 0, a.Err
		}
		return 0, io.EOF
	}
	if a.Limit >= 0 && len(p) > a.Limit {
		p = p[:a.Limit]
	}
	n := copy(p, f.d.Data[f.off:])
	f.off += int64(n)
	if f.d.EOF && a.Err == nil && f.off == int64(len(f.d.Data)) {
		a.Err = io.EOF
	}
	return n, a.Err
}

func (f *File) Write(p []byte) (int, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	a := f.act('w', len(p))
	if f.closed {
		return 0, errors.New("write to a closed file")
	}
	if a.Limit >= 0 && len(p) > a.Limit {
		p = p[:a.Limit]
	}
	if f.off != int64(len(f.d.Data)) {
		return 0, fmt.Errorf("write at %d of a file of %d bytes", f.off, len(f.d.Data))
	}
	f.d.Data = append(f.d.Data, p...)
	f.off += int64(len(p))
	return len(p), a.Err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if a := f.act('s', int(off)); a.Err != nil {
		return 0, a.Err
	}
	if f.closed {
		return 0, errors.New("seek of a closed file")
	}
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.d.Data))
	}
	if off < 0 {
		return 0, errors.New("seek to a negative offset")
	}
	f.off = off
	return off, nil
}

func (f *File) Close() error {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	a := f.act('c', 0)
	if f.closed {
		f.d.Twice++
		return errors.New("close of a closed file")
	}
	f.closed = true
	f.d.Open--
	return a.Err
}

func (f *File) Size() (int64, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if a := f.act('z', 0); a.Err != nil {
		return 0, a.Err
	}
	return int64(len(f.d.Data)), nil
}

func (f *File) Clone() (orcio.File, error) {
	f.d.mu.Lock()
	defer f.d.mu.Unlock()
	if a := f.act('k', 0); a.Err != nil {
		return nil, a.Err
	}
	f.d.Open++
	return &File{d: f.d}, nil
}
