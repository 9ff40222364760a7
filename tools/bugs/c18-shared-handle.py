property='C18'; pkg='orc/io'
edits=[('orc/io/file.go','''	"io"
	"os"
)
''','''	"io"
	"os"
	"sync"
)
'''),('orc/io/file.go','''type osFile struct {
	path string
	f    *os.File
}
''','''// handle is an open file that several osFiles use
type handle struct {
	*os.File
	mu   sync.Mutex
	refs int
}

// osFile is a place in a file, clones share the handle
type osFile struct {
	path string
	f    *handle
	pos  int64
}
'''),('orc/io/file.go','''	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	return &osFile{f: f, path: path}, nil
''','''	f, err := os.Open(path)
	if err != nil {
		return nil, err
	}
	return &osFile{f: &handle{File: f, refs: 1}, path: path}, nil
'''),('orc/io/file.go','''	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	return &osFile{f: f, path: path}, nil
''','''	f, err := os.Create(path)
	if err != nil {
		return nil, err
	}
	return &osFile{f: &handle{File: f, refs: 1}, path: path}, nil
'''),('orc/io/file.go','''	r, err := os.Open(f.path)
	if err != nil {
		return nil, err
	}
	return &osFile{f.path, r}, nil
''','''	f.f.mu.Lock()
	defer f.f.mu.Unlock()
	f.f.refs++
	return &osFile{path: f.path, f: f.f}, nil
'''),('orc/io/file.go','''	n, err := f.f.Read(p)
	if err != nil {
''','''	if _, err := f.f.Seek(f.pos, io.SeekStart); err != nil {
		return 0, errors.WithStack(err)
	}
	n, err := f.f.Read(p)
	f.pos += int64(n)
	if err != nil {
'''),('orc/io/file.go','''	return f.f.Seek(offset, whence)
''','''	switch whence {
	case io.SeekStart:
		f.pos = offset
	case io.SeekCurrent:
		f.pos += offset
	default:
		n, err := f.f.Seek(offset, whence)
		if err != nil {
			return n, err
		}
		f.pos = n
	}
	return f.pos, nil
'''),('orc/io/file.go','''	if err := f.f.Close(); err != nil {
''','''	f.f.mu.Lock()
	defer f.f.mu.Unlock()
	f.f.refs--
	if f.f.refs > 0 {
		return nil
	}
	if err := f.f.Close(); err != nil {
''')]
needs='two batch readers of one reader of a file of the operating system, one switched to between the seek and the read of the other'
breaks='clones of a file share the handle and its position, a batch reader reads bytes from where another one is'
demo='''package io

import (
	"os"
	"path/filepath"
	"sync"
	"testing"
)

// Clones of a file are read by several goroutines, each reads what is at its own place.
func TestZZDemo(t *testing.T) {
	path := filepath.Join(os.Getenv("DEMO_TMP"), "file")
	b := make([]byte, 1<<16)
	for i := range b {
		b[i] = byte(i>>8) ^ byte(i*7)
	}
	if err := os.WriteFile(path, b, 0600); err != nil {
		t.Fatal(err)
	}
	f, err := OpenFileForRead(path)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		c, err := f.Clone()
		if err != nil {
			t.Fatal(err)
		}
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer c.Close()
			p := make([]byte, 16)
			for n := 0; n < 20000; n++ {
				at := (g*8191 + n*16) % (1<<16 - 16)
				if _, err := c.Seek(int64(at), 0); err != nil {
					t.Error(err)
					return
				}
				if _, err := c.Read(p); err != nil {
					t.Error(err)
					return
				}
				if string(p) != string(b[at:at+16]) {
					t.Errorf("clone %d does not get what is at %d", g, at)
					return
				}
			}
		}(g)
	}
	wg.Wait()
}
'''
