package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	orcio "github.com/patrickhuang888/goorc/orc/io"
)

// rfiles are the files of the read fault checks.
func rfiles(c *mcx.Ctx) (l []*image) {
	st := spec.STRUCT
	types := []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING)),
		wrap(spec.T(spec.STRING).WithDict().Null(), spec.T(st, spec.T(spec.BOOLEAN), spec.T(spec.TIMESTAMP)).Null(), spec.T(spec.DECIMAL)),
		wrap(spec.T(spec.DOUBLE).Null(), spec.T(spec.BINARY).Null(), spec.T(spec.BYTE), spec.T(spec.FLOAT), spec.T(spec.DATE).Null()),
	}
	for _, ty := range types {
		rows := mixed0(ty, 9)
		for _, cfg := range []wcfg{{}, {zlib: true, chunk: 20}, {stripe: 60}, {index: true, stride: 2}, {stripe: 60, index: true, stride: 2, zlib: true, chunk: 30}} {
			l = append(l, libImage(c, "lib", ty, rows, []int{9}, cfg))
		}
	}
	types = append(listTypes(), everything(true))
	for i, ty := range types {
		var rows []Val
		if i == len(types)-1 {
			for i := 0; i < 7; i++ {
				rows = append(rows, everyRow(ty, i, true))
			}
		} else {
			rows = mixed0(ty, 7)
		}
		o := spec.WOpt{Block: 1 << 12, Stripes: []int{4, 3}}
		switch i % 3 {
		case 1:
			o = spec.WOpt{Zlib: true, Block: 20, Mode: "od", Stride: 2, Loose: true}
		case 2:
			o = spec.WOpt{Block: 1 << 12, Stripes: []int{2, 5}, Stride: 1, Bloom: true, Meta: 9, Gap: 3, Always: true, Flip: true}
		}
		l = append(l, specImage(fmt.Sprint("spec", i%3), ty, rows, o))
		if i < len(types)-1 { // rows are longer than chunks, skipped over in parts
			l = append(l, specImage(fmt.Sprint("chunks", i%3), ty, rows, spec.WOpt{Zlib: true, Block: 2 + i%2, Mode: "o", Stride: 4}))
			// and every value has a run and chunks of its own
			l = append(l, specImage(fmt.Sprint("runs", i%3), ty, rows, spec.WOpt{Zlib: true, Block: 2, Mode: "o", Stride: 4, Ints: spec.IntsDirect(1)}))
		}
	}
	l = append(l, specImage("long tail", types[0], mixed0(types[0], 7), spec.WOpt{Block: 1 << 12, User: 17000}))
	return
}

// readScript reads a file in a fixed order of operations; '>' Next, digits Seek to the row, '*' Next to the end.
// Calls may fail, rows may not be wrong. It returns the calls, and how many failed.
func readScript(t *mcx.T, d *memf.Disk, im *image, cp int, script string) (log []string, errs int) {
	fail := func(f string, a ...interface{}) {
		t.Failf("%s; calls %s of %s", fmt.Sprintf(f, a...), strings.Join(log, " "), im.name)
	}
	s, err := open(d, im.t, ropt{cap: cp})
	if err != nil {
		return []string{"open:" + err.Error()}, 1
	}
	defer s.close()
	pos := []int{0} // where the next row may be
	failed := 0
	next := func() bool {
		b, end, err := s.next()
		t.Step(1)
		if err != nil {
			if isWrong(err) {
				fail("%v", err)
			}
			if n := s.vec.Len(); n != 0 {
				fail("Next failed and left %d rows in the batch", n)
			}
			log = append(log, "next:"+err.Error())
			errs++
			failed++
			return false
		}
		var ok []int
		var why string
		for _, p := range pos {
			if p+len(b) > len(im.rows) {
				why = fmt.Sprintf("%d rows after %d of %d", len(b), p, len(im.rows))
			} else if x := diff(im.rows[p:p+len(b)], b); x != "" {
				why = fmt.Sprintf("after row %d: %s", p, x)
			} else if end != (p+len(b) == len(im.rows)) {
				why = fmt.Sprintf("end is %v after %d of %d rows", end, p+len(b), len(im.rows))
			} else {
				ok = append(ok, p+len(b))
			}
		}
		if len(ok) == 0 {
			fail("%s", why)
		}
		log = append(log, fmt.Sprintf("next:%d", len(b)))
		pos = ok
		if len(b) == 0 && !end {
			fail("Next delivered nothing and did not end")
		}
		return !end
	}
	seek := func(n int) {
		err := s.br.Seek(uint64(n))
		t.Step(1)
		if err != nil {
			log = append(log, fmt.Sprintf("seek %d:%v", n, err))
			errs++
			pos = append(pos, n)
			return
		}
		log = append(log, fmt.Sprintf("seek %d", n))
		pos = []int{n}
	}
	for _, op := range script {
		switch {
		case op == '>':
			next()
		case op == '*':
			for i := 0; next(); i++ {
				if i > 3*len(im.rows) {
					fail("no end")
				}
			}
		default:
			seek(int(op - '0'))
		}
		if failed > 0 {
			break
		}
	}
	if failed > 0 {
		// after a failure: the same, or the rows that are next; and from a row sought
		next()
		next()
		seek(1)
		for i := 0; next(); i++ {
			if i > 3*len(im.rows) {
				fail("no end")
			}
		}
	}
	return
}

var rscripts = []string{"*", ">5>1*", "4*2>0>*", ">>>0*", "63*", ">1>1>3>*"}

// C16: failed reads and files cut short.
func C16(c *mcx.Ctx) {
	c.Assume("a read may return fewer bytes than asked for, with or without an error; a failed read may have read a part")
	list := rfiles(c)
	same := func(t *mcx.T, d *memf.Disk, im *image, cp int, script string) {
		log, errs := readScript(t, d, im, cp, script)
		if errs != 0 {
			t.Failf("%s", strings.Join(log, " "))
		}
		t.StateS(im.name + script)
	}

	c.Group("reads that return less")
	for _, im := range list {
		im := im
		if im.data == nil {
			continue
		}
		for _, script := range rscripts {
			for cp := 1; cp <= 4; cp++ {
				for lim := 0; lim <= 8; lim++ {
					for _, eof := range []bool{false, true} {
						script, cp, lim, eof := script, cp, lim, eof
						c.Do(func() string { return fmt.Sprint(im.name, " ", script, cp, lim, eof) }, func(t *mcx.T) {
							d := im.disk()
							d.EOF = eof
							if lim > 0 {
								d.Hook = func(o memf.Op) memf.Act {
									if lim == 8 { // nothing, then one byte
										return memf.Act{Limit: o.Seq % 2}
									}
									if lim == 7 { // 1 2 3 ...
										return memf.Act{Limit: 1 + o.Seq%5}
									}
									return memf.Act{Limit: lim}
								}
							}
							same(t, d, im, cp, script)
						})
					}
				}
			}
		}
	}

	c.Group("cut short at every byte")
	for _, im := range list {
		im := im
		for n := 0; n < len(im.data); n++ {
			if len(im.data) > 4000 && !c.Thorough && n > 200 && n < len(im.data)-700 && n%13 != 0 {
				continue
			}
			n := n
			c.Do(func() string { return fmt.Sprint(im.name, " ", n) }, func(t *mcx.T) {
				log, errs := readScript(t, memf.New(im.data[:n:n]), im, 3, "*")
				if errs == 0 {
					t.Failf("file cut to %d of %d bytes was read: %s", n, len(im.data), strings.Join(log, " "))
				}
				t.StateS(strings.Join(log, " "))
			})
		}
	}

	c.Group("the size is known, the rest cannot be read")
	for _, im := range list {
		im := im
		for n := 0; n < len(im.data); n++ {
			if len(im.data) > 4000 && !c.Thorough && n > 200 && n < len(im.data)-700 && n%13 != 0 {
				continue
			}
			for _, e := range []error{io.EOF, memf.Fault} {
				n, e := n, e
				c.Do(func() string { return fmt.Sprint(im.name, " ", n, e) }, func(t *mcx.T) {
					d := im.disk()
					opened := false
					d.Hook = func(o memf.Op) memf.Act {
						if o.Kind == 'k' {
							opened = true
						}
						// the tail could be read when the file was opened
						if o.Kind == 'r' && opened && o.Off+int64(o.N) > int64(n) {
							l := n - int(o.Off)
							if l < 0 {
								l = 0
							}
							return memf.Act{Limit: l, Err: e}
						}
						return memf.Pass
					}
					log, _ := readScript(t, d, im, 2, "*")
					t.StateS(strings.Join(log, " "))
				})
			}
		}
	}

	c.Group("every operation fails")
	for _, im := range list {
		im := im
		if im.data == nil {
			continue
		}
		for _, script := range rscripts {
			for _, cp := range []int{1, 2, 3, 10} {
				script, cp := script, cp
				d := im.disk()
				d.Log = true
				c.Do(func() string { return fmt.Sprint(im.name, " ", script, cp) }, func(t *mcx.T) { same(t, im.disk(), im, cp, script) })
				if s, err := open(d, im.t, ropt{cap: cp}); err == nil {
					dry(s, script, len(im.rows))
					s.close()
				}
				for _, op := range d.Ops {
					op := op
					acts := []memf.Act{{Limit: 0, Err: memf.Fault}}
					if op.Kind == 'r' {
						acts = append(acts, memf.Act{Limit: 0, Err: io.EOF}, memf.Act{Limit: 0, Err: io.ErrUnexpectedEOF}, memf.Act{Limit: 0})
						if op.N > 1 {
							acts = append(acts, memf.Act{Limit: op.N / 2, Err: memf.Fault}, memf.Act{Limit: op.N - 1, Err: io.EOF})
						}
						acts = append(acts, memf.Act{Limit: op.N, Err: memf.Fault})
					}
					for _, a := range acts {
						a := a
						for _, all := range []bool{false, true} {
							all := all
							if all && a.Limit != 0 {
								continue
							}
							if all && a.Err == nil && op.Kind == 'r' {
								continue // reads that never return anything
							}
							c.Do(func() string {
								return fmt.Sprintf("%s %s cap=%d %c%d limit=%d err=%v all=%v", im.name, script, cp, op.Kind, op.Seq, a.Limit, a.Err, all)
							}, func(t *mcx.T) {
								d := im.disk()
								d.Hook = func(o memf.Op) memf.Act {
									if o.Seq == op.Seq || all && o.Seq > op.Seq && o.Kind == op.Kind {
										return a
									}
									return memf.Pass
								}
								log, errs := readScript(t, d, im, cp, script)
								if a.Err == nil && errs > 0 {
									t.Failf("a read of no bytes without an error: %s", strings.Join(log, " "))
								}
								t.StateS(fmt.Sprint(im.name, script, cp, op.Seq, errs))
							})
						}
					}
				}
			}
		}
	}

	c.Group("two operations fail")
	for _, im := range list {
		im := im
		if im.data == nil {
			continue
		}
		for _, script := range rscripts {
			script := script
			cp := 3
			d := im.disk()
			d.Log = true
			if s, err := open(d, im.t, ropt{cap: cp}); err == nil {
				dry(s, script, len(im.rows))
				s.close()
			}
			n := len(d.Ops)
			step := 1
			if !c.Thorough && n > 60 {
				step = n / 30
			}
			for i := 0; i < n; i += step {
				for j := i + 1; j < n+12; j += step {
					for _, e := range []error{memf.Fault, io.EOF} {
						i, j, e := i, j, e
						c.Do(func() string { return fmt.Sprint(im.name, " ", script, " ", i, j, e) }, func(t *mcx.T) {
							d := im.disk()
							d.Hook = func(o memf.Op) memf.Act {
								if o.Seq == i || o.Seq == j {
									return memf.Act{Limit: o.N / 2, Err: e}
								}
								return memf.Pass
							}
							log, errs := readScript(t, d, im, cp, script)
							_ = log
							t.StateS(fmt.Sprint(im.name, script, i, j, errs))
						})
					}
				}
			}
		}
	}

	c.Group("files of the operating system")
	osFiles(c, list)
}

// dry runs the calls of a script and ignores what they return.
func dry(s *session, script string, n int) {
	for _, op := range script {
		switch {
		case op == '>':
			s.next()
		case op == '*':
			for i := 0; i < 3*n; i++ {
				if _, end, err := s.next(); end || err != nil {
					break
				}
			}
		default:
			s.br.Seek(uint64(op - '0'))
		}
	}
}

// osFiles: files of the library over the operating system against the file in memory.
func osFiles(c *mcx.Ctx, list []*image) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "os")
	if err != nil {
		panic(err)
	}
	for i, im := range list {
		im, i := im, i
		for _, n := range []int{len(im.data), 0, 1, 3, 4, len(im.data) / 2, len(im.data) - 1} {
			n := n
			c.Do(func() string { return fmt.Sprint(im.name, " ", n) }, func(t *mcx.T) {
				p := filepath.Join(dir, fmt.Sprint(i, "-", n))
				if err := os.WriteFile(p, im.data[:n], 0600); err != nil {
					panic(err)
				}
				defer os.Remove(p)
				r, err := orc.NewOSFileReader(p)
				t.Step(1)
				if n < len(im.data) {
					if err == nil {
						t.Failf("opened a file cut to %d of %d bytes", n, len(im.data))
					}
					return
				}
				if err != nil {
					t.Failf("%v", err)
				}
				s, err := batchReader(r, im.t, ropt{cap: 4})
				if err != nil {
					t.Failf("%v", err)
				}
				s.own = true
				defer s.close()
				got, err := s.rest(20)
				if err != nil {
					t.Failf("%v", err)
				}
				if x := diff(im.rows, got); x != "" {
					t.Failf("%s", x)
				}
			})
		}
	}
	c.Do(func() string { return "missing file" }, func(t *mcx.T) {
		for _, p := range []string{filepath.Join(dir, "none"), dir, ""} {
			if _, err := orc.NewOSFileReader(p); err == nil {
				t.Failf("opened %q", p)
			}
		}
	})
	// the file itself: every short history of operations against the model
	content := []byte("0123456789")
	ops := []string{"r1", "r4", "r99", "s0", "s3", "s10", "s12", "c1", "e-2", "z", "k"}
	p := filepath.Join(dir, "ops")
	if err := os.WriteFile(p, content, 0600); err != nil {
		panic(err)
	}
	depth := 4
	if c.Thorough {
		depth = 5
	}
	mcx.Seqs(len(ops), 1, depth, func(idx []int) {
		c.Do(func() string { return fmt.Sprint("operations ", idx) }, func(t *mcx.T) {
			f, err := orcio.OpenFileForRead(p)
			if err != nil {
				t.Failf("%v", err)
			}
			cur := []orcio.File{f}
			pos := []int64{0}
			for _, x := range idx {
				op := ops[x]
				f, at := cur[len(cur)-1], &pos[len(pos)-1]
				var n int64
				fmt.Sscanf(op[1:], "%d", &n)
				t.Step(1)
				switch op[0] {
				case 'r':
					b := make([]byte, n)
					k, err := f.Read(b)
					left := content[min(int(*at), len(content)):]
					if len(left) == 0 {
						if k != 0 || !errors.Is(unwrap(err), io.EOF) {
							t.Failf("read at the end: %d %v", k, err)
						}
						continue
					}
					if k < 1 || k > len(b) || k > len(left) || string(b[:k]) != string(left[:k]) || err != nil && unwrap(err) != io.EOF {
						t.Failf("read at %d: %q %v", *at, b[:k], err)
					}
					*at += int64(k)
				case 's', 'c', 'e':
					w := map[byte]int{'s': 0, 'c': 1, 'e': 2}[op[0]]
					want := n
					if w == 1 {
						want += *at
					} else if w == 2 {
						want += int64(len(content))
					}
					if got, err := f.Seek(n, w); err != nil || got != want {
						t.Failf("seek %s from %d: %d %v", op, *at, got, err)
					}
					*at = want
				case 'z':
					if s, err := f.Size(); err != nil || s != int64(len(content)) {
						t.Failf("size %d %v", s, err)
					}
				case 'k':
					g, err := f.Clone()
					if err != nil {
						t.Failf("clone: %v", err)
					}
					s, err := g.Seek(2, 0) // where a clone stands at first does not matter
					if err != nil || s != 2 {
						t.Failf("seek of a clone: %d %v", s, err)
					}
					cur, pos = append(cur, g), append(pos, 2)
				}
			}
			for i := range cur {
				if s, err := cur[i].Seek(0, 1); err != nil || s != pos[i] {
					t.Failf("handle %d is at %d, not %d: %v", i, s, pos[i], err)
				}
				if err := cur[i].Close(); err != nil {
					t.Failf("close: %v", err)
				}
				if _, err := cur[i].Read(make([]byte, 1)); err == nil || unwrap(err) == io.EOF {
					t.Failf("read of a closed file: %v", err)
				}
				if err := cur[i].Close(); err == nil {
					t.Failf("closed twice")
				}
			}
			t.StateS(fmt.Sprint(idx))
		})
	})
}

func unwrap(err error) error {
	for err != nil {
		if c, ok := err.(interface{ Cause() error }); ok {
			err = c.Cause()
			continue
		}
		break
	}
	return err
}
