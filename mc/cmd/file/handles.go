package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"syscall"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
)

// useReader opens a file, reads it as the script says with one or two batch readers, whatever the calls return, and
// closes what it got. order: which is closed first.
func useReader(mk func() (orc.Reader, error), cp, order int, script string) (opened bool, log string) {
	r, err := mk()
	if err != nil {
		return false, "open:" + err.Error()
	}
	say := func(what string, err error) {
		if err != nil && len(log) < 400 {
			log += " " + what + ":" + err.Error()
		}
	}
	n := 1
	if order >= 2 {
		n = 2
	}
	schema := r.GetSchema()
	var brs []orc.BatchReader
	for i := 0; i < n; i++ {
		o := &api.BatchOption{RowSize: cp}
		br, err := r.CreateBatchReader(o)
		say("create", err)
		if err != nil {
			continue
		}
		vec, err := schema.CreateVector(o)
		say("vector", err)
		if err == nil {
			k := 0
			for _, op := range script {
				switch {
				case op == '>':
					_, err := br.Next(vec)
					say("next", err)
				case op == '*':
					for ; k < 40; k++ {
						end, err := br.Next(vec)
						say("next", err)
						if end || err != nil {
							break
						}
					}
				default:
					say("seek", br.Seek(uint64(op-'0')))
				}
			}
		}
		brs = append(brs, br)
	}
	switch order {
	case 0, 2:
		for _, br := range brs {
			br.Close()
		}
		r.Close()
	case 1, 3:
		r.Close()
		for i := range brs {
			brs[len(brs)-1-i].Close()
		}
	}
	return true, log
}

// C21: everything opened is closed, once.
func C21(c *mcx.Ctx) {
	c.Assume("a reader, batch reader or writer the library returned is closed by its user, once; one it did not return the user cannot close")
	list := rfiles(c)
	check := func(t *mcx.T, d *memf.Disk, opened bool, log string) {
		t.Step(1)
		max := 0
		if !opened {
			max = 1 // the handle the harness gave
		}
		if d.Open > max || d.Twice > 0 {
			t.Failf("%d of the handles are open after everything was closed, %d were closed twice;%s", d.Open-max, d.Twice, log)
		}
		t.StateS(fmt.Sprint(opened, log))
	}
	use := func(t *mcx.T, d *memf.Disk, cp, order int, script string) {
		opened, log := useReader(func() (orc.Reader, error) { return orc.VerifReader(d.Handle()) }, cp, order, script)
		check(t, d, opened, log)
	}
	scripts := append([]string{""}, rscripts...)

	c.Group("readers")
	for _, im := range list {
		im := im
		for _, script := range scripts {
			for order := 0; order < 4; order++ {
				for _, cp := range []int{1, 4} {
					script, order, cp := script, order, cp
					c.Do(func() string { return fmt.Sprint(im.name, " ", script, order, cp) }, func(t *mcx.T) { use(t, im.disk(), cp, order, script) })
				}
			}
		}
	}

	c.Group("readers, every operation fails")
	for _, im := range list {
		im := im
		for si, script := range scripts {
			script, order := script, si%4
			d := im.disk()
			d.Log = true
			useReader(func() (orc.Reader, error) { return orc.VerifReader(d.Handle()) }, 2, order, script)
			for _, op := range d.Ops {
				op := op
				if !c.Thorough && len(d.Ops) > 300 && (op.Seq+si)%3 != 0 {
					continue
				}
				acts := []memf.Act{{Limit: 0, Err: memf.Fault}}
				if op.Kind == 'r' {
					acts = append(acts, memf.Act{Limit: 0, Err: io.EOF})
				}
				for _, a := range acts {
					a := a
					for _, all := range []bool{false, true} {
						all := all
						c.Do(func() string { return fmt.Sprintf("%s %s %c%d %v %v", im.name, script, op.Kind, op.Seq, a.Err, all) }, func(t *mcx.T) {
							d := im.disk()
							d.Hook = func(o memf.Op) memf.Act {
								if o.Seq == op.Seq || all && o.Seq > op.Seq && o.Kind == op.Kind {
									return a
								}
								return memf.Pass
							}
							use(t, d, 2, order, script)
						})
					}
				}
			}
		}
	}

	c.Group("readers, every length")
	for _, im := range list {
		im := im
		for n := 0; n < len(im.data); n++ {
			if len(im.data) > 4000 && n > 200 && n < len(im.data)-700 && n%13 != 0 {
				continue
			}
			n := n
			c.Do(func() string { return fmt.Sprint(im.name, " ", n) }, func(t *mcx.T) { use(t, memf.New(im.data[:n:n]), 3, n%4, "*0>") })
		}
	}

	c.Group("readers, every byte damaged")
	for _, im := range list {
		im := im
		if len(im.data) > 4000 {
			continue
		}
		for n := 0; n < len(im.data); n++ {
			old := im.data[n]
			vals := []byte{old + 1, old ^ 0x80, 0, 0xff}
			if c.Thorough {
				vals = nil
				for v := 0; v < 256; v += 3 {
					vals = append(vals, byte(v)+old%3)
				}
			}
			for _, v := range vals {
				if v == old {
					continue
				}
				n, v := n, v
				c.Do(func() string { return fmt.Sprintf("%s %d=%02x", im.name, n, v) }, func(t *mcx.T) {
					b := append([]byte{}, im.data...)
					b[n] = v
					use(t, memf.New(b), 3, (n+int(v))%4, "*0>")
				})
			}
		}
	}

	c.Group("readers, every field of stripe footers damaged")
	for ti, ty := range append(listTypes()[:4], batchTypes()...) {
		for oi, o := range []spec.WOpt{{Block: 1 << 12, Stripes: []int{2, 3}}, {Block: 1 << 12, Stride: 2, Bloom: true}} {
			rows := mixed0(ty, 5)
			seen := map[int][]byte{}
			o := o
			o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
				if part == "stripe" {
					seen[stripe] = append([]byte{}, b...)
				}
				return b
			}
			spec.Write(ty, rows, o)
			for si := 0; si < len(seen); si++ {
				si, n := si, 0
				spec.Mutants(seen[si], spec.StripeSchema, func(m []byte) {
					n++
					k := n
					ty := ty
					c.Do(func() string { return fmt.Sprint(ti, oi, " ", si, " ", k) }, func(t *mcx.T) {
						o := o
						o.Damage = func(part string, stripe, col, kind int, b []byte) []byte {
							if part == "stripe" && stripe == si {
								return m
							}
							return b
						}
						use(t, memf.New(spec.Write(ty, rows, o)), 3, k%4, "*")
					})
				})
			}
		}
	}

	c.Group("column sets")
	for ti, ty := range append(listTypes()[:4], batchTypes()...) {
		data := spec.Write(ty, mixed0(ty, 5), spec.WOpt{Block: 1 << 12, Stripes: []int{2, 3}, Stride: 2})
		for m := 0; m < 1<<uint(ty.Size+1) && ty.Size < 9; m++ {
			var ids []uint32
			for i := 0; i <= ty.Size; i++ {
				if m>>uint(i)&1 != 0 {
					ids = append(ids, uint32(i))
				}
			}
			c.Do(func() string { return fmt.Sprint(ti, ids) }, func(t *mcx.T) {
				d := memf.New(data)
				r, err := orc.VerifReader(d.Handle())
				if err != nil {
					t.Failf("%v", err)
				}
				br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 2, Includes: ids})
				if err == nil {
					br.Close()
				}
				r.Close()
				check(t, d, true, fmt.Sprint(err))
			})
		}
	}

	c.Group("writers, every operation fails")
	for i, w := range wfiles(c.Thorough) {
		w := w
		d := memf.New(nil)
		d.Log = true
		play(d, w, false)
		for k := -1; k < len(d.Ops); k++ {
			for mode := 0; mode < 4; mode++ {
				if k < 0 && mode > 0 {
					continue
				}
				k, mode := k, mode
				c.Do(func() string { return fmt.Sprint(i, " ", k, mode) }, func(t *mcx.T) {
					d := memf.New(nil)
					d.Hook = func(o memf.Op) memf.Act {
						if k >= 0 && (o.Seq == k || mode >= 2 && o.Seq > k) {
							return memf.Act{Limit: o.N / 2, Err: memf.Fault}
						}
						return memf.Pass
					}
					o := playOnce(d, w, mode%2 == 1)
					check(t, d, !strings.HasPrefix(o.calls[0], "new:") || strings.HasPrefix(o.calls[0], "new:ok"), o.String())
				})
			}
		}
	}

	c.Group("files of the operating system")
	for _, r := range child("c21") {
		r := r
		c.Do(func() string { return r.ID }, func(t *mcx.T) {
			t.Step(1)
			t.StateS(r.ID)
			if r.Fail != "" {
				t.Failf("%s", r.Fail)
			}
		})
	}
}

// playOnce writes the file and closes it once.
func playOnce(d *memf.Disk, w wcase, stubborn bool) (o outcome) {
	wr, err := orc.VerifWriter(toAPI(w.t), w.cfg.opts(), d.Handle())
	if !o.add("new", err) {
		return
	}
	rows := w.rows
	for _, n := range w.batches {
		if !o.add("write", wr.Write(toVec(w.t, rows[:n], nil))) && !stubborn {
			break
		}
		rows = rows[n:]
	}
	o.add("close", wr.Close())
	return
}

// descriptors are the open files of the process below dir.
func descriptors(dir string) (l []string) {
	fds, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fd := range fds {
		if p, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(p, dir) {
			l = append(l, filepath.Base(p))
		}
	}
	return
}

func childC21(dir string, run func(string, func() string)) {
	debug.SetGCPercent(-1) // forgotten files are not found by the collector
	if d, err := filepath.EvalSymlinks(dir); err == nil {
		dir = d
	}
	path := filepath.Join(dir, "file")
	none := func(what string) string {
		if l := descriptors(dir); len(l) > 0 {
			for _, e := range l {
				_ = e
			}
			closeBelow(dir)
			return fmt.Sprintf("%d files are open after everything was closed: %s", len(l), what)
		}
		return ""
	}
	read := func(b []byte, order int, script string) string {
		if err := os.WriteFile(path, b, 0600); err != nil {
			return err.Error()
		}
		opened, log := useReader(func() (orc.Reader, error) { return orc.NewOSFileReader(path) }, 3, order, script)
		return none(fmt.Sprint(opened, log))
	}
	st := spec.STRUCT
	for ti, ty := range []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING).WithDict()),
		wrap(spec.T(spec.LIST, spec.T(st, spec.T(spec.BYTE), spec.T(spec.STRING)).Null()).Null(), spec.T(spec.TIMESTAMP)),
	} {
		for oi, o := range []spec.WOpt{{Block: 1 << 12, Stripes: []int{2, 3}}, {Zlib: true, Block: 40, Mode: "do", Stride: 2}} {
			b := spec.Write(ty, mixed0(ty, 5), o)
			for order := 0; order < 4; order++ {
				for _, script := range []string{"", "*", ">3>0*"} {
					run(fmt.Sprint("read ", ti, oi, order, script), func() string { return read(b, order, script) })
				}
			}
			for n := 0; n < len(b); n++ {
				run(fmt.Sprint("cut ", ti, oi, " ", n), func() string { return read(b[:n], n%4, "*") })
				for _, v := range []byte{b[n] + 1, b[n] ^ 0x80, 0xff} {
					run(fmt.Sprint("damage ", ti, oi, " ", n, "=", v), func() string {
						x := append([]byte{}, b...)
						x[n] = v
						return read(x, n%4, "*")
					})
				}
			}
			// the file goes away, or no more files can be opened
			for order := 0; order < 2; order++ {
				run(fmt.Sprint("removed ", ti, oi, order), func() string {
					if err := os.WriteFile(path, b, 0600); err != nil {
						return err.Error()
					}
					_, log := useReader(func() (orc.Reader, error) {
						r, err := orc.NewOSFileReader(path)
						os.Remove(path)
						return r, err
					}, 3, order, "*")
					return none(log)
				})
			}
			var old syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old)
			for n := 0; n < 14; n++ {
				run(fmt.Sprint("no more than ", n, " files ", ti, oi), func() string {
					if err := os.WriteFile(path, b, 0600); err != nil {
						return err.Error()
					}
					l := old
					l.Cur = uint64(highest() + 1 + n)
					if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l); err != nil {
						return err.Error()
					}
					_, log := useReader(func() (orc.Reader, error) { return orc.NewOSFileReader(path) }, 3, n%4, "*")
					syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
					return none(log)
				})
			}
		}
	}
	run("missing", func() string {
		os.Remove(path)
		for _, p := range []string{path, dir, ""} {
			if _, err := orc.NewOSFileReader(p); err == nil {
				return "opened " + p
			}
		}
		return none("")
	})
	// writers
	for i, w := range wfiles(false) {
		run(fmt.Sprint("write ", i), func() string {
			wr, err := orc.NewOSFileWriter(path, toAPI(w.t), w.cfg.opts())
			if err != nil {
				return err.Error()
			}
			rows := w.rows
			for _, n := range w.batches {
				wr.Write(toVec(w.t, rows[:n], nil))
				rows = rows[n:]
			}
			wr.Close()
			return none("")
		})
		run(fmt.Sprint("write a wrong batch ", i), func() string {
			wr, err := orc.NewOSFileWriter(path, toAPI(w.t), w.cfg.opts())
			if err != nil {
				return err.Error()
			}
			e := fmt.Sprint(wr.Write(&api.ColumnVector{Id: 7}))
			e += fmt.Sprint(wr.Close())
			return none(e)
		})
		run(fmt.Sprint("options ", i), func() string {
			var e string
			for k := 0; k < 5; k++ {
				o := w.cfg.opts()
				s := toAPI(w.t)
				switch k {
				case 0:
					o.ChunkSize = 0
				case 1:
					o.CompressionKind = 5
				case 2:
					o.WriteIndex, o.IndexStride = true, 0
				case 3:
					s.Kind = 99
				case 4:
					s.Id = 3
				}
				wr, err := orc.NewOSFileWriter(path, s, o)
				if err == nil {
					wr.Close()
				}
				e += fmt.Sprint(err, " ")
			}
			return none(e)
		})
	}
}

// highest descriptor in use
func highest() (n int) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		var k int
		if fmt.Sscan(fd.Name(), &k); k > n {
			if _, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil {
				n = k
			}
		}
	}
	return
}

func closeBelow(dir string) {
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if p, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(p, dir) {
			var k int
			fmt.Sscan(fd.Name(), &k)
			syscall.Close(k)
		}
	}
}
