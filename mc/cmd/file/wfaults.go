package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
)

// wfiles are the write histories of the fault checks.
func wfiles(thorough bool) (l []wcase) {
	st := spec.STRUCT
	types := []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING)),
		wrap(spec.T(spec.STRING).WithDict().Null(), spec.T(st, spec.T(spec.BOOLEAN), spec.T(spec.TIMESTAMP)).Null()),
		everything(true),
		spec.T(spec.DECIMAL).Clone(),
		wrap(),
	}
	for ti, ty := range types {
		n := 9
		var rows []Val
		if ti == 2 {
			for i := 0; i < n; i++ {
				rows = append(rows, everyRow(ty, i, true))
			}
		} else {
			rows = mixed0(ty, n)
		}
		stripe := 40
		if ti == 2 {
			stripe = 700
		}
		cfgs := []wcfg{{}, {zlib: true}, {zlib: true, chunk: 9}, {stripe: stripe}, {index: true, stride: 2}, {stripe: stripe, index: true, stride: 2, zlib: true, chunk: 30}}
		if thorough {
			cfgs = append(cfgs, wcfg{stripe: 1}, wcfg{stripe: 1, index: true, stride: 1}, wcfg{zlib: true, chunk: 1, stripe: stripe}, wcfg{stripe: stripe, index: true, stride: 3})
		}
		for _, cfg := range cfgs {
			bb := [][]int{{2, 4, 3}}
			if thorough {
				bb = [][]int{{n}, {2, 4, 3}, {1, 1, 1, 1, 1, 1, 1, 1, 1}}
			}
			for _, b := range bb {
				l = append(l, wcase{ty, rows, b, cfg})
			}
			if ti == 0 || thorough {
				l = append(l, wcase{ty, nil, nil, cfg})
			}
		}
	}
	return
}

// outcome of a write history: the errors of the calls.
type outcome struct {
	calls []string
	errs  int
}

func (o *outcome) add(what string, err error) bool {
	s := what + ":ok"
	if err != nil {
		s = what + ":" + err.Error()
		o.errs++
	}
	o.calls = append(o.calls, s)
	return err == nil
}

func (o *outcome) String() string { return strings.Join(o.calls, " ") }

// play writes the file; it goes on after errors if stubborn is set.
func play(d *memf.Disk, w wcase, stubborn bool) (o outcome) {
	wr, err := orc.VerifWriter(toAPI(w.t), w.cfg.opts(), d.Handle())
	if !o.add("new", err) {
		return
	}
	rows := w.rows
	for _, n := range w.batches {
		if !o.add("write", wr.Write(toVec(w.t, rows[:n], nil))) && !stubborn {
			break
		}
		rows = rows[n:]
	}
	o.add("close", wr.Close())
	if stubborn {
		// these must not break down either
		o.calls = append(o.calls, fmt.Sprint(wr.Write(toVec(w.t, w.rows, nil)), wr.Close()))
	}
	return
}

// complete: no call failed, so the file must be whole.
func (w wcase) complete(t *mcx.T, b, good []byte) {
	if bytes.Equal(b, good) {
		return
	}
	checkRead(t, memf.New(b), w.t, w.rows)
}

// C15: failed writes are reported.
func C15(c *mcx.Ctx) {
	c.Assume("a file operation that fails returns an error, or writes less than it was given; a failed write may have written a part")
	list := wfiles(c.Thorough)
	good := make([][]byte, len(list))
	ops := make([][]memf.Op, len(list))
	for i, w := range list {
		d := memf.New(nil)
		d.Log = true
		if o := play(d, w, false); o.errs != 0 {
			c.Group("without faults")
			c.Do(func() string { return fmt.Sprint(i) }, func(t *mcx.T) { t.Failf("%s", o.String()) })
			return
		}
		good[i], ops[i] = d.Data, d.Ops
	}

	one := func(i int, id string, stubborn bool, hook func(op memf.Op, hit *int) memf.Act) {
		w := list[i]
		c.Do(func() string { return fmt.Sprintf("%d %s %v %v %s %v", i, w.t, w.cfg, w.batches, id, stubborn) }, func(t *mcx.T) {
			d := memf.New(nil)
			hit := 0
			d.Hook = func(op memf.Op) memf.Act { return hook(op, &hit) }
			o := play(d, w, stubborn)
			t.Step(len(o.calls))
			if hit > 0 && o.errs == 0 {
				t.Failf("%d operations failed, no call did: %s; %d of %d bytes written", hit, o.String(), len(d.Data), len(good[i]))
			}
			if o.errs == 0 {
				w.complete(t, d.Data, good[i])
			}
			t.StateS(fmt.Sprint(i, len(d.Data), o.errs))
		})
	}

	c.Group("every operation fails, every way")
	for i := range list {
		for k, op := range ops[i] {
			k, op := k, op
			var acts []memf.Act
			acts = append(acts, memf.Act{Limit: 0, Err: memf.Fault})
			if op.Kind == 'w' {
				if op.N > 1 {
					acts = append(acts, memf.Act{Limit: op.N / 2, Err: memf.Fault}, memf.Act{Limit: op.N - 1}, memf.Act{Limit: op.N / 2})
				}
				acts = append(acts, memf.Act{Limit: op.N, Err: memf.Fault})
				if op.N > 0 {
					acts = append(acts, memf.Act{Limit: 0})
				}
			}
			for _, a := range acts {
				a := a
				for mode := 0; mode < 4; mode++ {
					if !c.Thorough && mode > 1 && k%4 != mode {
						continue
					}
					mode := mode
					one(i, fmt.Sprintf("%c%d limit=%d err=%v mode=%d", op.Kind, k, a.Limit, a.Err, mode), mode%2 == 1, func(o memf.Op, hit *int) memf.Act {
						if o.Seq == k || mode >= 2 && o.Seq > k && o.Kind == op.Kind {
							if o.N > 0 || a.Err != nil {
								*hit++
							}
							return a
						}
						return memf.Pass
					})
				}
			}
		}
	}

	c.Group("the file takes no more than so many bytes")
	for i := range list {
		for left := 0; left <= len(good[i]); left++ {
			for _, stubborn := range []bool{false, true} {
				left := left
				if !c.Thorough && (stubborn && left%7 != 0 || list[i].cfg.zlib && left%5 != 0) {
					continue
				}
				one(i, fmt.Sprintf("budget=%d", left), stubborn, budget(left))
			}
		}
	}

	c.Group("two operations fail")
	for i := range list {
		if len(ops[i]) > 30 && !c.Thorough {
			continue
		}
		for k := range ops[i] {
			for m := k + 1; m < len(ops[i])+3; m++ {
				k, m := k, m
				one(i, fmt.Sprintf("%d %d", k, m), true, func(o memf.Op, hit *int) memf.Act {
					if o.Seq == k || o.Seq == m {
						*hit++
						return memf.Act{Limit: o.N / 2, Err: memf.Fault}
					}
					return memf.Pass
				})
			}
		}
	}

	c.Group("files of the operating system")
	res := child("c15")
	for _, r := range res {
		r := r
		c.Do(func() string { return r.ID }, func(t *mcx.T) {
			t.Step(1)
			t.StateS(r.ID)
			if r.Fail != "" {
				t.Failf("%s", r.Fail)
			}
		})
	}
}

// budget is a disk with room for left bytes; every handle and every write shares it.
func budget(left int) func(memf.Op, *int) memf.Act {
	return func(o memf.Op, hit *int) memf.Act {
		if o.Kind != 'w' {
			return memf.Pass
		}
		room := left - int(o.Off)
		if o.N <= room {
			return memf.Pass
		}
		*hit++
		if room < 0 {
			room = 0
		}
		return memf.Act{Limit: room, Err: syscall.ENOSPC}
	}
}

type childResult struct{ ID, Fail string }

// child runs a part of a check that needs limits of its own in a process of its own.
func child(name string) (l []childResult) {
	tmp, err := os.MkdirTemp(os.Getenv("VERIF_TMP"), "child")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command("/proc/self/exe")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+name, "VERIF_CHILD_DIR="+tmp)
	cmd.Dir = tmp
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	dec := json.NewDecoder(&out)
	for {
		var r childResult
		if dec.Decode(&r) != nil {
			break
		}
		l = append(l, r)
	}
	if err != nil {
		e := errb.String()
		if len(e) > 1000 {
			e = e[:1000]
		}
		l = append(l, childResult{name + " process", fmt.Sprintf("%v after %d cases: %s", err, len(l), e)})
	}
	return
}

// childMain is what child runs.
func childMain(name string) {
	dir := os.Getenv("VERIF_CHILD_DIR")
	enc := json.NewEncoder(os.Stdout) // a pipe, limits on files do not apply
	run := func(id string, f func() string) {
		r := childResult{ID: id}
		func() {
			defer func() {
				if x := recover(); x != nil {
					r.Fail = fmt.Sprintf("panic: %v", x)
				}
			}()
			r.Fail = f()
		}()
		enc.Encode(r)
	}
	switch name {
	case "c15":
		childC15(dir, run)
	case "c21":
		childC21(dir, run)
	}
}

func childC15(dir string, run func(string, func() string)) {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
	limit := func(n int) {
		l := old
		if n >= 0 {
			l.Cur = uint64(n)
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &l); err != nil {
			panic(err)
		}
	}
	playOS := func(path string, w wcase) (o outcome) {
		wr, err := orc.NewOSFileWriter(path, toAPI(w.t), w.cfg.opts())
		if !o.add("new", err) {
			return
		}
		rows := w.rows
		for _, n := range w.batches {
			if !o.add("write", wr.Write(toVec(w.t, rows[:n], nil))) {
				break
			}
			rows = rows[n:]
		}
		o.add("close", wr.Close())
		if err := wr.Close(); err == nil {
			o.calls = append(o.calls, "closed twice")
		}
		return
	}
	for i, w := range wfiles(false) {
		if i%2 != 1 {
			continue
		}
		w := w
		path := filepath.Join(dir, fmt.Sprint("f", i))
		d := memf.New(nil)
		play(d, w, false)
		whole := func(o outcome) string {
			if o.errs != 0 {
				return ""
			}
			b, err := os.ReadFile(path)
			if err != nil {
				return err.Error()
			}
			f, err := spec.Read(b)
			if err != nil {
				return "no call failed, the file is damaged: " + err.Error()
			}
			if x := diff(w.rows, f.Rows); x != "" {
				return "no call failed, the file is wrong: " + x
			}
			if len(b) != len(d.Data) {
				return fmt.Sprintf("file has %d bytes, written %d", len(b), len(d.Data))
			}
			return ""
		}
		run(fmt.Sprintf("new file %d", i), func() string {
			o := playOS(path, w)
			if o.errs != 0 {
				return o.String()
			}
			return whole(o)
		})
		run(fmt.Sprintf("over a longer file %d", i), func() string {
			if err := os.WriteFile(path, bytes.Repeat([]byte("x"), len(d.Data)*3), 0600); err != nil {
				return err.Error()
			}
			o := playOS(path, w)
			if o.errs != 0 {
				return o.String()
			}
			return whole(o)
		})
		step := 1
		if len(d.Data) > 600 || w.cfg.zlib {
			step = 11
		}
		for n := 0; n < len(d.Data); n += step {
			n := n
			run(fmt.Sprintf("file %d limited to %d of %d bytes", i, n, len(d.Data)), func() string {
				os.Remove(path)
				limit(n)
				o := playOS(path, w)
				limit(-1)
				if o.errs == 0 {
					return fmt.Sprintf("no call failed, the file could take %d of %d bytes only: %s", n, len(d.Data), o.String())
				}
				return ""
			})
		}
		run(fmt.Sprintf("device that is full %d", i), func() string {
			if o := playOS("/dev/full", w); o.errs == 0 {
				return "no call failed: " + o.String()
			}
			return ""
		})
		for _, bad := range []string{filepath.Join(dir, "no", "such"), dir, ""} {
			bad := bad
			run(fmt.Sprintf("cannot be opened %d %q", i, strings.TrimPrefix(bad, dir)), func() string {
				if o := playOS(bad, w); o.errs == 0 {
					return "no call failed: " + o.String()
				}
				return ""
			})
		}
	}
}
