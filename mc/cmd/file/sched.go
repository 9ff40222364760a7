package main

import (
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	orcio "github.com/patrickhuang888/goorc/orc/io"
	"github.com/patrickhuang888/goorc/orc/zzsched"
)

// The scheduler runs one controlled goroutine at a time and decides at every
// point which one goes on. What it does to hand over is hidden from the race
// detector: for the detector the goroutines are not synchronised at all.

type actor struct {
	i       int
	f       func(a *actor)
	log     []string
	id      uint64
	wake    chan struct{}
	done    bool
	blocked bool // in a lock, maybe
	waiting bool // for a lock
	steps   int
}

func (a *actor) say(format string, x ...interface{}) {
	a.log = append(a.log, fmt.Sprintf(format, x...))
}

type scheduler struct {
	level  int
	actors []*actor
	ev     chan *actor
	stall  chan struct{}
	free   bool // points do nothing
	waits  int  // how often an actor was found blocked by the time it took
	again  int  // how often all waiting actors tried again in vain
}

var current *scheduler

// point is a place where goroutines may be switched.
//
//go:norace
func point(level int) {
	s := current
	if s == nil || level > s.level || s.free {
		return
	}
	raceOff()
	id := goid()
	for _, a := range s.actors {
		if a.id == id {
			s.ev <- a
			<-a.wake
			break
		}
	}
	raceOn()
}

// lockWait is called by an actor that could not take a lock.
//
//go:norace
func lockWait() {
	s := current
	if s != nil && !s.free {
		raceOff()
		id := goid()
		for _, a := range s.actors {
			if a.id == id {
				a.waiting = true
				s.ev <- a
				<-a.wake
				raceOn()
				return
			}
		}
		raceOn()
	}
	time.Sleep(time.Millisecond)
}

//go:norace
func lockFree() {
	if s := current; s != nil {
		s.again = 0
		for _, a := range s.actors {
			a.waiting = false
		}
	}
}

// run executes the actors by the given choices, then without preemption. It
// returns for every step the actor that ran before and those that could go on.
type schedStep struct {
	was     int   // index of the actor that was running, -1 none
	enabled []int // in order
	chose   int
}

//go:norace
func (s *scheduler) run(fs []func(a *actor), choices []int, maxSteps int) (trace []schedStep, deadlock bool) {
	s.ev = make(chan *actor)
	s.actors = nil
	var wg sync.WaitGroup
	for i, f := range fs {
		s.actors = append(s.actors, &actor{i: i, f: f, wake: make(chan struct{})})
		wg.Add(1)
	}
	current = s
	zzsched.Hook, zzsched.Wait, zzsched.Free = point, lockWait, lockFree
	s.again = 0
	for _, a := range s.actors {
		go s.body(a, &wg)
	}
	raceOff()
	for range s.actors {
		<-s.ev // all have reached their first point
	}
	last := -1
	for {
		var en []int
		live := 0
		for _, a := range s.actors {
			if !a.done {
				live++
				if !a.blocked && !a.waiting {
					en = append(en, a.i)
				}
			}
		}
		if live == 0 {
			break
		}
		if len(en) == 0 {
			// everyone is blocked: the lock may be free by now
			blocked, waiting := false, false
			for _, a := range s.actors {
				blocked, waiting = blocked || !a.done && a.blocked, waiting || a.waiting
			}
			if blocked && s.wait(nil) {
				continue
			}
			if !waiting || s.again > 3 { // it may have been freed by a goroutine that is no actor
				deadlock = true
				break
			}
			s.again++
			time.Sleep(time.Duration(s.again) * 20 * time.Millisecond)
			for _, a := range s.actors {
				a.waiting = false
			}
			continue
		}
		next := en[0]
		for _, x := range en {
			if x == last {
				next = x
			}
		}
		if len(trace) < len(choices) {
			if c := choices[len(trace)]; c >= 0 {
				next = c
			}
			ok := false
			for _, x := range en {
				ok = ok || x == next
			}
			if !ok {
				next = en[0] // blocked this time
			}
		}
		trace = append(trace, schedStep{last, en, next})
		if len(trace) > maxSteps {
			deadlock = true
			break
		}
		a := s.actors[next]
		a.steps++
		last = next
		a.wake <- struct{}{}
		if !s.wait(a) {
			a.blocked = true
			s.waits++
		}
	}
	current = nil
	raceOn()
	if deadlock {
		return
	}
	wg.Wait() // now the detector may know
	return
}

// wait waits until a (nil: anyone) is at a point again or ended; false if nothing happens.
//
//go:norace
func (s *scheduler) wait(a *actor) bool {
	for {
		select {
		case x := <-s.ev:
			x.blocked = false
			if a == nil || x == a {
				return true
			}
		case <-s.stall:
			select {
			case <-s.stall: // what is left of earlier times
			default:
			}
			t := time.NewTimer(150 * time.Millisecond)
			select {
			case x := <-s.ev:
				t.Stop()
				x.blocked = false
				if a == nil || x == a {
					return true
				}
			case <-t.C:
				return false
			}
		}
	}
}

//go:norace
func (s *scheduler) body(a *actor, wg *sync.WaitGroup) {
	defer wg.Done()
	raceOff()
	a.id = goid()
	s.ev <- a
	<-a.wake
	raceOn()
	a.call()
	raceOff()
	a.done = true
	a.id = 0 // may be used again by a goroutine of the library
	s.ev <- a
	raceOn()
}

func (a *actor) call() {
	defer func() {
		if r := recover(); r != nil {
			var keep []string
			for _, l := range strings.Split(string(debug.Stack()), "\n") {
				if strings.Contains(l, "/orc/") && len(keep) < 4 {
					keep = append(keep, strings.TrimSpace(l))
				}
			}
			a.say("panic: %v at %s", r, strings.Join(keep, " < "))
		}
	}()
	a.f(a)
}

// alone runs one actor without a scheduler.
func solo(f func(a *actor)) []string {
	a := &actor{f: f}
	a.call()
	return a.log
}

// sfile is a file whose operations are scheduling points; the race detector
// sees what is done with the caller's bytes only.
type sfile struct {
	data   *[]byte
	off    int
	closed bool
	in     orcio.File // of the operating system, takes the place of data
}

func newSfile(b []byte) *sfile { return &sfile{data: &b} }

//go:norace
func (f *sfile) Read(p []byte) (int, error) {
	point(0)
	if f.in != nil {
		return f.in.Read(p)
	}
	if f.closed {
		return 0, fmt.Errorf("read of a closed file")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.off >= len(*f.data) {
		return 0, io.EOF
	}
	n := copy(p, (*f.data)[f.off:])
	raceWrote(p[:n])
	f.off += n
	return n, nil
}

//go:norace
func (f *sfile) Write(p []byte) (int, error) {
	point(0)
	if f.in != nil {
		return f.in.Write(p)
	}
	if f.closed {
		return 0, fmt.Errorf("write to a closed file")
	}
	raceRead(p)
	*f.data = append((*f.data)[:f.off:f.off], p...)
	f.off += len(p)
	return len(p), nil
}

//go:norace
func (f *sfile) Seek(off int64, whence int) (int64, error) {
	point(0)
	if f.in != nil {
		return f.in.Seek(off, whence)
	}
	if f.closed {
		return 0, fmt.Errorf("seek of a closed file")
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.off)
	case io.SeekEnd:
		off += int64(len(*f.data))
	}
	if off < 0 {
		return 0, fmt.Errorf("seek to %d", off)
	}
	f.off = int(off)
	return off, nil
}

//go:norace
func (f *sfile) Close() error {
	point(0)
	if f.in != nil {
		return f.in.Close()
	}
	if f.closed {
		return fmt.Errorf("close of a closed file")
	}
	f.closed = true
	return nil
}

//go:norace
func (f *sfile) Size() (int64, error) {
	point(0)
	if f.in != nil {
		return f.in.Size()
	}
	return int64(len(*f.data)), nil
}

//go:norace
func (f *sfile) Clone() (orcio.File, error) {
	point(0)
	if f.in != nil {
		c, err := f.in.Clone()
		if err != nil {
			return nil, err
		}
		return &sfile{in: c}, nil
	}
	return &sfile{data: f.data}, nil
}
