package mcx

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"
)

// A fatal error of the runtime (no memory, stack overflow, concurrent use of a map) cannot be recovered from:
// the cases run in a process of their own, and the one it died of is looked for when it did.

// slots is where the workers leave the number of the case they are running.
type slots struct{ b []byte }

func openSlots(path string, n int) *slots {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0600)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(int64(n)*64) != nil {
		return nil
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n*64, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &slots{b}
}

func (s *slots) set(i int, seq int64) {
	if s != nil {
		*(*int64)(unsafe.Pointer(&s.b[i*64])) = seq
	}
}

// tail keeps the first and the last of what is written.
type tail struct {
	sync.Mutex
	head, last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.Lock()
	defer t.Unlock()
	n := len(p)
	if k := 1<<16 - len(t.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	if t.last = append(t.last, p...); len(t.last) > 1<<17 {
		t.last = append([]byte(nil), t.last[len(t.last)-1<<16:]...)
	}
	return n, nil
}

func (t *tail) String() string { return string(t.head) + string(t.last) }

// crashed returns what the code under test made the process die of.
func crashed(err error, out string) string {
	x, ok := err.(*exec.ExitError)
	if !ok {
		return ""
	}
	if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
		return "the process was ended: " + ws.Signal().String()
	}
	if x.ExitCode() != 2 || !strings.Contains(out, "/repo/") {
		return ""
	}
	what := ""
	var at []string
	for _, l := range strings.Split(out, "\n") {
		if what == "" && (strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ")) {
			what = l
		}
		if l = strings.TrimSpace(l); what != "" && strings.HasPrefix(l, "/repo/") && len(at) < 4 {
			at = append(at, strings.SplitN(l, " ", 2)[0])
		}
	}
	if what == "" {
		return ""
	}
	return what + " at " + strings.Join(at, " < ")
}

// supervise runs this check in a process of its own. It returns if there is a crash to report.
func supervise(prop string, workers int) (id, msg string) {
	dir := os.Getenv("VERIF_TMP")
	if dir == "" {
		dir = os.TempDir()
	}
	dir, err := os.MkdirTemp(dir, "super")
	if err != nil {
		return
	}
	defer os.RemoveAll(dir)
	run := func(env ...string) (string, error) {
		cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
		cmd.Env = append(os.Environ(), append(env, "VERIF_SUPERVISED="+dir)...)
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		t := &tail{}
		cmd.Stderr = t
		var out bytes.Buffer
		if len(env) == 0 {
			cmd.Stdout = os.Stdout
		} else {
			cmd.Stdout = &out
		}
		err := cmd.Run()
		return t.String(), err
	}
	out, err := run()
	if err == nil {
		os.Stderr.WriteString(out)
		os.RemoveAll(dir)
		os.Exit(0)
	}
	first := crashed(err, out)
	if first != "" {
		b, _ := os.ReadFile(filepath.Join(dir, "slots"))
		done := map[int64]bool{}
		for i := 0; i+64 <= len(b); i += 64 {
			seq := int64(binary.LittleEndian.Uint64(b[i:]))
			if seq == 0 {
				seq = -1 // not in a case
			}
			if done[seq] {
				continue
			}
			done[seq] = true
			os.Remove(filepath.Join(dir, "id"))
			o, e := run("VERIF_SEQ=" + strconv.FormatInt(seq, 10))
			if m := crashed(e, o); m != "" {
				id = "before the first case"
				if b, err := os.ReadFile(filepath.Join(dir, "id")); err == nil {
					id = string(b)
				}
				return id, m
			}
		}
		out += "\nno case did this alone: " + first
	}
	os.Stderr.WriteString(out + "\n")
	os.RemoveAll(dir)
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() > 0 {
		os.Exit(x.ExitCode())
	}
	fmt.Fprintln(os.Stderr, err)
	os.Exit(2)
	return
}
