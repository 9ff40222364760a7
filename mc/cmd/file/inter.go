package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"goorcmc/mcx"
	"goorcmc/memf"
	"goorcmc/spec"

	"github.com/patrickhuang888/goorc/orc"
	"github.com/patrickhuang888/goorc/orc/api"
	orcio "github.com/patrickhuang888/goorc/orc/io"
	log "github.com/sirupsen/logrus"
)

// world is what the actors of one execution work on; made anew for every execution.
type world struct {
	im *image
	r  orc.Reader // shared by the actors named b and m
	f  *sfile
	// with files of the operating system
	dir  string
	outs int
}

func (w *world) open() (*sfile, error) {
	if w.dir == "" {
		return &sfile{data: w.f.data}, nil
	}
	f, err := orcio.OpenFileForRead(filepath.Join(w.dir, "in"))
	return &sfile{in: f}, err
}

// create makes a file to write to, and says what is in it when it was written.
func (w *world) create() (f *sfile, content func() []byte) {
	if w.dir == "" {
		f = newSfile(nil)
		return f, func() []byte { return *f.data }
	}
	w.outs++
	p := filepath.Join(w.dir, fmt.Sprint("out", w.outs))
	in, err := orcio.OpenFileForWrite(p)
	if err != nil {
		panic(err)
	}
	return &sfile{in: in}, func() []byte {
		b, err := os.ReadFile(p)
		if err != nil {
			panic(err)
		}
		return b
	}
}

type role struct {
	name   string
	shared bool // needs the shared reader
	f      func(w *world) func(a *actor)
}

type scenario struct {
	name  string
	level int
	im    int
	roles []string
	os    bool // files of the operating system
}

func interTypes() []*spec.Type {
	st, li, ma := spec.STRUCT, spec.LIST, spec.MAP
	var l []*spec.Type
	for _, t := range []*spec.Type{
		wrap(spec.T(spec.INT).Null(), spec.T(spec.STRING)),
		wrap(spec.T(st, spec.T(spec.TIMESTAMP), spec.T(spec.DECIMAL)).Null(), spec.T(spec.STRING).WithDict(), spec.T(spec.BOOLEAN).Null()),
		wrap(spec.T(spec.DOUBLE), spec.T(spec.BINARY).Null(), spec.T(spec.DATE), spec.T(spec.BYTE)),
		wrap(spec.T(spec.VARCHAR).WithDict().Null(), spec.T(spec.FLOAT).Null(), spec.T(spec.SHORT)),
		wrap(spec.T(li, spec.T(spec.INT).Null()).Null(), spec.T(ma, spec.T(spec.STRING).WithDict(), spec.T(spec.LONG))),
	} {
		l = append(l, t.Clone())
	}
	return l
}

var interCfgs = []wcfg{{}, {zlib: true, chunk: 20, index: true, stride: 2}, {stripe: 30}, {zlib: true, stripe: 40, index: true, stride: 1}}

// interImages are the files the readers share.
func interImages() (l []*image) {
	ts := interTypes()
	for i, cfg := range interCfgs {
		rows := mixed(ts[i], 5, 1)
		d := memf.New(nil)
		if err := writeFile(d, ts[i], rows, []int{3, 2}, cfg); err != nil {
			panic(err)
		}
		l = append(l, &image{fmt.Sprint("lib", i), ts[i], rows, d.Data})
	}
	rows := listRows(ts[4], 5)
	l = append(l, specImage("spec", ts[4], rows, spec.WOpt{Stripes: []int{2, 3}, Stride: 1, Zlib: true, Block: 30, Mode: "zo"}))
	rows = mixed(ts[1], 6, 1)
	l = append(l, specImage("spec", ts[1], rows, spec.WOpt{Stripes: []int{3, 3}, Stride: 2, Block: 1 << 12}))
	return
}

// rawSchema is the schema without ids.
func rawSchema(t *spec.Type) *api.TypeDescription {
	td := toAPI(t)
	for _, x := range all(td) {
		x.Id = 0
	}
	return td
}

func showSchema(td *api.TypeDescription) string {
	var b strings.Builder
	var walk func(x *api.TypeDescription)
	walk = func(x *api.TypeDescription) {
		fmt.Fprintf(&b, "%d:%v%v(", x.Id, x.Kind, x.ChildrenNames)
		for _, c := range x.Children {
			walk(c)
		}
		b.WriteString(")")
	}
	walk(td)
	return b.String()
}

func showVec(v *api.ColumnVector) string {
	if v == nil {
		return "nil"
	}
	s := fmt.Sprintf("%d:%v/%d(", v.Id, v.Kind, len(v.Vector))
	for _, c := range v.Children {
		s += showVec(c)
	}
	return s + ")"
}

func sum(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// readAll is the script of readers: steps are n (Next), sK (Seek).
func readAll(a *actor, br orc.BatchReader, td *api.TypeDescription, ty *spec.Type, inc []uint32, cp int, seeks []int) {
	o := ropt{cap: cp, inc: inc}
	opt := &api.BatchOption{RowSize: cp, Includes: inc}
	vec, err := td.CreateVector(opt)
	if err != nil {
		a.say("vector: %v", err)
		return
	}
	left := append([]int(nil), seeks...)
	for i := 0; i < 40; i++ {
		point(0)
		end, err := br.Next(vec)
		if err != nil {
			a.say("next: %v", err)
			return
		}
		rows, err := fromVec(ty, vec, vec.Len(), o.includes, nil)
		a.say("%s %v %v", spec.ShowAll(rows), end, err)
		if len(left) > 0 {
			a.say("seek %v", br.Seek(uint64(left[0])))
			left = left[1:]
		} else if end {
			return
		}
	}
}

func roles() map[string]role {
	m := map[string]role{}
	add := func(name string, shared bool, f func(w *world) func(a *actor)) { m[name] = role{name, shared, f} }
	ts := interTypes()
	// schemas
	trees := []*spec.Type{ts[0], ts[1], ts[4], spec.T(spec.INT).Clone(),
		wrap(spec.T(spec.STRUCT, spec.T(spec.STRUCT, spec.T(spec.INT), spec.T(spec.INT)), spec.T(spec.INT)), spec.T(spec.INT))}
	for i, t := range trees {
		t := t
		add(fmt.Sprint("schema", i), false, func(w *world) func(a *actor) {
			td := rawSchema(t)
			return func(a *actor) {
				a.say("%v", api.NormalizeSchema(td))
				point(0)
				l, err := td.Flat()
				a.say("%d %v %s", len(l), err, showSchema(td))
				point(0)
				a.say("%v", api.SchemasToTypes(l))
				point(0)
				v, err := td.CreateVector(&api.BatchOption{RowSize: 2 + i})
				a.say("%s %v", showVec(v), err)
				a.say("%v %v", api.SetId(td), showSchema(td))
			}
		})
	}
	// writers
	for i, cfg := range []wcfg{{chunk: 64}, {zlib: true, chunk: 1000, index: true, stride: 2}, {chunk: 64, stripe: 30}, {zlib: true, chunk: 1000, stripe: 40}, {chunk: 8}, {index: true, stride: 2, stripe: 20, chunk: 64}} {
		i, cfg := i, cfg
		t := ts[i%4]
		rows := mixed(t, 5, 1)
		add(fmt.Sprint("write", i), false, func(w *world) func(a *actor) {
			td := toAPI(t)
			f, content := w.create()
			v1, v2 := toVec(t, rows[:3], nil), toVec(t, rows[3:], nil)
			return func(a *actor) {
				wr, err := orc.VerifWriter(td, cfg.opts(), f)
				if err != nil {
					a.say("writer: %v", err)
					return
				}
				point(0)
				a.say("write %v", wr.Write(v1))
				point(0)
				a.say("write %v", wr.Write(v2))
				point(0)
				a.say("close %v", wr.Close())
				a.say("%x", sum(content()))
			}
		})
	}
	// readers of their own on the file of the world
	for i := 0; i < 2; i++ {
		i := i
		add(fmt.Sprint("read", i), false, func(w *world) func(a *actor) {
			return func(a *actor) {
				f, err := w.open()
				if err != nil {
					a.say("reader: %v", err)
					return
				}
				r, err := orc.VerifReader(f)
				if err != nil {
					a.say("reader: %v", err)
					return
				}
				point(0)
				a.say("%d %s", r.NumberOfRows(), showSchema(r.GetSchema()))
				br, err := r.CreateBatchReader(&api.BatchOption{RowSize: 2 + 3*i})
				if err != nil {
					a.say("batch reader: %v", err)
					return
				}
				readAll(a, br, r.GetSchema(), w.im.t, nil, 2+3*i, [][]int{nil, {3, 0}}[i])
				br.Close()
				r.Close()
			}
		})
	}
	// batch readers of the reader of the world
	batch := func(name string, cp int, inc []uint32, seeks []int) {
		add(name, true, func(w *world) func(a *actor) {
			return func(a *actor) {
				br, err := w.r.CreateBatchReader(&api.BatchOption{RowSize: cp, Includes: inc})
				if err != nil {
					a.say("batch reader: %v", err)
					return
				}
				readAll(a, br, w.r.GetSchema(), w.im.t, inc, cp, seeks)
				br.Close()
			}
		})
	}
	batch("batch0", 2, nil, nil)
	batch("batch1", 4, nil, []int{3})
	batch("batch2", 1, []uint32{0, 1, 2}, nil)
	batch("batch3", 3, nil, []int{4, 1})
	// batch readers that were made before
	ready := func(name string, cp int, seeks []int) {
		add(name, true, func(w *world) func(a *actor) {
			br, err := w.r.CreateBatchReader(&api.BatchOption{RowSize: cp})
			return func(a *actor) {
				if err != nil {
					a.say("batch reader: %v", err)
					return
				}
				readAll(a, br, w.r.GetSchema(), w.im.t, nil, cp, seeks)
				br.Close()
			}
		})
	}
	ready("ready0", 2, nil)
	ready("ready1", 3, []int{4, 0})
	ready("ready2", 5, []int{2})
	add("short", true, func(w *world) func(a *actor) {
		return func(a *actor) {
			br, err := w.r.CreateBatchReader(&api.BatchOption{RowSize: 1})
			a.say("%v", err)
			if err == nil {
				br.Close()
			}
		}
	})
	add("meta", true, func(w *world) func(a *actor) {
		return func(a *actor) {
			a.say("%d %s", w.r.NumberOfRows(), showSchema(w.r.GetSchema()))
			point(0)
			a.say("%v", w.r.GetStatistics())
			point(0)
			v, err := w.r.GetSchema().CreateVector(&api.BatchOption{RowSize: 3})
			a.say("%s %v", showVec(v), err)
			a.say("%v", w.r.GetReaderOptions())
		}
	})
	return m
}

func newWorld(im *image, shared bool, dir string) (w *world, err error) {
	b := append([]byte(nil), im.data...)
	w = &world{im: im, f: newSfile(b), dir: dir}
	if shared {
		var f *sfile
		if f, err = w.open(); err == nil {
			w.r, err = orc.VerifReader(f)
		}
	}
	return
}

func (w *world) done() {
	if w.dir != "" && w.r != nil {
		w.r.Close()
	}
}

type interResult struct {
	Fail                     string
	Schedules, Steps, States int
	Bound, Points            int
	Whole                    bool
}

// explore runs a scenario under every schedule within the preemption bound that the budget of schedules allows.
func explore(sc scenario, budget int) (res interResult) {
	im := interImages()[sc.im]
	rs := roles()
	fail := func(format string, x ...interface{}) interResult {
		res.Fail = fmt.Sprintf(format, x...)
		return res
	}
	dir := ""
	if sc.os {
		var err error
		if dir, err = os.MkdirTemp("", "goorcmc"); err == nil {
			defer os.RemoveAll(dir)
			err = os.WriteFile(filepath.Join(dir, "in"), im.data, 0600)
		}
		if err != nil {
			return fail("%v", err)
		}
	}
	var last *world
	build := func() (fs []func(a *actor), err error) {
		if last != nil {
			last.done()
		}
		shared := false
		for _, r := range sc.roles {
			shared = shared || rs[r].shared
		}
		w, err := newWorld(im, shared, dir)
		if err != nil {
			return nil, err
		}
		last = w
		for _, r := range sc.roles {
			fs = append(fs, rs[r].f(w))
		}
		return
	}
	var want []string
	for i := range sc.roles {
		fs, err := build()
		if err != nil {
			return fail("%v", err)
		}
		want = append(want, strings.Join(solo(fs[i]), "\n"))
		if strings.Contains(want[i], "panic:") || strings.Contains(want[i], "reader:") || strings.Contains(want[i], "writer:") {
			return fail("%s alone: %s", sc.roles[i], want[i])
		}
	}
	s := &scheduler{level: sc.level, stall: make(chan struct{})}
	quit := make(chan struct{})
	defer close(quit)
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(300 * time.Millisecond):
				select {
				case s.stall <- struct{}{}:
				default:
				}
			}
		}
	}()
	states := map[string]bool{}
	one := func(choices []int) (trace []schedStep, bad string) {
		fs, err := build()
		if err != nil {
			return nil, err.Error()
		}
		before := raceErrors()
		trace, dead := s.run(fs, choices, 2000000)
		res.Schedules++
		res.Steps += len(trace)
		if dead {
			return trace, "the goroutines block each other, or go on without end"
		}
		if n := raceErrors(); n != before {
			bad = "unsynchronised access to common memory"
		}
		for i, a := range s.actors {
			if got := strings.Join(a.log, "\n"); got != want[i] {
				bad += fmt.Sprintf(" %s gives\n%s\nalone it gives\n%s", sc.roles[i], cut(got), cut(want[i]))
			}
		}
		at := make([]int, len(fs))
		for _, t := range trace {
			at[t.chose]++
			states[fmt.Sprint(at)] = true
		}
		return
	}
	preemptions := func(trace []schedStep, n int) (p int) {
		for _, t := range trace[:n] {
			if t.was >= 0 && t.chose != t.was {
				for _, e := range t.enabled {
					if e == t.was {
						p++
					}
				}
			}
		}
		return
	}
	trace, bad := one(nil)
	if bad != "" {
		return fail("schedule without preemption: %s", bad)
	}
	res.Points = len(trace)
	// the largest bound whose schedules fit the budget
	n, k := float64(len(trace)), float64(len(sc.roles))
	est, term := 1.0, 1.0
	for i := 2.0; i <= k; i++ {
		est *= i
	}
	term = est
	for res.Bound < 6 {
		term = term * (n - float64(res.Bound)) / float64(res.Bound+1) * (k - 1)
		if term <= 0 || est+term > float64(budget) {
			break
		}
		est += term
		res.Bound++
	}
	whole := true
	var dfs func(choices []int) string
	began := time.Now()
	dfs = func(choices []int) string {
		if s.waits > 60 || time.Since(began) > 80*time.Second { // goroutines that wait for each other take long
			whole = false
			return ""
		}
		trace, bad := one(choices)
		if bad != "" {
			var c []string
			for i, t := range trace {
				if t.was >= 0 && t.chose != t.was {
					c = append(c, fmt.Sprintf("%s at step %d", sc.roles[t.chose], i))
				}
			}
			return fmt.Sprintf("schedule of %d steps, first %s, then %s: %s", len(trace), sc.roles[trace[0].chose], strings.Join(c, ", "), bad)
		}
		for i := len(choices); i < len(trace); i++ {
			t := trace[i]
			p := preemptions(trace, i)
			for _, alt := range t.enabled {
				if alt == t.chose {
					continue
				}
				cost := p
				for _, e := range t.enabled {
					if e == t.was && alt != t.was {
						cost++
						break
					}
				}
				if cost > res.Bound {
					continue
				}
				next := make([]int, 0, i+1)
				for _, u := range trace[:i] {
					next = append(next, u.chose)
				}
				if x := dfs(append(next, alt)); x != "" {
					return x
				}
			}
		}
		return ""
	}
	res.Schedules, res.Steps = 0, 0
	if x := dfs(nil); x != "" {
		return fail("%s", x)
	}
	res.States = len(states)
	res.Whole = whole
	return
}

func cut(s string) string {
	if len(s) > 700 {
		return s[:700] + "..."
	}
	return s
}

func scenarios(thorough bool) (l []scenario) {
	add := func(level, im int, r ...string) {
		l = append(l, scenario{fmt.Sprintf("%s on file %d, level %d", strings.Join(r, " + "), im, level), level, im, r, false})
	}
	system := func(im int, r ...string) {
		l = append(l, scenario{fmt.Sprintf("%s on file %d of the system", strings.Join(r, " + "), im), 1, im, r, true})
	}
	pairs := func(names []string, f func(a, b string)) {
		for i, a := range names {
			for _, b := range names[i:] {
				f(a, b)
			}
		}
	}
	var schemas, writes []string
	for n := range roles() {
		if strings.HasPrefix(n, "schema") {
			schemas = append(schemas, n)
		}
		if strings.HasPrefix(n, "write") {
			writes = append(writes, n)
		}
	}
	sort.Strings(schemas)
	sort.Strings(writes)
	pairs(schemas, func(a, b string) { add(2, 0, a, b) })
	add(2, 0, "schema0", "schema1", "schema4")
	add(2, 0, "schema1", "schema1", "schema2")
	pairs(writes, func(a, b string) { add(1, 0, a, b) })
	pairs([]string{"write0", "write2", "write4", "write5"}, func(a, b string) { add(2, 0, a, b) })
	add(1, 0, "write0", "write1", "write2")
	add(1, 0, "write3", "write3", "write4")
	bs := []string{"batch0", "batch1", "batch2", "batch3", "ready0", "ready1", "short", "meta"}
	for im := range interImages() {
		im := im
		pairs(bs, func(a, b string) { add(1, im, a, b) })
		for _, p := range [][]string{{"read0", "read0"}, {"read0", "read1"}, {"read1", "batch1"}, {"read0", "meta"}, {"read0", "write1"}, {"batch0", "write3"}, {"ready1", "ready2"}, {"ready2", "ready2"},
			{"schema1", "batch0"}, {"schema1", "read0"}, {"schema2", "write1"}} {
			add(1, im, p...)
		}
		for _, p := range [][]string{{"ready0", "ready1", "ready2"}, {"batch0", "batch2", "ready1"}, {"read0", "write1", "batch1"}, {"short", "short", "ready1"}, {"schema1", "write0", "ready0"}} {
			add(1, im, p...)
		}
		for _, p := range [][]string{{"ready0", "ready1"}, {"batch0", "batch1"}, {"read0", "read1"}, {"meta", "batch0"}, {"write4", "ready1"}, {"schema1", "ready0"}, {"schema1", "write0"}} {
			add(2, im, p...)
		}
	}
	for im := range interImages() {
		im := im
		pairs(bs, func(a, b string) {
			if thorough || im == 1 || im == 4 {
				system(im, a, b)
			}
		})
		for _, p := range [][]string{{"read0", "read0"}, {"read0", "read1"}, {"read1", "batch1"}, {"read0", "write1"}, {"batch0", "write3"}, {"ready0", "ready1", "ready2"}, {"write0", "write2"}, {"write4", "write5"}, {"read0", "write1", "batch1"}} {
			system(im, p...)
		}
	}
	return
}

// C18: goroutines that use different things do not notice each other.
func C18(c *mcx.Ctx) {
	c.Assume("goroutines are switched at file operations, at calls of the public interface, around statements that use package variables, sync, atomic or channels, and (level 2) at function entries; accesses in between are covered by the race detector, which sees no synchronisation but the program's own")
	c.Assume("the preemption bound of a scenario is the largest whose estimated number of schedules fits the budget; see notes")
	if !raceBuild {
		panic("built without -race")
	}
	budget, small, fns, sys := 2500, 400, 800, 600
	if c.Thorough {
		budget, small, fns, sys = 300000, 10000, 30000, 20000
	}
	var schedules, points, short int64
	var bounds [8]int64
	for _, sc := range scenarios(c.Thorough) {
		sc := sc
		c.Group([]string{"", "file operations and shared state", "functions"}[sc.level])
		if sc.os {
			c.Group("files of the system")
		}
		c.Do(func() string { return sc.name }, func(t *mcx.T) {
			cmd := exec.Command("/proc/self/exe")
			budget := budget
			if sc.level == 2 {
				budget = fns
			}
			for _, r := range sc.roles {
				if r == "write1" || r == "write3" { // compressors are slow under the race detector
					budget = small
				}
			}
			if sc.os && budget > sys {
				budget = sys
			}
			j, _ := json.Marshal(map[string]interface{}{"name": sc.name, "level": sc.level, "im": sc.im, "roles": sc.roles, "budget": budget, "os": sc.os})
			cmd.Env = append(os.Environ(), "VERIF_CHILD=c18", "VERIF_SCENARIO="+string(j), "GOMAXPROCS=1", "GORACE=exitcode=0 suppress_equal_stacks=0 atexit_sleep_ms=0")
			var out, errb bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &errb
			err := cmd.Run()
			var r interResult
			if e := json.Unmarshal(out.Bytes(), &r); e != nil || err != nil {
				t.Failf("%v %v: %s %s", err, e, cut(out.String()), cut(errb.String()))
			}
			t.Step(r.Steps)
			for i := 0; i < r.States; i++ {
				t.StateS(fmt.Sprint(sc.name, i))
			}
			atomic.AddInt64(&schedules, int64(r.Schedules))
			atomic.AddInt64(&points, int64(r.Points))
			atomic.AddInt64(&bounds[r.Bound], 1)
			t.Info(fmt.Sprintf("%d schedules, bound %d, %d points", r.Schedules, r.Bound, r.Points))
			if r.Fail != "" {
				t.Failf("%s\n%s", r.Fail, cut(errb.String()))
			}
			if !r.Whole {
				c.Cut()
				c.Note("scenarios_cut_short", atomic.AddInt64(&short, 1))
			}
			n := atomic.LoadInt64(&schedules)
			c.Note("schedules", n)
			var by []string
			for i := range bounds {
				if k := atomic.LoadInt64(&bounds[i]); k > 0 {
					by = append(by, fmt.Sprintf("%d: %d", i, k))
				}
			}
			c.Note("scenarios_by_preemption_bound", strings.Join(by, ", "))
		})
	}
}

func childC18() {
	log.SetLevel(log.PanicLevel)
	var x struct {
		Name      string
		Level, Im int
		Roles     []string
		Budget    int
		OS        bool
	}
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_SCENARIO")), &x); err != nil {
		panic(err)
	}
	r := explore(scenario{x.Name, x.Level, x.Im, x.Roles, x.OS}, x.Budget)
	json.NewEncoder(os.Stdout).Encode(r)
}
