// Package mcx is the driver shared by all checks: it runs every case of a
// bounded, exhaustively enumerated space against the implementation, counts
// what was covered, confirms and records failures, and writes the evidence.
package mcx

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	log "github.com/sirupsen/logrus"
)

// T is handed to one execution of one case.
type T struct {
	c      *Ctx
	fails  []string
	steps  int64
	states []uint64
	info   string
}

type stop struct{}

// Failf records a property failure and ends the execution.
func (t *T) Failf(format string, a ...interface{}) {
	t.fails = append(t.fails, fmt.Sprintf(format, a...))
	panic(stop{})
}

// Step counts operations (transitions) executed on the implementation.
func (t *T) Step(n int) { t.steps += int64(n) }

// State records a canonical state reached (an outcome the oracle compared).
func (t *T) State(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	t.states = append(t.states, h.Sum64())
}
func (t *T) StateH(h uint64) { t.states = append(t.states, h) }
func (t *T) StateS(s string) { t.State([]byte(s)) }
func (t *T) Info(s string)   { t.info = s }
func (t *T) Thorough() bool  { return t.c.Thorough }
func (t *T) TB() *Ctx        { return t.c }

type Finding struct {
	Property string `json:"property"`
	Match    string `json:"match"` // regexp on the case id
	Msg      string `json:"msg"`   // regexp on the failure message
	What     string `json:"what"`
	re, rm   *regexp.Regexp
	seen     int64
}

type job struct {
	id  func() string
	fn  func(*T)
	seq int64
}

// Ctx is one run of one check.
type Ctx struct {
	Prop     string
	Tier     string
	Seed     int64
	Thorough bool
	Budget   time.Duration

	start  time.Time
	replay string
	verif  string
	jobs   chan job
	wg     sync.WaitGroup
	execs  int64
	steps  int64
	stop   int32
	capped int32
	mu     sync.Mutex
	shards [64]struct {
		sync.Mutex
		m map[uint64]struct{}
	}
	samples  []string
	groups   map[string]*int64
	group    string
	viol     []string
	findings []*Finding
	assume   []string
	notes    map[string]interface{}
	running  []atomic.Value
	matched  int64
	seq      int64 // of the last case made
	only     int64 // the one case to run
	slots    *slots
	super    string
}

type runInfo struct {
	j     job
	start time.Time
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

// Main runs the check named by -property (os.Args) and exits.
func Main(checks map[string]func(*Ctx)) {
	log.SetLevel(log.PanicLevel)
	log.SetOutput(devnull{})
	// somewhere else than the machine may be: nothing may depend on it unless it says so
	time.Local = time.FixedZone("here", 10*3600+1800)
	if l, err := time.LoadLocation("Australia/Lord_Howe"); err == nil {
		time.Local = l
	}
	prop, replay := "", ""
	for i := 1; i < len(os.Args); i++ {
		a := os.Args[i]
		if a == "-case" && i+1 < len(os.Args) {
			replay = os.Args[i+1]
			i++
		} else if a == "-replay" && i+1 < len(os.Args) {
			b, err := os.ReadFile(os.Args[i+1])
			if err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			var r struct{ Case string }
			if json.Unmarshal(b, &r) != nil {
				os.Exit(2)
			}
			replay = r.Case
			i++
		} else {
			prop = a
		}
	}
	f := checks[prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Thorough: tier == "thorough", start: time.Now(), replay: replay,
		verif: verifDir(), groups: map[string]*int64{}, notes: map[string]interface{}{}}
	c.Budget = 400 * time.Second
	if c.Thorough {
		c.Budget = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			c.Budget = time.Duration(n) * time.Second
		}
	}
	for i := range c.shards {
		c.shards[i].m = map[uint64]struct{}{}
	}
	c.loadFindings()
	debug.SetGCPercent(1000)
	debug.SetMemoryLimit(6 << 30)
	debug.SetMaxStack(256 << 20)
	n := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if c.super = os.Getenv("VERIF_SUPERVISED"); c.super == "" {
		c.crash(supervise(prop, n))
	}
	c.only, _ = strconv.ParseInt(os.Getenv("VERIF_SEQ"), 10, 64)
	if c.slots = openSlots(filepath.Join(c.super, "slots"), n); c.slots == nil {
		fmt.Fprintln(os.Stderr, "no slots")
		os.Exit(2)
	}
	c.jobs = make(chan job, 256)
	c.running = make([]atomic.Value, n)
	for i := 0; i < n; i++ {
		c.wg.Add(1)
		go c.worker(i)
	}
	go c.watchdog()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); ok {
					return
				}
				panic(r)
			}
		}()
		f(c)
	}()
	close(c.jobs)
	c.wg.Wait()
	c.finish()
}

// crash reports the case the process died of.
func (c *Ctx) crash(id, msg string) {
	c.matched = 1
	c.mu.Lock()
	c.report(id, msg, 1)
	c.mu.Unlock()
	c.finish()
}

type devnull struct{}

func (devnull) Write(p []byte) (int, error) { return len(p), nil }

func (c *Ctx) loadFindings() {
	f, err := os.Open(filepath.Join(c.verif, "known_findings.jsonl"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		l := strings.TrimSpace(s.Text())
		if l == "" || !strings.HasPrefix(l, "{") {
			continue
		}
		k := &Finding{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings:", err)
			os.Exit(2)
		}
		if k.Property != c.Prop {
			continue
		}
		k.re = regexp.MustCompile(k.Match)
		k.rm = regexp.MustCompile(k.Msg)
		c.findings = append(c.findings, k)
	}
}

// Group names the sub-space the following cases belong to (for the evidence).
func (c *Ctx) Group(name string) {
	c.mu.Lock()
	if c.groups[name] == nil {
		c.groups[name] = new(int64)
	}
	c.mu.Unlock()
	c.group = name
}

func (c *Ctx) Note(k string, v interface{}) { c.mu.Lock(); c.notes[k] = v; c.mu.Unlock() }
func (c *Ctx) Assume(s string)              { c.assume = append(c.assume, s) }

// Cut records that a case was not explored to its end.
func (c *Ctx) Cut() { atomic.StoreInt32(&c.capped, 1) }

// Stopped tells generators to end (violation limit or time budget).
func (c *Ctx) Stopped() bool { return atomic.LoadInt32(&c.stop) != 0 }

// Do schedules one case. id must identify the case uniquely and stably.
func (c *Ctx) Do(id func() string, fn func(*T)) {
	if c.Stopped() {
		panic(stop{})
	}
	if time.Since(c.start) > c.Budget {
		atomic.StoreInt32(&c.capped, 1)
		atomic.StoreInt32(&c.stop, 1)
		panic(stop{})
	}
	c.seq++
	if c.only != 0 && c.seq != c.only {
		return
	}
	g := c.group
	cnt := c.groups[g]
	idg := func() string { return g + "/" + id() }
	if c.replay != "" {
		if idg() != c.replay {
			return
		}
		atomic.AddInt64(&c.matched, 1)
	}
	if cnt != nil {
		atomic.AddInt64(cnt, 1)
	}
	if c.only != 0 {
		os.WriteFile(filepath.Join(c.super, "id"), []byte(idg()), 0600)
	}
	c.jobs <- job{idg, fn, c.seq}
}

func (c *Ctx) exec(j job) (t *T) {
	t = &T{c: c}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); ok {
				return
			}
			st := string(debug.Stack())
			// keep the frames of the code under test
			var keep []string
			for _, l := range strings.Split(st, "\n") {
				if strings.Contains(l, "/repo/") {
					keep = append(keep, strings.TrimSpace(l))
				}
				if len(keep) >= 4 {
					break
				}
			}
			t.fails = append(t.fails, fmt.Sprintf("panic: %v at %s", r, strings.Join(keep, " < ")))
		}
	}()
	j.fn(t)
	return
}

func (c *Ctx) worker(i int) {
	defer c.wg.Done()
	for j := range c.jobs {
		if c.Stopped() {
			continue
		}
		c.running[i].Store(runInfo{j, time.Now()})
		c.slots.set(i, j.seq)
		t := c.exec(j)
		atomic.AddInt64(&c.execs, 1)
		atomic.AddInt64(&c.steps, t.steps)
		for _, h := range t.states {
			s := &c.shards[h%64]
			s.Lock()
			s.m[h] = struct{}{}
			s.Unlock()
		}
		if len(t.fails) != 0 {
			c.failed(j, t)
		} else if n := atomic.LoadInt64(&c.execs); n&(n-1) == 0 {
			c.mu.Lock()
			if len(c.samples) < 24 {
				s := j.id()
				if t.info != "" {
					s += " => " + t.info
				}
				if len(s) > 400 {
					s = s[:400] + "..."
				}
				c.samples = append(c.samples, s)
			}
			c.mu.Unlock()
		}
		c.slots.set(i, 0)
		c.running[i].Store(runInfo{})
	}
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		if rss() > 20<<30 {
			// unbounded allocation: blame the case that has been running longest
			var w *runInfo
			for i := range c.running {
				if ri, ok := c.running[i].Load().(runInfo); ok && ri.j.fn != nil && (w == nil || ri.start.Before(w.start)) {
					r := ri
					w = &r
				}
			}
			if w != nil {
				c.mu.Lock()
				c.report(w.j.id(), "memory use above 20 GB while this case was running", 1)
				c.mu.Unlock()
				c.finish()
			}
		}
		for i := range c.running {
			ri, ok := c.running[i].Load().(runInfo)
			if ok && ri.j.fn != nil && time.Since(ri.start) > 150*time.Second {
				c.mu.Lock()
				c.report(ri.j.id(), "no result after 150 s: endless loop or deadlock", 1)
				c.mu.Unlock()
				c.finish()
			}
		}
	}
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func (c *Ctx) failed(j job, t *T) {
	id := j.id()
	msg := strings.Join(t.fails, "; ")
	for _, k := range c.findings {
		if k.re.MatchString(id) && k.rm.MatchString(msg) {
			atomic.AddInt64(&k.seen, 1)
			return
		}
	}
	// confirm: the same case must fail again
	again := 0
	for i := 0; i < 5; i++ {
		if t2 := c.exec(j); len(t2.fails) != 0 {
			again++
		}
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if again == 0 {
		fmt.Printf("NOTE unconfirmed failure of %s: %s\n", id, msg)
		return
	}
	c.report(id, msg, again)
	if len(c.viol) >= c.maxViol() {
		atomic.StoreInt32(&c.stop, 1)
	}
}

func (c *Ctx) maxViol() int {
	if s := os.Getenv("VERIF_MAXVIOL"); s != "" {
		n, _ := strconv.Atoi(s)
		return n
	}
	return 5
}

func (c *Ctx) report(id, msg string, again int) {
	if len(c.viol) >= c.maxViol() {
		return
	}
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.Prop, len(c.viol)))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.Prop, "tier": c.Tier, "case": id, "failure": msg, "failed_again_of_5": again,
		"how": "VERIF_TIER=" + c.Tier + " ./check.sh " + c.Prop + " -replay " + path,
	}, "", " ")
	os.WriteFile(path, b, 0644)
	c.viol = append(c.viol, id)
	if len(id) > 600 {
		id = id[:600] + "..."
	}
	if len(msg) > 1200 {
		msg = msg[:1200] + "..."
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n  case %s\n  %s\n", c.Prop, path, id, msg)
}

var finishOnce sync.Once

func (c *Ctx) finish() {
	finishOnce.Do(func() {
		states := 0
		for i := range c.shards {
			c.shards[i].Lock()
			states += len(c.shards[i].m)
			c.shards[i].Unlock()
		}
		c.mu.Lock()
		groups := map[string]int64{}
		for k, v := range c.groups {
			groups[k] = atomic.LoadInt64(v)
		}
		sort.Strings(c.samples)
		if len(c.samples) == 0 {
			c.samples = []string{"(none passed)"}
		}
		cov := map[string]interface{}{
			"states": states, "transitions": atomic.LoadInt64(&c.steps),
			"traces_validated_against_impl": atomic.LoadInt64(&c.execs),
			"samples":                       c.samples, "cases_per_space": groups,
			"exhaustive": c.capped == 0 && len(c.viol) == 0,
		}
		for k, v := range c.notes {
			cov[k] = v
		}
		var kf []string
		for _, k := range c.findings {
			if k.seen > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, k.What)
				kf = append(kf, fmt.Sprintf("%s (%d cases)", k.What, k.seen))
			}
		}
		if kf != nil {
			cov["known_findings"] = kf
		}
		ev := map[string]interface{}{
			"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": "model_checking", "coverage": cov,
			"wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
		}
		if c.assume != nil {
			ev["assumptions"] = c.assume
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		if c.replay == "" {
			os.MkdirAll(filepath.Join(c.verif, "evidence"), 0755)
			if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.Prop+".json"), append(b, '\n'), 0644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
		} else if c.matched == 0 {
			fmt.Println("replay: case not found in this tier:", c.replay)
			os.Exit(2)
		}
		fmt.Printf("%s %s: executions=%d states=%d transitions=%d exhaustive=%v violations=%d wall=%.1fs\n", c.Prop, c.Tier,
			c.execs, states, c.steps, c.capped == 0, len(c.viol), time.Since(c.start).Seconds())
		if len(c.viol) > 0 {
			os.Exit(1)
		}
		os.Exit(0)
	})
}

// Seqs calls f with every sequence over 0..k-1 of length lo..hi (shorter first).
// The slice is fresh for each call.
func Seqs(k, lo, hi int, f func([]int)) {
	for n := lo; n <= hi; n++ {
		idx := make([]int, n)
		for {
			f(append([]int(nil), idx...))
			i := n - 1
			for ; i >= 0; i-- {
				idx[i]++
				if idx[i] < k {
					break
				}
				idx[i] = 0
			}
			if i < 0 {
				break
			}
		}
	}
}

// Compositions calls f with every ordered list of positive integers summing to n.
func Compositions(n int, f func([]int)) {
	var rec func(left int, cur []int)
	rec = func(left int, cur []int) {
		if left == 0 {
			f(append([]int(nil), cur...))
			return
		}
		for i := 1; i <= left; i++ {
			rec(left-i, append(cur, i))
		}
	}
	rec(n, nil)
}
