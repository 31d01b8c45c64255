// Package kit is the case runner of the monitors: deterministic cases over a worker pool, violation collection,
// progress slots that survive a crash of the process, and measured coverage counts.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

// NewRand makes generator from the parts given.
func NewRand(parts ...uint64) *Rand {
	r := &Rand{s: 0x9e3779b97f4a7c15}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + (r.s << 6) + (r.s >> 2)
		r.U64()
	}
	return r
}

// U64 returns 64 random bits.
func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a number in [lo,hi].
func (r *Rand) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }

// Bool returns a fair bit.
func (r *Rand) Bool() bool { return r.U64()&1 == 1 }

// Chance is true in pct percent.
func (r *Rand) Chance(pct int) bool { return r.Intn(100) < pct }

// Perm returns a permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Pick returns one of the list.
func Pick[T any](r *Rand, list []T) T { return list[r.Intn(len(list))] }

// Case is one case being run.
type Case struct {
	R          *Rand
	Prop       string
	Group      string
	Index      int
	Thorough   bool
	ops        []string
	opsDropped int
	sig        uint64
	nontrivial bool
	counts     map[string]int64
	maxes      map[string]int64
	sets       map[string]map[uint64]struct{}
	slot       *slot
	seed       uint64
	Scratch    string // scratch directory of the run
}

type violation struct {
	Group string   `json:"group"`
	Index int      `json:"index"`
	Key   string   `json:"key"`
	Msg   string   `json:"msg"`
	Ops   []string `json:"ops"`
	Stack string   `json:"stack,omitempty"`
}

type failPanic struct{ key, msg string }

// Fail reports a violation.
func (c *Case) Fail(format string, args ...any) { panic(failPanic{"", fmt.Sprintf(format, args...)}) }

// FailKey reports a violation with a key that identifies it in the known findings file.
func (c *Case) FailKey(key string, format string, args ...any) {
	panic(failPanic{key, fmt.Sprintf(format, args...)})
}

// ResetRand starts the random choices of the case anew.
func (c *Case) ResetRand() { c.R = NewRand(c.seed, Hash(c.Prop), Hash(c.Group), uint64(c.Index)) }

var knownFindings map[string]bool

// Known tells if a finding is listed as known: workloads that are not about it then leave its trigger out.
func Known(key string) bool { return knownFindings[key] }

type skipPanic struct{ why string }

// Skip ends the case: what it needs to begin with does not work, which other properties are about.
func (c *Case) Skip(why string) { panic(skipPanic{why}) }

// Op logs an operation.
func (c *Case) Op(format string, args ...any) {
	if len(c.ops) >= 400 {
		c.opsDropped++
		copy(c.ops[200:], c.ops[201:])
		c.ops = c.ops[:len(c.ops)-1]
	}
	s := fmt.Sprintf(format, args...)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	c.ops = append(c.ops, s)
}

// Count adds to an event count.
func (c *Case) Count(name string, n int) { c.counts[name] += int64(n) }

// Max keeps the maximum of a measure.
func (c *Case) Max(name string, n int) {
	if int64(n) > c.maxes[name] {
		c.maxes[name] = int64(n)
	}
}

// Seen adds to a set of distinct things observed.
func (c *Case) Seen(name string, h uint64) {
	m := c.sets[name]
	if m == nil {
		m = map[uint64]struct{}{}
		c.sets[name] = m
	}
	m[h] = struct{}{}
}

// Sig mixes into the signature of the case.
func (c *Case) Sig(parts ...any) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%x|", c.sig)
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	c.sig = h.Sum64()
}

// NonTrivial marks the case.
func (c *Case) NonTrivial() { c.nontrivial = true }

// Hash of text.
func Hash(s string) uint64 { h := fnv.New64a(); h.Write([]byte(s)); return h.Sum64() }

// HashB of bytes.
func HashB(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// Try runs f and returns the value it panicked with, if any. Panics of Fail pass through.
func Try(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failPanic, skipPanic:
				panic(v)
			}
			p = r
			stack = string(debug.Stack())
		}
	}()
	f()
	return nil, ""
}

// NoPanic runs f; a panic is a violation.
func (c *Case) NoPanic(what string, f func()) {
	if p, st := Try(f); p != nil {
		c.Fail("%s panicked: %v\n%s", what, p, trimStack(st))
	}
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// Group is a family of cases.
type Group struct {
	Name     string
	Quick    int
	Thorough int
	Serial   bool // cases run one after another, with nothing else
	Run      func(c *Case)
}

// Check decides a property.
type Check struct {
	Rule   string
	Groups []Group
	Setup  func(scratch string) error
}

type slot struct {
	f   *os.File
	pos int64
}

func (s *slot) set(text string) {
	if s == nil || s.f == nil {
		return
	}
	b := make([]byte, 64)
	for i := range b {
		b[i] = ' '
	}
	copy(b[:63], text)
	b[63] = '\n'
	_, _ = s.f.WriteAt(b, s.pos)
}

type result struct {
	Rule        string           `json:"rule"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct_nontrivial"`
	Nontrivial  int64            `json:"nontrivial"`
	ByGroup     map[string]int64 `json:"by_group"`
	Counts      map[string]int64 `json:"counts"`
	Maxes       map[string]int64 `json:"maxes"`
	DistinctSet map[string]int   `json:"distinct_seen"`
	Samples     []any            `json:"samples"`
	Violations  []violation      `json:"violations"`
	Suppressed  []violation      `json:"suppressed"`
	Skipped     int64            `json:"skipped"`
	SkippedWhy  []string         `json:"skipped_why"`
}

// Args are extra arguments by name, given as -x name=value.
var Args = map[string]string{}

type argFlag struct{}

func (argFlag) String() string { return "" }
func (argFlag) Set(s string) error {
	k, v, _ := strings.Cut(s, "=")
	Args[k] = v
	return nil
}

// Main runs a check named on the command line.
func Main(checks map[string]Check) {
	var (
		name     = flag.String("check", "", "property")
		tier     = flag.String("tier", "quick", "tier")
		seed     = flag.Uint64("seed", 1, "seed")
		out      = flag.String("out", "", "result file")
		slots    = flag.String("slots", "", "progress file")
		only     = flag.String("only", "", "group:index, a single case")
		scratch  = flag.String("scratch", "", "scratch directory")
		workers  = flag.Int("workers", 0, "workers")
		known    = flag.String("known", "", "known finding keys, file with a line each")
		scalePct = flag.Int("scale", 100, "percentage of the cases")
		stuck    = flag.Int("stuck", 0, "seconds after which a case counts as stuck and ends the process")
	)
	flag.Var(argFlag{}, "x", "extra")
	flag.Parse()

	check, ok := checks[*name]
	if !ok {
		fmt.Fprintf(os.Stderr, "no check %q\n", *name)
		os.Exit(4)
	}
	if *workers <= 0 {
		*workers = runtime.GOMAXPROCS(0)
	}
	knownKeys := map[string]bool{}
	knownFindings = knownKeys
	if *known != "" {
		data, _ := os.ReadFile(*known)
		for _, l := range strings.Split(string(data), "\n") {
			if l != "" {
				knownKeys[l] = true
			}
		}
	}
	if *scratch == "" {
		d, err := os.MkdirTemp("", "zverif")
		if err != nil {
			panic(err)
		}
		*scratch = d
		defer os.RemoveAll(d)
	}
	if check.Setup != nil {
		if err := check.Setup(*scratch); err != nil {
			fmt.Fprintf(os.Stderr, "setup: %v\n", err)
			os.Exit(4)
		}
	}
	var slotFile *os.File
	if *slots != "" {
		var err error
		if slotFile, err = os.Create(*slots); err != nil {
			panic(err)
		}
	}

	res := &result{
		Rule: check.Rule, ByGroup: map[string]int64{}, Counts: map[string]int64{}, Maxes: map[string]int64{},
		DistinctSet: map[string]int{}, Samples: []any{}, Violations: []violation{}, Suppressed: []violation{},
	}
	var (
		mu   sync.Mutex
		sigs = map[uint64]struct{}{}
		sets = map[string]map[uint64]struct{}{}
		stop atomic.Bool
	)
	started := time.Now()
	var (
		runningMu sync.Mutex
		running   = map[int]time.Time{}
		runs      = map[int]string{}
	)
	if *stuck > 0 {
		go func() {
			for {
				time.Sleep(time.Second)
				runningMu.Lock()
				for w, since := range running {
					if time.Since(since) > time.Duration(*stuck)*time.Second {
						b := make([]byte, 1<<20)
						fmt.Fprintf(os.Stderr, "STUCK %s\n%s\n", runs[w], b[:runtime.Stack(b, true)])
						os.Exit(5)
					}
				}
				runningMu.Unlock()
			}
		}()
	}
	runCase := func(g *Group, i, worker int) {
		begun := time.Now()
		runningMu.Lock()
		running[worker], runs[worker] = begun, fmt.Sprintf("%s:%d", g.Name, i)
		runningMu.Unlock()
		c := &Case{
			seed: *seed, Prop: *name, Group: g.Name, Index: i,
			Thorough: *tier == "thorough", counts: map[string]int64{}, maxes: map[string]int64{},
			sets: map[string]map[uint64]struct{}{}, Scratch: filepath.Join(*scratch, "w"+strconv.Itoa(worker)),
		}
		c.ResetRand()
		c.sig = Hash(g.Name)
		var s *slot
		if slotFile != nil {
			s = &slot{f: slotFile, pos: int64(worker) * 64}
			s.set(fmt.Sprintf("RUN %s:%d %d", g.Name, i, time.Since(started).Milliseconds()))
		}
		c.slot = s
		var viol *violation
		var skipped string
		func() {
			defer func() {
				if r := recover(); r != nil {
					if sp, ok := r.(skipPanic); ok {
						skipped = sp.why
						return
					}
					viol = &violation{Group: g.Name, Index: i}
					if fp, ok := r.(failPanic); ok {
						viol.Key, viol.Msg = fp.key, fp.msg
					} else {
						viol.Msg = fmt.Sprintf("panic: %v", r)
						viol.Stack = trimStack(string(debug.Stack()))
					}
				}
			}()
			g.Run(c)
		}()
		s.set("IDLE")
		runningMu.Lock()
		delete(running, worker)
		runningMu.Unlock()
		mu.Lock()
		defer mu.Unlock()
		if ms := time.Since(begun).Milliseconds(); ms > res.Maxes["slowest_case_ms"] {
			res.Maxes["slowest_case_ms"] = ms
		}
		res.Evaluations++
		res.ByGroup[g.Name]++
		if skipped != "" {
			res.Skipped++
			if len(res.SkippedWhy) < 5 {
				res.SkippedWhy = append(res.SkippedWhy, fmt.Sprintf("%s:%d %s", g.Name, i, skipped))
			}
		}
		if c.nontrivial && skipped == "" {
			res.Nontrivial++
			sigs[c.sig] = struct{}{}
		}
		for k, v := range c.counts {
			res.Counts[k] += v
		}
		for k, v := range c.maxes {
			if v > res.Maxes[k] {
				res.Maxes[k] = v
			}
		}
		for k, m := range c.sets {
			if sets[k] == nil {
				sets[k] = map[uint64]struct{}{}
			}
			for h := range m {
				sets[k][h] = struct{}{}
			}
		}
		if i < 2 && len(c.ops) > 0 && len(res.Samples) < 24 {
			ops := c.ops
			if len(ops) > 12 {
				ops = append(append([]string{}, ops[:12]...), fmt.Sprintf("... %d more", len(c.ops)+c.opsDropped-12))
			}
			for k := range ops {
				if len(ops[k]) > 240 {
					ops = append([]string{}, ops...)
					ops[k] = ops[k][:240] + "..."
				}
			}
			res.Samples = append(res.Samples, map[string]any{"case": fmt.Sprintf("%s:%d", g.Name, i), "ops": ops})
		}
		if viol != nil {
			viol.Ops = c.ops
			if viol.Key != "" && knownKeys[viol.Key] {
				if len(res.Suppressed) < 50 {
					res.Suppressed = append(res.Suppressed, *viol)
				}
			} else {
				res.Violations = append(res.Violations, *viol)
				if len(res.Violations) >= 5 {
					stop.Store(true)
				}
			}
		}
	}

	if *only != "" {
		gname, idxs, _ := strings.Cut(*only, ":")
		i, _ := strconv.Atoi(idxs)
		for k := range check.Groups {
			if check.Groups[k].Name == gname {
				runCase(&check.Groups[k], i, 0)
			}
		}
	} else {
		type job struct {
			g *Group
			i int
		}
		var serial, parallel []job
		for k := range check.Groups {
			g := &check.Groups[k]
			n := g.Quick
			if *tier == "thorough" {
				n = g.Thorough
			}
			if *scalePct != 100 && n > 20 {
				if n = n**scalePct/100 + 1; *scalePct > 100 && n > g.Thorough {
					n = g.Thorough
				}
			}
			for i := 0; i < n; i++ {
				if g.Serial {
					serial = append(serial, job{g, i})
				} else {
					parallel = append(parallel, job{g, i})
				}
			}
		}
		// interleave groups so that long cases of one group do not all come last
		order := parallel
		var next atomic.Int64
		var wg sync.WaitGroup
		for w := 0; w < *workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for !stop.Load() {
					n := int(next.Add(1)) - 1
					if n >= len(order) {
						return
					}
					runCase(order[n].g, order[n].i, w)
				}
			}(w)
		}
		wg.Wait()
		for _, j := range serial {
			if stop.Load() {
				break
			}
			runCase(j.g, j.i, 0)
		}
	}
	res.Distinct = len(sigs)
	for k, m := range sets {
		res.DistinctSet[k] = len(m)
	}
	sort.SliceStable(res.Violations, func(a, b int) bool { return len(res.Violations[a].Ops) < len(res.Violations[b].Ops) })
	data, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		panic(err)
	}
	if *out != "" {
		if err := os.WriteFile(*out, data, 0o644); err != nil {
			panic(err)
		}
	} else {
		os.Stdout.Write(data)
	}
	if len(res.Violations) > 0 {
		os.Exit(1)
	}
}

// Ops returns the operations logged.
func (c *Case) Ops() []string { return append([]string{}, c.ops...) }

// SetOps replaces the operations logged.
func (c *Case) SetOps(ops []string) { c.ops = ops }

// Fork makes a case of its own inside of a case, for what runs beside other things.
func (c *Case) Fork(seed uint64) *Case {
	return &Case{
		R: NewRand(seed, 0xf0), Prop: c.Prop, Group: c.Group, Index: c.Index, Thorough: c.Thorough, seed: c.seed,
		counts: map[string]int64{}, maxes: map[string]int64{}, sets: map[string]map[uint64]struct{}{}, Scratch: c.Scratch,
	}
}

// Join adds what a fork counted.
func (c *Case) Join(f *Case) {
	for k, v := range f.counts {
		c.counts[k] += v
	}
	for k, v := range f.maxes {
		if v > c.maxes[k] {
			c.maxes[k] = v
		}
	}
	for k, m := range f.sets {
		for h := range m {
			c.Seen(k, h)
		}
	}
}

// NewCase makes a case outside of a run.
func NewCase(prop, scratch string, seed uint64) *Case {
	return (&Case{Prop: prop, Scratch: scratch}).Fork(seed)
}

// Guard runs f and tells how it deviated: failed by Fail or by a panic, or skipped.
func Guard(f func()) (failed, skipped string) {
	defer func() {
		switch v := recover().(type) {
		case nil:
		case failPanic:
			failed = v.msg
		case skipPanic:
			skipped = v.why
		default:
			failed = fmt.Sprintf("panic: %v\n%s", v, trimStack(string(debug.Stack())))
		}
	}()
	f()
	return "", ""
}
