package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/storage"
)

// ---- C27 --------------------------------------------------------------------

// plan is what one actor does to the objects of its own: it is the same whether others are around or not.
type plan struct {
	Kind  string
	Seed  uint64
	Steps int
	Alpha int
}

// actor works off a plan step by step.
type actor struct {
	c    *kit.Case
	step func()
	end  func()
	log  uint64 // everything answered so far
}

func (a *actor) said(format string, args ...any) {
	a.log = a.log*1099511628211 ^ kit.Hash(fmt.Sprintf(format, args...))
}

func newActor(c *kit.Case, p plan) *actor {
	a := &actor{c: c}
	r := c.R
	switch p.Kind {
	case "index":
		w := newWorld(c)
		w.strict = true
		w.start(r.Range(1, 8))
		w.alpha = alphabets[p.Alpha%len(alphabets)]
		m := mix{reloads: 4, optimizes: 5, failures: 6, maxSet: 4, maxLen: 6}
		a.step = func() {
			w.step(m)
			a.said("%d %d", w.idx.NodesCount(), w.idx.WordsCount())
		}
		a.end = func() {
			w.all(0)
			w.tree()
			a.said("%s", strings.Join(observe(w.idx), "\n"))
			c.Count("index_answers_compared", len(w.list)+len(w.tags))
		}
	case "large":
		w := newWorld(c)
		w.strict = true
		w.alpha = alphabets[3]
		pool := w.bigTags(40, 200)
		a.step = func() {
			w.grow(len(w.words)+500, pool)
			a.said("%d %d", w.idx.NodesCount(), w.idx.WordsCount())
		}
		a.end = func() {
			w.all(400)
			w.tree()
			c.Max("nodes", w.idx.NodesCount())
			c.Count("index_answers_compared", len(w.list))
		}
	case "tags":
		reg := dag.NewIndex()
		known := map[string]int{}
		a.step = func() {
			name := tagName(r.Intn(120))
			switch r.Intn(4) {
			case 0, 1:
				if len(known) >= 250 {
					return
				}
				parent := ""
				if r.Bool() {
					parent = tagName(r.Intn(120))
				}
				id := reg.Index(dag.TagName(name), dag.TagName(parent))
				want, ok := known[name]
				if !ok {
					want = len(known)
					known[name] = want
				}
				if int(id) != want {
					c.Fail("tag %q got id %d, expected %d", name, id, want)
				}
				a.said("I%s %d", name, id)
			case 2:
				id, ok := reg.Find(dag.TagName(name))
				if want, has := known[name]; ok != has || has && int(id) != want {
					c.Fail("finding tag %q: %d %v, expected %d %v", name, id, ok, want, has)
				}
			default:
				t, ok := reg.Get(dag.TagID(r.Intn(140)))
				a.said("G%q %q %v", t.Name, t.Parent, ok)
			}
			c.Count("registry_answers", 1)
		}
		a.end = func() {
			for i := 0; i < reg.Len(); i++ {
				t, ok := reg.Get(dag.TagID(i))
				a.said("%q %q %v", t.Name, t.Parent, ok)
				if known[string(t.Name)] != i {
					c.Fail("tag %d is %q, which was registered as %d", i, t.Name, known[string(t.Name)])
				}
			}
			if reg.Len() != len(known) {
				c.Fail("%d tags, expected %d", reg.Len(), len(known))
			}
		}
	case "storage":
		var t8 storage.Collection8x8
		var t16 storage.Collection16
		m8, m16 := map[string]storage.ID16{}, map[string]storage.ID32{}
		a.step = func() {
			n := r.Range(1, 4)
			s8, s16 := make(storage.Set8, n), make(storage.Set16, n)
			for i := range s8 {
				v := r.Intn(9)
				s8[i], s16[i] = storage.ID8(v), storage.ID16(v*257)
			}
			s8.Sort()
			s16.Sort()
			k := fmt.Sprint(s8)
			w8, ok8 := m8[k]
			w16, ok16 := m16[k]
			f8, found8 := t8.Find(s8)
			f16, found16 := t16.Find(s16)
			if found8 != ok8 || found16 != ok16 || ok8 && f8 != w8 || ok16 && f16 != w16 {
				c.Fail("finding %v: %v %v and %v %v, expected %v %v and %v %v", s8, f8, found8, f16, found16, w8, ok8, w16, ok16)
			}
			if r.Bool() {
				i8, i16 := t8.Index(append(storage.Set8{}, s8...)), t16.Index(append(storage.Set16{}, s16...))
				if ok8 && (i8 != w8 || i16 != w16) {
					c.Fail("indexing %v again: %v and %v, expected %v and %v", s8, i8, i16, w8, w16)
				}
				m8[k], m16[k] = i8, i16
				a.said("%v %v %v", s8, i8, i16)
				g8, _ := t8.Get(i8)
				g16, _ := t16.Get(i16)
				if !g8.EqualTo(s8) || !g16.EqualTo(s16) {
					c.Fail("%v resolves to %v and %v", s8, g8, g16)
				}
			}
			c.Count("registry_answers", 1)
		}
		a.end = func() {
			for k, id := range m8 {
				if s, ok := t8.Get(id); !ok || fmt.Sprint(s) != k {
					c.Fail("set %s resolves to %v %v", k, s, ok)
				}
			}
		}
	case "sets":
		var tsi index.TagSetIndex
		var vi index.VariantsIndex
		ms, ml := map[string]index.TagSetID{}, map[string]index.VariantID{}
		a.step = func() {
			s, l := index.TagSet{}, index.TagSetIDCollection{}
			for _, v := range r.Perm(9)[:r.Range(1, 4)] {
				s, l = append(s, dag.TagID(v)), append(l, index.TagSetID(v))
			}
			k := setKey(s)
			is, il := tsi.Index(append(index.TagSet{}, s...)), vi.Index(append(index.TagSetIDCollection{}, l...))
			if w, ok := ms[k]; ok && (w != is || ml[k] != il) {
				c.Fail("registering %v again: %#x and %#x, expected %#x and %#x", s, is, il, w, ml[k])
			}
			ms[k], ml[k] = is, il
			a.said("%s %d %d", k, is, il)
			if g, ok := tsi.Get(is); !ok || setKey(g) != k {
				c.Fail("tag set %v registered as %#x resolves to %v %v", s, is, g, ok)
			}
			if g := vi.Get(il); listKey(g) != listKey(l) {
				c.Fail("list %v registered as %#x resolves to %v", l, il, g)
			}
			c.Count("registry_answers", 1)
		}
		a.end = func() {
			for k, id := range ms {
				if g, ok := tsi.Get(id); !ok || setKey(g) != k {
					c.Fail("tag set %s registered as %#x resolves to %v %v", k, id, g, ok)
				}
			}
		}
	}
	return a
}

// alone works off the plan given as JSON in a process where nothing else happens.
func alone(args []string) {
	logging.MustInit()
	var p plan
	if err := json.Unmarshal([]byte(args[0]), &p); err != nil {
		fmt.Println("HARNESS", err)
		os.Exit(11)
	}
	c := kit.NewCase("C27", os.TempDir(), p.Seed)
	failed, skipped := kit.Guard(func() {
		a := newActor(c, p)
		for i := 0; i < p.Steps; i++ {
			a.step()
		}
		a.end()
		fmt.Printf("ALONE %x\n", a.log)
	})
	if failed+skipped != "" {
		fmt.Println("BROKEN", failed, skipped)
	}
}

// cold works off all plans at once in a process where nothing else happened before.
func cold(args []string) {
	logging.MustInit()
	n := len(args)
	plans, actors, failed, skipped := make([]plan, n), make([]*actor, n), make([]string, n), make([]string, n)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, arg := range args {
		if err := json.Unmarshal([]byte(arg), &plans[i]); err != nil {
			fmt.Println("HARNESS", err)
			os.Exit(11)
		}
		wg.Add(1)
		go func(i int, c *kit.Case) {
			defer wg.Done()
			<-start
			failed[i], skipped[i] = kit.Guard(func() {
				actors[i] = newActor(c, plans[i])
				for k := 0; k < plans[i].Steps; k++ {
					actors[i].step()
				}
				actors[i].end()
			})
		}(i, kit.NewCase("C27", os.TempDir(), plans[i].Seed))
	}
	close(start)
	wg.Wait()
	for i := range plans {
		if failed[i]+skipped[i] != "" {
			fmt.Printf("BROKEN %d %.1000q %.300q\n", i, failed[i], skipped[i])
		} else {
			fmt.Printf("COLD %d %x\n", i, actors[i].log)
		}
	}
}

// coldCase lets the actors begin all at once in a process of their own.
func coldCase(c *kit.Case) {
	plans := randomPlans(c, c.R.Range(2, 6), 40)
	args := []string{"cold"}
	for _, p := range plans {
		arg, _ := json.Marshal(p)
		args = append(args, string(arg))
	}
	cmd := exec.Command(kit.Args["self"], args...)
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 halt_on_error=0 exitcode=0")
	timer := time.AfterFunc(100*time.Second, func() {
		if cmd.Process != nil {
			_ = cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	logs := map[int]string{}
	for i, p := range plans {
		log, ok := runAlone(c, p)
		if !ok {
			c.Skip("does not work alone: " + log)
		}
		logs[i] = log
	}
	if k := strings.Index(stderr.String(), "WARNING: DATA RACE"); k >= 0 && strings.Contains(stderr.String()[k:], "gomorphy") {
		c.Fail("%d actors beginning at once, each with objects of its own: data race: %.3000s", len(plans), stderr.String()[k:])
	}
	if err != nil {
		c.Fail("%d actors beginning at once, each with objects of its own, end with %v: %.3000s", len(plans), err, stderr.String())
	}
	for _, line := range strings.Split(strings.TrimSpace(stdout.String()), "\n") {
		var i int
		var log string
		if n, _ := fmt.Sscanf(line, "COLD %d %s", &i, &log); n == 2 {
			if log != logs[i] {
				c.Fail("actor %d of %d (%s), beginning at once with the others, got answers other than when it is alone", i, len(plans), plans[i].Kind)
			}
			delete(logs, i)
		} else if strings.HasPrefix(line, "BROKEN") {
			c.Fail("actors beginning at once, each with objects of its own, which all work alone: %s", line)
		}
	}
	if len(logs) > 0 {
		c.Skip("no answers: " + stdout.String())
	}
	c.Count("cold_starts", 1)
	c.NonTrivial()
}

// runAlone gives what the plan yields in a process of its own; ok is false if it does not work even there.
func runAlone(c *kit.Case, p plan) (log string, ok bool) {
	arg, _ := json.Marshal(p)
	cmd := exec.Command(kit.Args["self"], "alone", string(arg))
	cmd.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0")
	timer := time.AfterFunc(60*time.Second, func() {
		if cmd.Process != nil {
			_ = cmd.Process.Kill()
		}
	})
	defer timer.Stop()
	out, err := cmd.CombinedOutput()
	text := string(bytes.TrimSpace(out))
	if err != nil || !strings.HasPrefix(text, "ALONE ") {
		return text, false
	}
	c.Count("plans_run_alone", 1)
	return strings.TrimPrefix(text, "ALONE "), true
}

func randomPlans(c *kit.Case, n, steps int) []plan {
	kinds := []string{"index", "index", "index", "tags", "storage", "sets"}
	one := c.R.Chance(60)
	kind, alpha := kit.Pick(c.R, kinds), c.R.Intn(len(alphabets))
	plans := make([]plan, n)
	for i := range plans {
		if !one {
			kind = kit.Pick(c.R, kinds)
		}
		plans[i] = plan{Kind: kind, Seed: c.R.U64() >> 12, Steps: c.R.Range(steps/4, steps), Alpha: alpha}
		if c.R.Chance(15) {
			plans[i].Alpha = c.R.Intn(len(alphabets))
		}
		c.Sig(plans[i])
		c.Op("actor %d: %+v", i, plans[i])
	}
	return plans
}

// judge compares what the actors saw with what they see alone.
func judge(c *kit.Case, how string, plans []plan, actors []*actor, failed, skipped []string) {
	for i, p := range plans {
		if skipped[i] != "" {
			c.Skip(skipped[i])
		}
		log, ok := runAlone(c, p)
		if !ok {
			c.Skip("does not work alone: " + log)
		}
		if failed[i] != "" {
			c.Fail("actor %d of %d (%s), working on its own objects %s, which works when it is alone: %s", i, len(plans), p.Kind, how, failed[i])
		}
		if got := fmt.Sprintf("%x", actors[i].log); got != log {
			c.Fail("actor %d of %d (%s), working on its own objects %s, got answers other than when it is alone", i, len(plans), p.Kind, how)
		}
		c.Join(actors[i].c)
	}
	c.NonTrivial()
}

// copyOf makes a world of the same content over another index.
func (w *world) copyOf(idx *index.Index, c *kit.Case) *world {
	n := newWorld(c)
	n.idx, n.alpha, n.strict = idx, w.alpha, w.strict
	n.tags, n.list, n.wlist = append([]tagDef{}, w.tags...), append([]string{}, w.list...), append([]string{}, w.wlist...)
	for k, v := range w.tagIdx {
		n.tagIdx[k] = v
	}
	for k, v := range w.nodes {
		n.nodes[k] = v
	}
	for k, m := range w.kids {
		n.kids[k] = map[rune]bool{}
		for l := range m {
			n.kids[k][l] = true
		}
	}
	for k, m := range w.words {
		n.words[k] = map[string]bool{}
		for s := range m {
			n.words[k][s] = true
		}
	}
	return n
}

func c27() kit.Check {
	return kit.Check{
		Rule:  "A case gives 2 to 6 actors (index, tag registry, set collections, tag set and list registries) objects of their own and lets them work in turns, in goroutines of their own at the same time (with the race detector in the race build), all beginning at once in a new process, or on indexes loaded from the same bytes; every actor checks each answer against its own model, and all its answers must be those it gets in a process where it is alone. Non-trivial: every case; distinct by plans.",
		Setup: initLogging,
		Groups: []kit.Group{
			{Name: "turns", Quick: 160, Thorough: 4000, Run: func(c *kit.Case) {
				plans := randomPlans(c, c.R.Range(2, 4), 60)
				n := len(plans)
				actors, failed, skipped, left := make([]*actor, n), make([]string, n), make([]string, n), make([]int, n)
				var alive []int
				for i := range plans {
					i := i
					failed[i], skipped[i] = kit.Guard(func() { actors[i] = newActor(c.Fork(plans[i].Seed), plans[i]) })
					left[i] = plans[i].Steps
					alive = append(alive, i)
				}
				for len(alive) > 0 {
					k := c.R.Intn(len(alive))
					i := alive[k]
					if failed[i]+skipped[i] != "" || left[i] == 0 {
						alive = append(alive[:k], alive[k+1:]...)
						continue
					}
					left[i]--
					failed[i], skipped[i] = kit.Guard(actors[i].step)
					c.Count("turns", 1)
				}
				for i := range actors {
					if failed[i]+skipped[i] == "" {
						failed[i], skipped[i] = kit.Guard(actors[i].end)
					}
				}
				judge(c, "in turns with the others", plans, actors, failed, skipped)
			}},
			{Name: "goroutines", Quick: 60, Thorough: 1500, Serial: true, Run: func(c *kit.Case) {
				plans := randomPlans(c, c.R.Range(2, 6), 80)
				n := len(plans)
				actors, failed, skipped := make([]*actor, n), make([]string, n), make([]string, n)
				var wg sync.WaitGroup
				start := make(chan struct{})
				for i := range plans {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						<-start
						failed[i], skipped[i] = kit.Guard(func() {
							actors[i] = newActor(c.Fork(plans[i].Seed), plans[i])
							for k := 0; k < plans[i].Steps; k++ {
								actors[i].step()
								if k%5 == i%5 {
									runtime.Gosched()
								}
							}
							actors[i].end()
						})
					}(i)
				}
				close(start)
				wg.Wait()
				c.Count("goroutines", n)
				judge(c, "at the same time as the others", plans, actors, failed, skipped)
			}},
			{Name: "cold", Quick: 10, Thorough: 400, Run: coldCase},
			{Name: "large", Quick: 2, Thorough: 12, Serial: true, Run: func(c *kit.Case) {
				// two or three large indexes, growing in turns or at the same time
				n, steps := c.R.Range(2, 3), c.R.Range(6, 16)
				if c.Index%2 == 1 && !raceBuild {
					steps = 54
				}
				plans := make([]plan, n)
				for i := range plans {
					plans[i] = plan{Kind: "large", Seed: c.R.U64() >> 12, Steps: steps}
					c.Sig(plans[i])
				}
				actors, failed, skipped := make([]*actor, n), make([]string, n), make([]string, n)
				var wg sync.WaitGroup
				together := raceBuild || c.R.Bool()
				if together {
					for i := range plans {
						wg.Add(1)
						go func(i int) {
							defer wg.Done()
							failed[i], skipped[i] = kit.Guard(func() {
								actors[i] = newActor(c.Fork(plans[i].Seed), plans[i])
								for k := 0; k < steps; k++ {
									actors[i].step()
								}
								actors[i].end()
							})
						}(i)
					}
					wg.Wait()
				} else {
					for i := range plans {
						actors[i] = newActor(c.Fork(plans[i].Seed), plans[i])
					}
					for k := 0; k <= steps; k++ {
						for i := range plans {
							if failed[i]+skipped[i] == "" && k < steps {
								failed[i], skipped[i] = kit.Guard(actors[i].step)
							} else if failed[i]+skipped[i] == "" {
								failed[i], skipped[i] = kit.Guard(actors[i].end)
							}
						}
					}
				}
				c.Op("%d large indexes of %d words, at the same time %v", n, steps*500, together)
				judge(c, "next to other large ones", plans, actors, failed, skipped)
			}},
			{Name: "same-bytes", Quick: 120, Thorough: 3000, Run: func(c *kit.Case) {
				w := smallWorld(c, 60)
				data := w.save()
				first, err1 := loadIndex(data)
				second, err2 := loadIndex(data)
				if err1 != nil || err2 != nil {
					c.Skip(fmt.Sprint("loading: ", err1, err2))
				}
				c.Op("the index, and two loaded from the same bytes, go on their own ways")
				worlds := []*world{w, w.copyOf(first, c.Fork(1)), w.copyOf(second, c.Fork(2))}
				// what each of them would say if nothing had happened
				before := observe(w.idx)
				if c.Index%2 == 0 {
					before = observe(first)
					if d := diffObs(before, observe(w.idx)); d != "" {
						c.Skip("loaded otherwise: " + d)
					}
				}
				for k := range data {
					data[k] ^= 0x5a // the bytes are the caller's
				}
				m := mix{reloads: 3, optimizes: 8, failures: 4, maxSet: 4, maxLen: 5}
				busy := c.R.Range(0, 2)
				for k := c.R.Range(5, 50); k > 0; k-- {
					worlds[busy].step(m)
					c.Count("turns", 1)
				}
				for i, x := range worlds {
					if i == busy {
						continue
					}
					if d := diffObs(before, observe(x.idx)); d != "" {
						for k := range data {
							data[k] ^= 0x5a
						}
						third, err := loadIndex(data)
						if err != nil || diffObs(before, observe(third)) != "" {
							c.Skip("loaded otherwise")
						}
						c.Fail("working on one of three indexes of the same content (number %d) changed number %d: %s", busy, i, d)
					}
				}
				for i, x := range worlds {
					x.strict = i != busy
					for k := c.R.Range(0, 10); k > 0 && i != busy; k-- {
						x.step(m)
					}
					x.all(40)
				}
				c.Join(worlds[1].c)
				c.Join(worlds[2].c)
				c.Sig(c.Ops())
				c.NonTrivial()
			}},
		},
	}
}
