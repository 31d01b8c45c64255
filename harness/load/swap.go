package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// ---- C30 --------------------------------------------------------------------

// compileLoop compiles the dictionaries given in turn over one compiled file.
func compileLoop(args []string) error { // dir to rounds from...
	rounds, _ := strconv.Atoi(args[2])
	loader := opencorpora.NewLoader(args[0])
	for k := 0; k < rounds; k++ {
		if err := loader.ParseUpdate(args[3+k%(len(args)-3)], args[1]); err != nil {
			return err
		}
	}
	return nil
}

type reader struct {
	loads  int
	seen   map[int]int
	failed string
	order  []int
}

// watchLoads loads again and again until stopped, and tells which dictionary each load gave.
func watchLoads(dir string, dicts []*dict, stop *atomic.Bool, absentOK bool, res *reader) {
	loader := opencorpora.NewLoader(dir)
	target := filepath.Join(dir, opencorpora.LocalCompiledFilename)
	res.seen = map[int]int{}
	there := !absentOK
	for {
		last := stop.Load()
		var idx *index.Index
		var err error
		was := there
		if p, st := kit.Try(func() { idx, err = loader.LoadIndex() }); p != nil {
			res.failed = fmt.Sprintf("loading panicked: %v\n%s", p, st)
			return
		}
		if err != nil {
			if was {
				res.failed = fmt.Sprintf("load number %d, when a compiled index had been there before: %v", res.loads, err)
				return
			}
			if _, e := os.Stat(target); e == nil {
				there = true
			}
			runtime.Gosched()
		} else {
			there = true
			res.loads++
			which, why := -1, ""
			for k, d := range dicts {
				if why = d.differs(idx); why == "" {
					which = k
					break
				}
			}
			if which < 0 {
				res.failed = fmt.Sprintf("load number %d gave an index that is of none of the dictionaries (%s)", res.loads, why)
				return
			}
			res.seen[which]++
			if n := len(res.order); n == 0 || res.order[n-1] != which {
				res.order = append(res.order, which)
			}
		}
		if last {
			return
		}
	}
}

func readersOf(c *kit.Case, n int, dir string, dicts []*dict, absentOK bool, work func()) {
	var stop atomic.Bool
	var wg sync.WaitGroup
	readers := make([]reader, n)
	for g := range readers {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			watchLoads(dir, dicts, &stop, absentOK, &readers[g])
		}(g)
	}
	failed, skipped := kit.Guard(work)
	stop.Store(true)
	wg.Wait()
	for g := range readers {
		if readers[g].failed != "" {
			c.Fail("reader %d of %d: %s", g, n, readers[g].failed)
		}
		c.Count("loads", readers[g].loads)
		c.Count("changes_seen_by_readers", len(readers[g].order)-1)
		c.Max("changes_seen_by_a_reader", len(readers[g].order)-1)
		c.Seen("orders_seen", kit.Hash(fmt.Sprint(readers[g].order, c.Index)))
	}
	if failed != "" {
		c.Fail("%s", failed)
	}
	if skipped != "" {
		c.Skip(skipped)
	}
}

func c30() kit.Check {
	return kit.Check{
		Rule:  "A case keeps 1 to 4 readers loading the compiled index over and over while it is replaced again and again: by a loader in the same process, by compiling processes of their own (let run, or killed at any instant), or by the real updater following a remote that changes. Every load must succeed once an index was there, and give exactly one of the dictionaries compiled. Non-trivial: the readers saw at least two dictionaries; distinct by dictionaries and orders seen.",
		Setup: func(scratch string) error { return makePool(scratch, []int{3, 8, 30, 80, 200, -1200}) },
		Groups: []kit.Group{
			{Name: "same-process", Quick: 24, Thorough: 500, Run: func(c *kit.Case) {
				dir := freshDir(c, "c30")
				dicts, froms := swapDicts(c, dir, c.Index%6 == 5)
				loader := opencorpora.NewLoader(dir)
				to := filepath.Join(dir, opencorpora.LocalCompiledFilename)
				absent := c.R.Chance(30)
				if !absent {
					if err := loader.ParseUpdate(froms[0], to); err != nil {
						c.Skip("compiling a dictionary: " + err.Error())
					}
				}
				rounds := c.R.Range(5, 15)
				readersOf(c, c.R.Range(1, 4), dir, dicts, absent, func() {
					for k := 0; k < rounds; k++ {
						if err := loader.ParseUpdate(froms[c.R.Intn(len(froms))], to); err != nil {
							c.Fail("compiling while others load: %v", err)
						}
						c.Count("compiles", 1)
						time.Sleep(time.Duration(c.R.Intn(3)) * time.Millisecond)
					}
				})
				c.NonTrivial()
				c.Sig(c.Ops())
			}},
			{Name: "other-process", Quick: 24, Thorough: 500, Run: func(c *kit.Case) {
				dir := freshDir(c, "c30")
				dicts, froms := swapDicts(c, dir, c.Index%6 == 5)
				to := filepath.Join(dir, opencorpora.LocalCompiledFilename)
				if err := opencorpora.NewLoader(dir).ParseUpdate(froms[0], to); err != nil {
					c.Skip("compiling a dictionary: " + err.Error())
				}
				kills := c.R.Bool()
				readersOf(c, c.R.Range(1, 3), dir, dicts, false, func() {
					for k := 0; k < 4; k++ {
						cmd := exec.Command(kit.Args["self"], append([]string{"child", "compile-loop", dir, to, "20"}, froms...)...)
						var out bytes.Buffer
						cmd.Stdout, cmd.Stderr = &out, &out
						if err := cmd.Start(); err != nil {
							c.Skip("harness: " + err.Error())
						}
						if kills {
							time.Sleep(time.Duration(c.R.Intn(60000)) * time.Microsecond)
							_ = cmd.Process.Kill()
							c.Count("kills", 1)
						}
						err := cmd.Wait()
						if o := outcomeOf(cmd, out.Bytes(), err); !o.killed && o.code != 0 {
							c.Fail("compiling while others load: exit %d %s", o.code, o.out)
						}
						c.Count("compiling_processes", 1)
					}
				})
				c.NonTrivial()
				c.Sig(c.Ops())
			}},
			{Name: "updater", Quick: 12, Thorough: 300, Run: func(c *kit.Case) {
				cwd := freshDir(c, "c30")
				rem, err := newRemote()
				if err != nil {
					c.Skip("harness: " + err.Error())
				}
				defer rem.close()
				dir := filepath.Join(cwd, ".data", opencorpora.DomainName)
				var dicts []*dict
				for _, p := range pool {
					dicts = append(dicts, p.d)
				}
				modified := time.Now().Add(-1000 * time.Hour)
				step := func() {
					p := kit.Pick(c.R, pool)
					modified = modified.Add(time.Hour)
					rem.publish(p.bz2, modified)
					ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
					defer cancel()
					cmd := exec.CommandContext(ctx, kit.Args["opencorpora_update"], fmt.Sprintf("-f=%v", c.R.Bool()))
					cmd.Dir, cmd.Env = cwd, append(os.Environ(), rem.proxy()...)
					out, err := cmd.CombinedOutput()
					if err != nil {
						c.Fail("updating while others load: %v %s", err, out)
					}
					c.Op("update to %s", p.name)
					c.Count("updates", 1)
				}
				step()
				if _, err := os.Stat(filepath.Join(dir, opencorpora.LocalCompiledFilename)); err != nil {
					c.Skip("no compiled index at the default path: " + err.Error())
				}
				readersOf(c, c.R.Range(1, 3), dir, dicts, false, func() {
					for k := 0; k < 8; k++ {
						step()
					}
				})
				c.NonTrivial()
				c.Sig(c.Ops())
			}},
		},
	}
}

// swapDicts makes dictionaries that differ in size and share words.
func swapDicts(c *kit.Case, dir string, large bool) (dicts []*dict, froms []string) {
	for k := 0; k < c.R.Range(2, 4); k++ {
		d := randomDict(c.R, c.R.Range(2, 120))
		if large {
			d = largeDict(c.R, c.R.Range(1500, 3000))
		}
		from := filepath.Join(dir, fmt.Sprintf("d%d.xml", k))
		write(c, from, d.xml(c.R))
		dicts, froms = append(dicts, d), append(froms, from)
		c.Op("%s", d)
	}
	return dicts, froms
}
