package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// slowCompiles compiles the same dictionary in several processes, each of which is stopped in the middle of it for
// longer than anything the compiler does from time to time.
func slowCompiles(c *kit.Case) {
	r := c.R
	root := freshDir(c, "slow")
	d := largeDict(r, 6000)
	text := d.xml(r)
	pause := 10500 * time.Millisecond
	if c.Thorough {
		pause = time.Duration(kit.Pick(r, []int{11, 31, 61, 121})) * time.Second
	}
	type run struct {
		dir     string
		delays  []time.Duration
		stops   int
		outcome outcome
		out     bytes.Buffer
		err     error
	}
	runs := make([]*run, 8)
	var wg sync.WaitGroup
	for i := range runs {
		x := &run{dir: filepath.Join(root, fmt.Sprint(i))}
		if err := os.Mkdir(x.dir, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
		write(c, filepath.Join(x.dir, opencorpora.LocalUnpackedFilename), text)
		for k := 1 + i%2; k > 0; k-- {
			x.delays = append(x.delays, time.Duration(20+i*25+r.Intn(30))*time.Millisecond)
		}
		runs[i] = x
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(kit.Args["self"], "child", "compile", x.dir, filepath.Join(x.dir, opencorpora.LocalUnpackedFilename), filepath.Join(x.dir, opencorpora.LocalCompiledFilename), "-1")
			cmd.Stdout, cmd.Stderr = &x.out, &x.out
			if x.err = cmd.Start(); x.err != nil {
				return
			}
			done := make(chan struct{})
			go func() {
				defer close(done)
				x.outcome = outcomeOf(cmd, nil, cmd.Wait())
			}()
			for _, delay := range x.delays {
				select {
				case <-done:
				case <-time.After(delay):
					_ = cmd.Process.Signal(syscall.SIGSTOP)
					select {
					case <-done: // it was over already
					case <-time.After(pause):
						x.stops++
					}
					_ = cmd.Process.Signal(syscall.SIGCONT)
				}
			}
			select {
			case <-done:
			case <-time.After(200 * time.Second):
				_ = cmd.Process.Kill()
				<-done
			}
		}()
	}
	wg.Wait()
	for _, x := range runs {
		if x.err != nil {
			c.Skip("harness: " + x.err.Error())
		}
		c.Op("compiling %s, stopped %d times for %v after %v: exit %d", d, x.stops, pause, x.delays, x.outcome.code)
		if x.outcome.code != 0 {
			out := x.out.String()
			if k := strings.LastIndex(out, "REPORTED"); k >= 0 {
				out = out[k:]
			}
			c.Fail("compiling %s, stopped %d times for %v: exit %d, %.2000s", d, x.stops, pause, x.outcome.code, out)
		}
		if why := holds(c, filepath.Join(x.dir, opencorpora.LocalCompiledFilename), d); why != "" {
			c.Fail("%s, compiled by a process stopped %d times for %v, and loaded: %s", d, x.stops, pause, why)
		}
		c.Count("compiles_stopped_for_long", x.stops)
		c.Count("dictionaries_compiled", 1)
	}
	c.Sig(kit.Hash(text))
	c.NonTrivial()
}
