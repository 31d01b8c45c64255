package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// ---- C31 --------------------------------------------------------------------

func openFiles() (n int, list []string) {
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1, nil
	}
	for _, e := range entries {
		to, _ := os.Readlink("/proc/self/fd/" + e.Name())
		if strings.HasPrefix(to, "/proc/") || to == "" { // the listing itself
			continue
		}
		list = append(list, to)
	}
	return len(list), list
}

// settle waits until no more goroutines end and no more files are closed.
func settle(files, gors int) (int, int) {
	f, g := 0, 0
	for k := 0; k < 200; k++ {
		f, _ = openFiles()
		g = runtime.NumGoroutine()
		if f <= files && g <= gors {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	return f, g
}

type leakPlan struct {
	Op, Dir, From, To string
	Rounds            int
	Limit             int // of the size of files, if positive
}

type leakReport struct {
	Files0, Files1, Gors0, Gors1 int
	Open                         []string
	Succeeded, Failed            int
	Err                          string
}

// leakRun repeats an operation in a process of its own, where nothing is closed by the garbage collector.
func leakRun(arg string) {
	var p leakPlan
	if err := json.Unmarshal([]byte(arg), &p); err != nil {
		os.Exit(11)
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(4 << 30)
	loader := opencorpora.NewLoader(p.Dir)
	if p.Limit > 0 {
		signal.Ignore(syscall.SIGXFSZ)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(p.Limit), Max: uint64(p.Limit)}); err != nil {
			os.Exit(11)
		}
	}
	op := func() error {
		switch p.Op {
		case "load":
			_, err := loader.LoadIndex()
			return err
		case "compile":
			return loader.ParseUpdate(p.From, p.To)
		case "unpack":
			return loader.UnpackUpdate()
		case "wanted":
			_, err := loader.IsUpdateRequired()
			return err
		case "exists":
			loader.IsDownloadExists()
			loader.IsUnpackedExists()
			return nil
		case "download":
			_, err := loader.DownloadUpdate()
			return err
		case "update":
			return loader.Update(false)
		default:
			return loader.Update(true)
		}
	}
	var rep leakReport
	for k := 0; k < 3; k++ {
		if err := op(); err != nil {
			rep.Err = err.Error()
		}
	}
	time.Sleep(60 * time.Millisecond)
	rep.Files0, _ = openFiles()
	rep.Gors0 = runtime.NumGoroutine()
	for k := 0; k < p.Rounds; k++ {
		if err := op(); err != nil {
			rep.Failed++
		} else {
			rep.Succeeded++
		}
	}
	rep.Files1, rep.Gors1 = settle(rep.Files0, rep.Gors0)
	_, rep.Open = openFiles()
	data, _ := json.Marshal(rep)
	fmt.Println("REPORT", string(data))
	os.Exit(0)
}

var leakOps = []string{"load", "load", "load", "compile", "compile", "compile", "compile", "unpack", "unpack", "unpack", "wanted", "exists", "download", "download", "download", "update", "update-forced"}

func leakCase(c *kit.Case) {
	r := c.R
	root := freshDir(c, "c31")
	dir := filepath.Join(root, dataName(c))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		c.Skip("harness: " + err.Error())
	}
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	pk := pool[r.Intn(len(pool))]
	modified := time.Now().Add(-2 * time.Hour)
	rem.publish(pk.bz2, modified)
	p := leakPlan{Op: leakOps[c.Index%len(leakOps)], Dir: dir, Rounds: 25}
	file := func(n string) string { return filepath.Join(dir, n) }
	compiled, down := file(opencorpora.LocalCompiledFilename), file(opencorpora.LocalSourceFilename)
	p.From, p.To = filepath.Join(root, "from.xml"), compiled
	write(c, p.From, pk.text)
	what := "all well"
	spoil := func(data []byte) []byte {
		data = append([]byte{}, data...)
		switch r.Intn(4) {
		case 0:
			what = "empty"
			return nil
		case 1:
			k := r.Intn(len(data))
			what = fmt.Sprintf("cut at %d of %d", k, len(data))
			return data[:k]
		case 2:
			k := r.Intn(min(len(data), 40))
			what = fmt.Sprintf("byte %d changed", k)
			data[k] ^= 0xff
		default:
			what = "an error page"
			return []byte(errorPage)
		}
		return data
	}
	put := func(path string, data []byte, mod time.Time) {
		write(c, path, string(data))
		_ = os.Chtimes(path, mod, mod)
	}
	fails := r.Chance(65)
	head, get := reply{cut: -1}, reply{cut: -1, chunked: r.Bool()}
	network := func() {
		if p.Op != "wanted" && r.Chance(35) {
			// what is sent is not taken: the answer is an error with much behind it, or there is no room for it
			if r.Bool() {
				get = reply{status: kit.Pick(r, []int{202, 404, 500, 503}), page: strings.Repeat(errorPage, r.Range(1, 4000)), cut: -1, chunked: r.Bool()}
				what = fmt.Sprintf("get answers %d with %d bytes", get.status, len(get.page))
			} else {
				p.Limit = r.Range(1, 2000)
				rem.publish([]byte(strings.Repeat("0123456789abcdef", r.Range(4000, 60000))), modified)
				_ = os.RemoveAll(down)
				what = fmt.Sprintf("no room for more than %d bytes", p.Limit)
			}
			c.Count("untaken_answers", 1)
			return
		}
		if r.Bool() {
			head, what = badHead(r)
		} else {
			get, what = badGet(r, len(pk.bz2))
		}
	}
	switch p.Op {
	case "load":
		if err := opencorpora.NewLoader(dir).ParseUpdate(p.From, compiled); err != nil {
			c.Skip("compiling a dictionary: " + err.Error())
		}
		if fails {
			if r.Chance(20) {
				_ = os.Remove(compiled)
				what = "missing"
			} else {
				put(compiled, spoil(read(compiled)), modified)
			}
		}
	case "compile":
		if fails {
			switch r.Intn(6) {
			case 0:
				_ = os.Remove(p.From)
				what = "missing"
			case 1:
				p.To = filepath.Join(dir, "no", "such")
				what = "destination in a missing directory"
			case 2:
				p.To = dir
				what = "destination is a directory"
			case 3:
				var t string
				for k := 0; k < 20 && t == ""; k++ {
					t, what = malform(c, pk.d, r.Intn(malformations))
				}
				write(c, p.From, t)
			default:
				var t string
				t, what = damage(c, pk.d)
				write(c, p.From, t)
			}
		}
	case "unpack":
		put(down, pk.bz2, modified)
		if fails {
			if r.Chance(20) {
				_ = os.Remove(down)
				what = "missing"
			} else {
				put(down, spoil(pk.bz2), modified)
			}
		}
	case "wanted":
		put(down, pk.bz2, modified.Add(-time.Duration(r.Intn(3))*time.Hour))
		if fails {
			network()
		}
	case "download":
		if r.Bool() {
			put(down, []byte("previous"), modified.Add(-time.Hour))
		}
		if fails {
			network()
		}
	case "update", "update-forced":
		if r.Bool() {
			put(down, pk.bz2, modified)
		}
		if fails {
			network()
		}
	}
	if r.Chance(60) {
		head.keep, get.keep = true, true
		what += ", connections kept"
		c.Count("kept_connections", 1)
	}
	rem.set(head, get)
	before := listing(dir)
	arg, _ := json.Marshal(p)
	o := runSelf(rem.proxy(), nil, "leak", string(arg))
	c.Op("%s, %s, %d rounds: exit %d %s", p.Op, what, p.Rounds, o.code, o.out)
	var rep leakReport
	at := strings.LastIndex(o.out, "REPORT ")
	if at < 0 || json.Unmarshal([]byte(strings.TrimSpace(o.out[at+7:])), &rep) != nil {
		if o.killed || o.code == 11 {
			c.Skip("the process of the operation did not report: " + o.out)
		}
		c.Fail("%s (%s), repeated, ended the process: exit %d %s", p.Op, what, o.code, o.out)
	}
	if rep.Files0 < 0 {
		c.Skip("open files can not be listed")
	}
	if grown := rep.Files1 - rep.Files0; grown > 4 {
		c.Fail("%s (%s) leaves files open: %d before, %d after %d more rounds: %q", p.Op, what, rep.Files0, rep.Files1, p.Rounds, rep.Open)
	}
	if grown := rep.Gors1 - rep.Gors0; grown > 8 {
		c.Fail("%s (%s) leaves goroutines: %d before, %d after %d more rounds", p.Op, what, rep.Gors0, rep.Gors1, p.Rounds)
	}
	// files left: none but the three that belong there
	for _, n := range strings.Fields(listing(dir)) {
		if strings.Contains(" "+before+" ", " "+n+" ") {
			continue
		}
		switch n {
		case opencorpora.LocalCompiledFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalSourceFilename:
		default:
			c.Fail("%s (%s), %d succeeded and %d failed, leaves the file %s", p.Op, what, rep.Succeeded, rep.Failed, n)
		}
	}
	beside, _ := os.ReadDir(root)
	for _, e := range beside {
		if n := e.Name(); n != filepath.Base(dir) && n != filepath.Base(p.From) {
			c.Fail("%s (%s), %d succeeded and %d failed, leaves %s beside the data", p.Op, what, rep.Succeeded, rep.Failed, n)
		}
	}
	c.Count("rounds_succeeded", rep.Succeeded)
	c.Count("rounds_failed", rep.Failed)
	c.Max("files_open", rep.Files1)
	c.Max("goroutines", rep.Gors1)
	c.Sig(p.Op, what, pk.name)
	c.NonTrivial()
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func c31() kit.Check {
	return kit.Check{
		Rule:  "A case repeats an operation of the loader (loading, compiling, unpacking, asking, downloading, updating; going well or failing at any point, by damaged files, by the network, by answers too large to take, over connections kept or closed) many times in a process without garbage collection; the numbers of open files and of goroutines must not grow, and no file but the three that belong there may be left, there or beside. ",
		Setup: func(scratch string) error { return makePool(scratch, []int{2, 3, 5, 8, 12}) },
		Groups: []kit.Group{
			{Name: "loader", Quick: 170, Thorough: 3000, Run: leakCase},
		},
	}
}
