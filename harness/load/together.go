package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// ---- C27 --------------------------------------------------------------------

// compiler compiles and loads dictionaries of its own, one after another, with one loader.
type compiler struct {
	dir    string
	dicts  []*dict
	texts  []string
	broken []bool // the text is no dictionary
	loader *opencorpora.Loader
	files  []string // what was compiled
	failed string
}

func (p *compiler) work() {
	var last *index.Index
	var lastDict *dict
	for k := range p.dicts {
		from, to := filepath.Join(p.dir, opencorpora.LocalUnpackedFilename), filepath.Join(p.dir, opencorpora.LocalCompiledFilename)
		if err := os.WriteFile(from, []byte(p.texts[k]), 0o644); err != nil {
			p.failed = "harness: " + err.Error()
			return
		}
		var err error
		if e, st := kit.Try(func() { err = p.loader.ParseUpdate(from, to) }); e != nil {
			p.failed = fmt.Sprintf("compiling %s panicked: %v\n%s", p.dicts[k], e, st)
			return
		}
		if p.broken[k] {
			if err == nil {
				p.failed = fmt.Sprintf("compiling the beginning of %s only: no error", p.dicts[k])
				return
			}
			continue
		}
		if err != nil {
			p.failed = fmt.Sprintf("compiling %s: %v", p.dicts[k], err)
			return
		}
		var idx *index.Index
		if e, st := kit.Try(func() { idx, err = p.loader.LoadIndex() }); e != nil || err != nil {
			p.failed = fmt.Sprintf("loading %s: %v %v\n%s", p.dicts[k], err, e, st)
			return
		}
		if why := p.dicts[k].differs(idx); why != "" {
			p.failed = fmt.Sprintf("%s, compiled and loaded: %s", p.dicts[k], why)
			return
		}
		if last != nil { // what was loaded before
			if why := lastDict.differs(last); why != "" {
				p.failed = fmt.Sprintf("%s, loaded before another one was compiled: %s", lastDict, why)
				return
			}
		}
		last, lastDict = idx, p.dicts[k]
		p.files = append(p.files, string(read(to)))
	}
}

func c27() kit.Check {
	return kit.Check{
		Rule: "In the load part one group saves 2 to 6 different indexes, each of them several times, at the same time, by one loader each, to files of their own next to each other in one directory, with names that begin alike; afterwards each file must be the one that saving the same index alone makes, no other file may be left, and each is loaded as the dictionary it was made from. A case of the other group lets 2 to 5 loaders, each in a goroutine and a directory of its own, compile and load dictionaries of their own at the same time (some of the files end early and must be refused); every index must hold its dictionary, still do so while others are compiled, and the compiled files must be those that the same loader makes when it works alone. The race detector (in the race build) watches all of it.",
		Groups: []kit.Group{
			{Name: "neighbours", Quick: 24, Thorough: 600, Serial: true, Run: saveNeighbours},
			{Name: "compilers", Quick: 24, Thorough: 600, Serial: true, Run: func(c *kit.Case) {
				n := c.R.Range(2, 5)
				ps := make([]*compiler, n)
				root := freshDir(c, "c27")
				for i := range ps {
					p := &compiler{dir: filepath.Join(root, fmt.Sprint(i))}
					if err := os.Mkdir(p.dir, 0o755); err != nil {
						c.Skip("harness: " + err.Error())
					}
					for k := c.R.Range(1, 4); k > 0; k-- {
						d := randomDict(c.R, c.R.Range(1, 30))
						text := d.xml(c.R)
						bad := c.R.Chance(15)
						if bad {
							text = text[:len(text)*c.R.Range(20, 80)/100]
						}
						p.dicts, p.texts, p.broken = append(p.dicts, d), append(p.texts, text), append(p.broken, bad)
						c.Sig(kit.Hash(text))
						c.Op("loader %d: %s, complete %v: %.2000s", i, d, !bad, text)
					}
					p.loader = opencorpora.NewLoader(p.dir)
					ps[i] = p
				}
				var wg sync.WaitGroup
				start := make(chan struct{})
				for _, p := range ps {
					wg.Add(1)
					go func(p *compiler) {
						defer wg.Done()
						<-start
						p.work()
					}(p)
				}
				close(start)
				wg.Wait()
				for i, p := range ps {
					if p.failed != "" {
						// alone it must not fail, or it is none of this check's business
						q := &compiler{dir: p.dir, dicts: p.dicts, texts: p.texts, broken: p.broken, loader: opencorpora.NewLoader(p.dir)}
						if q.work(); q.failed != "" {
							c.Skip("alone as well: " + q.failed)
						}
						c.Fail("loader %d of %d working at the same time: %s", i, n, p.failed)
					}
					q := &compiler{dir: p.dir, dicts: p.dicts, texts: p.texts, broken: p.broken, loader: opencorpora.NewLoader(p.dir)}
					if q.work(); q.failed != "" {
						c.Skip("alone: " + q.failed)
					}
					again := &compiler{dir: p.dir, dicts: p.dicts, texts: p.texts, broken: p.broken, loader: opencorpora.NewLoader(p.dir)}
					if again.work(); again.failed != "" {
						c.Skip("alone: " + again.failed)
					}
					for k := range q.files {
						if q.files[k] == again.files[k] && q.files[k] != p.files[k] {
							c.Fail("loader %d of %d working at the same time: file %d compiled has %d bytes, alone %d bytes and others", i, n, k, len(p.files[k]), len(q.files[k]))
						}
					}
					c.Count("files_compiled_together", len(p.files))
				}
				c.NonTrivial()
			}},
		},
	}
}

// saveNeighbours saves different indexes at the same time to different files of one directory.
func saveNeighbours(c *kit.Case) {
	type saver struct {
		dict   *dict
		idx    *index.Index
		loader *opencorpora.Loader
		alone  string
		target string
		times  int
		failed string
	}
	names := []string{
		opencorpora.LocalCompiledFilename, opencorpora.LocalCompiledFilename + ".1", opencorpora.LocalCompiledFilename + "1", "a" + opencorpora.LocalCompiledFilename,
		"a.index", "b.index", "a", "b", "a.b", "a.b.c", "index", "index.index", "данные.индекс", "a index",
	}
	n := c.R.Range(2, 6)
	root := freshDir(c, "c27s")
	shared := filepath.Join(root, "shared")
	if err := os.Mkdir(shared, 0o755); err != nil {
		c.Skip("harness: " + err.Error())
	}
	perm := c.R.Perm(len(names))
	savers := make([]*saver, n)
	for i := range savers {
		dir := filepath.Join(root, fmt.Sprint("own", i))
		if err := os.Mkdir(dir, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
		s := &saver{dict: randomDict(c.R, c.R.Range(1, 60)), loader: opencorpora.NewLoader(dir), target: filepath.Join(shared, names[perm[i]]), times: c.R.Range(1, 6)}
		from, to := filepath.Join(dir, opencorpora.LocalUnpackedFilename), filepath.Join(dir, opencorpora.LocalCompiledFilename)
		text := s.dict.xml(c.R)
		write(c, from, text)
		c.Op("%d times %s to %s", s.times, s.dict, names[perm[i]])
		c.Sig(kit.Hash(text), names[perm[i]])
		var err error
		if e, _ := kit.Try(func() {
			if err = s.loader.ParseUpdate(from, to); err == nil {
				s.idx, err = s.loader.LoadIndex()
			}
		}); e != nil || err != nil {
			c.Skip(fmt.Sprintf("alone as well: %v %v", e, err))
		}
		if err = s.loader.SaveIndex(s.idx, to); err != nil {
			c.Skip("alone as well: " + err.Error())
		}
		s.alone = string(read(to))
		if err = s.loader.SaveIndex(s.idx, to); err != nil || s.alone != string(read(to)) {
			c.Skip("saving alone does not give the same file twice")
		}
		savers[i] = s
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, s := range savers {
		wg.Add(1)
		go func(s *saver) {
			defer wg.Done()
			<-start
			for k := 0; k < s.times && s.failed == ""; k++ {
				var err error
				if e, st := kit.Try(func() { err = s.loader.SaveIndex(s.idx, s.target) }); e != nil {
					s.failed = fmt.Sprintf("panic: %v\n%s", e, st)
				} else if err != nil {
					s.failed = err.Error()
				}
			}
		}(s)
	}
	close(start)
	wg.Wait()
	expect := map[string]bool{}
	for i, s := range savers {
		name := filepath.Base(s.target)
		expect[name] = true
		if s.failed != "" {
			c.Fail("saving index %d to %s while others are saved next to it: %s", i, name, s.failed)
		}
		if got := string(read(s.target)); got != s.alone {
			c.Fail("index %d saved to %s while others were saved next to it: %d bytes, saved alone %d bytes and others", i, name, len(got), len(s.alone))
		}
		c.Count("files_saved_next_to_each_other", s.times)
	}
	entries, err := os.ReadDir(shared)
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	for _, e := range entries {
		if !expect[e.Name()] {
			c.Fail("saving indexes next to each other leaves %s behind", e.Name())
		}
	}
	for i, s := range savers {
		dir := filepath.Join(root, fmt.Sprint("back", i))
		if err := os.Mkdir(dir, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
		write(c, filepath.Join(dir, opencorpora.LocalCompiledFilename), string(read(s.target)))
		back, err := opencorpora.NewLoader(dir).LoadIndex()
		if err != nil {
			c.Fail("loading what was saved to %s: %v", filepath.Base(s.target), err)
		}
		if why := s.dict.differs(back); why != "" {
			c.Fail("%s, saved to %s next to others and loaded: %s", s.dict, filepath.Base(s.target), why)
		}
	}
	c.NonTrivial()
}
