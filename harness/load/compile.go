package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/amarin/binutils"
	"github.com/amarin/logging"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// child runs loader operations in a process of its own: exit 0 done, 10 error reported.
func child(args []string) {
	runtime.LockOSThread()
	logging.MustInit()
	signal.Ignore(syscall.SIGXFSZ)
	finish := func(err error) {
		if err != nil {
			fmt.Println("REPORTED", err)
			os.Exit(10)
		}
		fmt.Println("DONE")
		os.Exit(0)
	}
	switch args[0] {
	case "compile": // dir from to limit
		limit, _ := strconv.ParseInt(args[4], 10, 64)
		if limit >= 0 {
			if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}); err != nil {
				fmt.Println("SETUP", err)
				os.Exit(11)
			}
		}
		finish(opencorpora.NewLoader(args[1]).ParseUpdate(args[2], args[3]))
	case "unpack": // dir
		finish(opencorpora.NewLoader(args[1]).UnpackUpdate())
	case "download": // dir limit
		limit, _ := strconv.ParseInt(args[2], 10, 64)
		if limit < 0 {
			limit = 1 << 40
		}
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: uint64(limit)}); err != nil {
			os.Exit(11)
		}
		updated, err := opencorpora.NewLoader(args[1]).DownloadUpdate()
		if err == nil && !updated {
			fmt.Println("NOT UPDATED")
			os.Exit(12)
		}
		finish(err)
	case "compile-loop":
		finish(compileLoop(args[1:]))
	case "leak":
		leakRun(args[1])
	case "load": // dir
		_, err := opencorpora.NewLoader(args[1]).LoadIndex()
		finish(err)
	default:
		os.Exit(11)
	}
}

// oddNames are names directories can have.
var oddNames = []string{"$HOME", "a b ", "%41%2f", "~", "данные", "x.tmp", "*", "-d", "${PATH}", " ", "é", "e\u0301", "a:b", "UPPER", `back\slash`, "'q\"", "..."}

// dataName is the last name of a data path, an odd one now and then.
func dataName(c *kit.Case) string {
	if c.Index%7 == 2 {
		return oddNames[c.Index/7%len(oddNames)]
	}
	return "data"
}

func freshDir(c *kit.Case, name string) string {
	dir := filepath.Join(c.Scratch, name)
	if err := os.RemoveAll(dir); err != nil {
		c.Skip("harness: " + err.Error())
	}
	if c.Index%5 == 3 {
		dir = filepath.Join(dir, oddNames[c.Index/5%len(oddNames)])
	}
	if err := os.MkdirAll(dir, 0o755); err != nil {
		c.Skip("harness: " + err.Error())
	}
	return dir
}

func read(path string) []byte {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	return data
}

// loadFile loads a compiled index through the loader.
func loadFile(c *kit.Case, path string) (idx *index.Index, err error) {
	dir := filepath.Join(c.Scratch, "load")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		c.Skip("harness: " + err.Error())
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, opencorpora.LocalCompiledFilename), data, 0o644); err != nil {
		c.Skip("harness: " + err.Error())
	}
	if p, st := kit.Try(func() { idx, err = opencorpora.NewLoader(dir).LoadIndex() }); p != nil {
		return nil, fmt.Errorf("loading panicked: %v\n%s", p, st)
	}
	if err == nil { // what is loaded does not need the file any more
		copied := filepath.Join(dir, opencorpora.LocalCompiledFilename)
		if err := os.WriteFile(copied, bytes.Repeat([]byte{0xa5}, len(data)/2), 0o644); err != nil {
			c.Skip("harness: " + err.Error())
		}
		_ = os.Remove(copied)
	}
	return idx, err
}

// optimizedSize tells how many bytes the index takes when optimized.
func optimizedSize(c *kit.Case, idx *index.Index) int {
	var buf bytes.Buffer
	c.NoPanic("optimizing and saving", func() {
		idx.Optimize()
		if err := idx.BinaryWriteTo(binutils.NewBinaryWriter(&buf)); err != nil {
			c.Fail("saving a loaded index: %v", err)
		}
	})
	c.Count("sizes_compared", 1)
	return buf.Len()
}

// holds tells how the compiled file deviates from the dictionary.
func holds(c *kit.Case, path string, d *dict) string {
	idx, err := loadFile(c, path)
	if err != nil {
		return "does not load: " + err.Error()
	}
	return d.differs(idx)
}

func sizeOf(r *kit.Rand, thorough bool) int {
	switch k := r.Intn(100); {
	case k < 30:
		return r.Range(0, 3)
	case k < 85:
		return r.Range(3, 25)
	case thorough && k >= 99:
		return r.Range(1000, 6000)
	default:
		return r.Range(25, 150)
	}
}

func (d *dict) note(c *kit.Case) {
	words := d.words()
	c.Count("words_compared", len(words))
	c.Max("words_in_a_dictionary", len(words))
	for w, s := range words {
		c.Max("tag_sets_of_a_word", len(s))
		c.Count("tag_sets_compared", len(s))
		_ = w
	}
	for _, l := range d.lemmas {
		c.Count("lemmata", 1)
		c.Count("forms", len(l.forms))
	}
}

func c13() kit.Check {
	return kit.Check{
		Rule: "A case generates a dictionary (tags with any hierarchy, lemmata with none to many forms, homonyms, repeated forms and lemmata, Unicode and escaped words), spells it as XML in a compact, indented or wild way (comments, instructions, white space, quotes, attribute order, references, restrictions, links), compiles it with the loader, loads the result, demands that optimizing would not make it smaller and compares all words, tag sets, tags and reachable nodes with the generator's own list. Extreme dictionaries (lemmata of hundreds of forms, runs of equal forms, very long words and tags lists, all 255 tags, words with very many readings, thousands of small lemmata) and one of more lemmata than the real dictionary has are treated the same way; and processes that compile are stopped in the middle of it for longer than the intervals at which the compiler reports its progress. Non-trivial: at least two words; distinct by XML text.",
		Groups: []kit.Group{
			{Name: "slow", Quick: 1, Thorough: 8, Run: slowCompiles},
			{Name: "huge", Quick: 1, Thorough: 3, Run: hugeCompile},
			{Name: "compile", Quick: 900, Thorough: 30000, Run: func(c *kit.Case) {
				dir := freshDir(c, "c13")
				d := randomDict(c.R, sizeOf(c.R, c.Thorough))
				text := d.xml(c.R)
				from, to := filepath.Join(dir, opencorpora.LocalUnpackedFilename), filepath.Join(dir, opencorpora.LocalCompiledFilename)
				write(c, from, text)
				c.Op("%s: %s", d, text)
				if c.R.Chance(20) { // over a previous one, of another dictionary
					old := randomDict(c.R, 5)
					write(c, from, old.xml(c.R))
					if err := opencorpora.NewLoader(dir).ParseUpdate(from, to); err != nil {
						c.Fail("compiling %s: %v", old, err)
					}
					write(c, from, text)
				}
				if c.R.Chance(5) { // there is a link of that name
					_ = os.Remove(to)
					other := filepath.Join(dir, "other")
					if c.R.Bool() {
						if err := os.Mkdir(other, 0o755); err != nil {
							c.Skip("harness: " + err.Error())
						}
						other = filepath.Join(other, "elsewhere.idx")
					}
					if c.R.Bool() {
						write(c, other, "something else")
					}
					if c.R.Bool() { // relative to its own place
						other, _ = filepath.Rel(dir, other)
					}
					if err := os.Symlink(other, to); err != nil {
						c.Skip("harness: " + err.Error())
					}
					c.Op("%s is a link to %s", to, other)
					c.Count("compiled_over_a_link", 1)
				}
				loader := opencorpora.NewLoader(dir)
				times := 1
				if c.R.Chance(15) {
					times = 2 // with the same loader again
				}
				for k := 0; k < times; k++ {
					var err error
					c.NoPanic("compiling", func() { err = loader.ParseUpdate(from, to) })
					if err != nil {
						c.Fail("compiling %s: %v", d, err)
					}
					c.Count("dictionaries_compiled", 1)
					var idx *index.Index
					c.NoPanic("loading", func() { idx, err = loader.LoadIndex() })
					if err != nil {
						c.Fail("loading compiled %s: %v", d, err)
					}
					if why := d.differs(idx); why != "" {
						c.Fail("%s, compiled and loaded: %s", d, why)
					}
					if optimized := optimizedSize(c, idx); optimized != len(read(to)) {
						c.Fail("%s: the compiled file of %d bytes takes %d when optimized", d, len(read(to)), optimized)
					}
				}
				if !bytes.Equal(read(from), []byte(text)) {
					c.Fail("compiling changed the dictionary file")
				}
				d.note(c)
				c.Sig(text)
				if len(d.words()) > 1 {
					c.NonTrivial()
				}
			}},
			{Name: "extreme", Quick: 42, Thorough: 700, Run: func(c *kit.Case) {
				dir := freshDir(c, "c13")
				d := extremeDict(c, c.Index)
				text := d.xml(c.R)
				from, to := filepath.Join(dir, opencorpora.LocalUnpackedFilename), filepath.Join(dir, opencorpora.LocalCompiledFilename)
				write(c, from, text)
				c.Op("%s, form %d: %.3000s", d, c.Index%extremeDicts, text)
				var err error
				c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, to) })
				if err != nil {
					c.Fail("compiling %s: %v", d, err)
				}
				c.Count("dictionaries_compiled", 1)
				if why := holds(c, to, d); why != "" {
					c.Fail("%s, compiled and loaded: %s", d, why)
				}
				d.note(c)
				c.Sig(kit.Hash(text))
				c.NonTrivial()
			}},
			{Name: "regular", Quick: 8, Thorough: 40, Run: func(c *kit.Case) {
				// the shape of the real dictionary: many lemmata with the same paradigms
				dir := freshDir(c, "c13")
				d := &dict{grams: realTags}
				n := 800
				if c.Thorough {
					n = 8000
				}
				cases := []string{"nomn", "gent", "datv", "accs", "ablt", "loct"}
				ends := []string{"", "а", "у", "а", "ом", "е"}
				alpha := []rune("абвгдеёжзийклмнопрстуфхцчшщъыьэюя")
				for i := 0; i < n; i++ {
					stem := ""
					for k := c.R.Range(2, 7); k > 0; k-- {
						stem += string(kit.Pick(c.R, alpha))
					}
					l := lemma{text: stem, tags: []string{"NOUN", kit.Pick(c.R, []string{"anim", "inan"}), kit.Pick(c.R, []string{"masc", "neut", "femn"})}}
					for k := range cases {
						l.forms = append(l.forms, form{stem + ends[k], []string{"sing", cases[k]}}, form{stem + "ам" + ends[k], []string{"plur", cases[k]}})
					}
					d.lemmas = append(d.lemmas, l)
				}
				text := d.xml(c.R)
				from, to := filepath.Join(dir, opencorpora.LocalUnpackedFilename), filepath.Join(dir, opencorpora.LocalCompiledFilename)
				write(c, from, text)
				c.Op("%s", d)
				if err := opencorpora.NewLoader(dir).ParseUpdate(from, to); err != nil {
					c.Fail("compiling %s: %v", d, err)
				}
				c.Count("dictionaries_compiled", 1)
				if why := holds(c, to, d); why != "" {
					c.Fail("%s, compiled and loaded: %s", d, why)
				}
				d.note(c)
				c.Sig(kit.Hash(text))
				c.NonTrivial()
			}},
		},
	}
}

// previous is a compiled index in place before the event, or none.
type previous struct {
	to   string
	data []byte // nil when absent
	mode os.FileMode
}

func putPrevious(c *kit.Case, dir string, present bool) *previous {
	p := &previous{to: filepath.Join(dir, opencorpora.LocalCompiledFilename)}
	if !present {
		return p
	}
	d := randomDict(c.R, c.R.Range(1, 12))
	from := filepath.Join(dir, "old.xml")
	write(c, from, d.xml(c.R))
	if err := opencorpora.NewLoader(dir).ParseUpdate(from, p.to); err != nil {
		c.Skip("compiling a dictionary: " + err.Error())
	}
	if why := holds(c, p.to, d); why != "" {
		c.Skip("compiling a dictionary: " + why)
	}
	if err := os.Remove(from); err != nil {
		c.Skip("harness: " + err.Error())
	}
	p.data = read(p.to)
	p.mode = 0o644
	if c.R.Chance(30) {
		p.mode = kit.Pick(c.R, []os.FileMode{0o444, 0o400, 0o600, 0o666})
	}
	if err := os.Chmod(p.to, p.mode); err != nil {
		c.Skip("harness: " + err.Error())
	}
	return p
}

// copyTo puts the same file elsewhere.
func (p *previous) copyTo(c *kit.Case, to string) {
	if p.data != nil {
		write(c, to, string(p.data))
		if err := os.Chmod(to, p.mode); err != nil {
			c.Skip("harness: " + err.Error())
		}
	}
}

// after compiles a small dictionary where an earlier run was ended, which must not be in the way.
func (p *previous) after(c *kit.Case, dir, what string) {
	d := randomDict(c.R, c.R.Range(0, 3))
	from := filepath.Join(dir, "small.xml")
	write(c, from, d.xml(c.R))
	if err := opencorpora.NewLoader(dir).ParseUpdate(from, p.to); err != nil {
		c.Fail("after a run was ended (%s) compiling %s reports %v", what, d, err)
	}
	if why := holds(c, p.to, d); why != "" {
		c.Fail("after a run was ended (%s) %s is compiled without an error, and the index is not its: %s", what, d, why)
	}
	c.Count("compiled_after_kills", 1)
	_ = os.Remove(from)
}

// kept tells if the previous state is in place.
func (p *previous) kept() bool {
	data, err := os.ReadFile(p.to)
	if p.data == nil {
		return os.IsNotExist(err)
	}
	return err == nil && bytes.Equal(data, p.data)
}

// check decides after an event: reported tells if an error was reported, died if the process was killed, new is the
// dictionary compiled, nil if it can not be.
func (p *previous) check(c *kit.Case, what string, reported, died bool, new *dict) {
	before := "no compiled index"
	if p.data != nil {
		before = fmt.Sprintf("a compiled index of %d bytes", len(p.data))
	}
	if p.kept() {
		c.Count("previous_kept", 1)
		if !reported && !died {
			if new != nil && p.data != nil && holds(c, p.to, new) == "" {
				return
			}
			c.Fail("%s: no error is reported, and the file is as before (%s)", what, before)
		}
		return
	}
	if new == nil {
		c.Fail("%s: there was %s, now the file is %s", what, before, describe(p.to))
	}
	if why := holds(c, p.to, new); why != "" {
		c.Fail("%s (error reported: %v): there was %s, now the file is %s, which is not the new index: %s", what, reported, before, describe(p.to), why)
	}
	c.Count("new_in_place", 1)
}

func describe(path string) string {
	st, err := os.Stat(path)
	switch {
	case os.IsNotExist(err):
		return "missing"
	case err != nil:
		return err.Error()
	default:
		return fmt.Sprintf("%d bytes long", st.Size())
	}
}

// damage makes a dictionary that can not be compiled of a good one.
func damage(c *kit.Case, d *dict) (text, what string) {
	r := c.R
	text = d.xml(r)
	body := strings.TrimRight(text, "\n")
	switch r.Intn(12) {
	case 0:
		return "", "empty file"
	case 1:
		cut := strings.Index(text, "<dictionary")
		cut = r.Intn(cut + 1)
		return text[:cut], fmt.Sprintf("first %d bytes, without the root element", cut)
	case 2, 3, 4, 5:
		cut := r.Intn(len(body))
		return text[:cut], fmt.Sprintf("first %d of %d bytes", cut, len(text))
	case 6:
		// cut at the end of an element
		ends := regexp.MustCompile(`/>|</[a-z_]+>`).FindAllStringIndex(body, -1)
		e := ends[r.Intn(len(ends)-1)]
		return text[:e[1]], fmt.Sprintf("cut at the end of an element, first %d of %d bytes", e[1], len(text))
	case 7:
		ends := regexp.MustCompile(`</[a-z_]+>`).FindAllStringIndex(body, -1)
		e := ends[r.Intn(len(ends))]
		return text[:e[0]] + text[e[1]:], "an end mark is missing"
	case 8:
		ends := regexp.MustCompile(`</[a-z_]+>`).FindAllStringIndex(body, -1)
		e := ends[r.Intn(len(ends))]
		return text[:e[0]] + "</other>" + text[e[1]:], "an end mark is another"
	case 9:
		ends := regexp.MustCompile(`</[a-z_]+>`).FindAllStringIndex(body, -1)
		at := ends[r.Intn(len(ends))][1]
		return text[:at] + "<<" + text[at:], fmt.Sprintf("<< at %d", at)
	default:
		// a form with a tag that is not declared
		bad := *d
		bad.lemmas = append([]lemma{}, d.lemmas...)
		l := lemma{text: "слово", tags: []string{d.grams[0].name}, forms: []form{{"слово", []string{"ZzZz"}}}}
		if r.Bool() {
			l = lemma{text: "слово", tags: []string{"ZzZz"}, forms: []form{{"слово", nil}}}
		}
		at := r.Intn(len(bad.lemmas) + 1)
		bad.lemmas = append(bad.lemmas[:at:at], append([]lemma{l}, bad.lemmas[at:]...)...)
		return bad.xml(r), fmt.Sprintf("undeclared tag in lemma %d of %d", at, len(bad.lemmas))
	}
}

type outcome struct {
	code   int
	killed bool
	out    string
}

func (o outcome) reported() bool { return o.code != 0 }

func runSelf(env []string, wrap []string, args ...string) outcome {
	all := append(append(append([]string{}, wrap...), kit.Args["self"], "child"), args...)
	cmd := exec.Command(all[0], all[1:]...)
	cmd.Env = append(os.Environ(), env...)
	out, err := cmd.CombinedOutput()
	return outcomeOf(cmd, out, err)
}

func outcomeOf(cmd *exec.Cmd, out []byte, err error) outcome {
	o := outcome{out: string(out)}
	if err != nil && cmd.ProcessState == nil {
		o.code = -1
		o.out += err.Error()
		return o
	}
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	o.killed = ws.Signaled()
	o.code = ws.ExitStatus()
	if o.killed {
		o.code = 128 + int(ws.Signal())
	}
	return o
}

var straceWorks = func() bool {
	out, err := exec.Command("strace", "-f", "-o", "/dev/null", "-e", "trace=write", "true").CombinedOutput()
	return err == nil && len(out) == 0
}

var straceOK bool

const fileCalls = "openat,write,pwrite64,close,rename,renameat,renameat2,unlink,unlinkat,fsync,fdatasync,ftruncate,link,linkat,mkdirat,fchmod,fchmodat,utimensat"

type call struct {
	name string
	nth  int
	line string
}

// fileCallsOf lists the file system calls of a compile run, from the opening of the dictionary on.
func fileCallsOf(c *kit.Case, dir, from, to string) []call {
	log := filepath.Join(dir, "strace.log")
	o := runSelf([]string{"GOMAXPROCS=1"}, []string{"strace", "-f", "-s", "200", "-o", log, "-e", "trace=" + fileCalls}, "compile", dir, from, to, "-1")
	if o.code != 0 {
		c.Skip("compiling under strace: " + o.out)
	}
	var res []call
	counts := map[string]int{}
	started := false
	mainPid := ""
	for _, line := range strings.Split(string(read(log)), "\n") {
		m := regexp.MustCompile(`^(\d+) +([a-z0-9]+)\(`).FindStringSubmatch(line)
		if m == nil {
			continue
		}
		if mainPid == "" {
			mainPid = m[1]
		}
		if m[1] != mainPid {
			continue
		}
		counts[m[2]]++
		if m[2] == "openat" && strings.Contains(line, from) {
			started = true
		}
		if started {
			res = append(res, call{m[2], counts[m[2]], line})
		}
	}
	return res
}

// hit tells of an error injected into the writing or closing of a file below dir other than source.
func hit(log, dir, source string) string {
	for _, line := range strings.Split(string(read(log)), "\n") {
		m := regexp.MustCompile(`^\d+ +(write|pwrite64|close|fsync|fdatasync)\(\d+<([^>]*)>.*\(INJECTED\)`).FindStringSubmatch(line)
		if m != nil && strings.HasPrefix(m[2], dir+"/") && m[2] != source {
			return line
		}
	}
	return ""
}

// unreported demands that an error injected into the writing or closing of a destination is reported.
func unreported(c *kit.Case, log, dir, source string, o outcome) {
	line := hit(log, dir, source)
	if line == "" || o.killed {
		return
	}
	c.Count("destination_errors", 1)
	if o.code == 0 {
		c.Fail("success is reported although the destination failed: %s", line)
	}
}

func c14() kit.Check {
	return kit.Check{
		Rule:  "A case has a previous compiled index or none, and compiles a dictionary over it: damaged XML (every kind of truncation, mismatched marks, undeclared tags), destinations that can not be written, a file size limit at any byte of the output, an error (ENOSPC, EIO) injected into any file system call of the compiling process, SIGKILL at any file system call or instant. Afterwards the file is byte for byte the previous one (or absent as before), or loads and holds exactly the new dictionary; failures must be reported. Non-trivial: the event happened; distinct by event and position.",
		Setup: func(string) error { straceOK = straceWorks(); return nil },
		Groups: []kit.Group{
			{Name: "damaged-xml", Quick: 700, Thorough: 20000, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				p := putPrevious(c, dir, c.R.Chance(70))
				d := randomDict(c.R, c.R.Range(1, 20))
				text, what := damage(c, d)
				from := filepath.Join(dir, "new.xml")
				write(c, from, text)
				c.Op("%s, %s: %s", d, what, text)
				var err error
				c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, p.to) })
				c.Count("failing_compiles", 1)
				if err == nil {
					c.Fail("compiling a damaged dictionary (%s): no error; the file is %s", what, describe(p.to))
				}
				p.check(c, what, true, false, nil)
				c.Sig(what, text)
				c.NonTrivial()
			}},
			{Name: "every-truncation", Quick: 6, Thorough: 60, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				p := putPrevious(c, dir, c.Index%3 != 0)
				d := randomDict(c.R, 2)
				text := d.xml(c.R)
				n := len(strings.TrimRight(text, "\n"))
				from := filepath.Join(dir, "new.xml")
				c.Op("%s: every prefix of %s", d, text)
				loader := opencorpora.NewLoader(dir)
				for cut := 0; cut < n; cut++ {
					write(c, from, text[:cut])
					var err error
					c.NoPanic("compiling", func() { err = loader.ParseUpdate(from, p.to) })
					c.Count("failing_compiles", 1)
					if err == nil {
						c.Fail("compiling the first %d of %d bytes of a dictionary: no error", cut, len(text))
					}
					p.check(c, fmt.Sprintf("first %d bytes", cut), true, false, nil)
				}
				c.Sig(text)
				c.NonTrivial()
			}},
			{Name: "destination", Quick: 60, Thorough: 400, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				d := randomDict(c.R, c.R.Range(0, 9))
				from := filepath.Join(dir, "new.xml")
				write(c, from, d.xml(c.R))
				to := filepath.Join(dir, "none", "x.dat")
				kind := c.Index % 4
				switch kind {
				case 1, 2:
					to = filepath.Join(dir, "is-directory")
					if err := os.Mkdir(to, 0o755); err != nil {
						c.Skip("harness: " + err.Error())
					}
					if kind == 2 {
						write(c, filepath.Join(to, "file"), "x")
					}
				case 3:
					write(c, filepath.Join(dir, "none"), "keep")
				}
				c.Op("destination %q kind %d", to, kind)
				var err error
				c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(from, to) })
				c.Count("failing_compiles", 1)
				switch kind {
				case 0:
					if err == nil {
						if why := holds(c, to, d); why != "" {
							c.Fail("compiling into a missing directory reports no error, and the file %s", why)
						}
					}
				case 1, 2:
					if err == nil {
						c.Fail("compiling onto a directory reports no error")
					}
					if st, e := os.Stat(to); e != nil || !st.IsDir() {
						c.Fail("compiling onto a directory removed it")
					}
				case 3:
					if err == nil {
						c.Fail("compiling below a file reports no error")
					}
					if string(read(filepath.Join(dir, "none"))) != "keep" {
						c.Fail("compiling below a file removed it")
					}
				}
				// a dictionary that does not exist
				p := putPrevious(c, dir, c.R.Bool())
				c.NoPanic("compiling", func() { err = opencorpora.NewLoader(dir).ParseUpdate(filepath.Join(dir, "no.xml"), p.to) })
				if err == nil {
					c.Fail("compiling a missing dictionary reports no error")
				}
				p.check(c, "missing dictionary", true, false, nil)
				c.Sig(kind, d.String())
				c.NonTrivial()
			}},
			{Name: "size-limit", Quick: 160, Thorough: 4000, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				p := putPrevious(c, dir, c.R.Chance(70))
				d := randomDict(c.R, c.R.Range(1, 30))
				from := filepath.Join(dir, "new.xml")
				write(c, from, d.xml(c.R))
				if err := opencorpora.NewLoader(dir).ParseUpdate(from, filepath.Join(dir, "probe.dat")); err != nil {
					c.Skip("compiling a dictionary: " + err.Error())
				}
				st, err := os.Stat(filepath.Join(dir, "probe.dat"))
				if err != nil {
					c.Skip("compiling a dictionary: " + err.Error())
				}
				_ = os.Remove(filepath.Join(dir, "probe.dat"))
				limit := c.R.Intn(int(st.Size()))
				if c.R.Chance(20) {
					limit = int(st.Size()) - 1 - c.R.Intn(3)
				}
				c.Op("%s compiles to %d bytes, files are limited to %d", d, st.Size(), limit)
				o := runSelf(nil, nil, "compile", dir, from, p.to, strconv.Itoa(limit))
				if o.code == 11 || o.code == -1 {
					c.Skip("limits can not be set: " + o.out)
				}
				c.Count("writes_failed", 1)
				c.Op("exit %d %s", o.code, o.out)
				if o.killed || (o.code != 10 && o.code != 0) {
					c.Fail("the process ended with %d: %s", o.code, o.out)
				}
				p.check(c, fmt.Sprintf("destination fails at byte %d of %d", limit, st.Size()), o.reported(), false, d)
				c.Sig(limit, st.Size())
				c.NonTrivial()
			}},
			{Name: "call-faults", Quick: 14, Thorough: 300, Run: func(c *kit.Case) {
				if !straceOK {
					c.Count("strace_unavailable", 1)
					return
				}
				dir := freshDir(c, "c14")
				d := randomDict(c.R, c.R.Range(0, 12))
				from := filepath.Join(dir, "new.xml")
				write(c, from, d.xml(c.R))
				p := putPrevious(c, dir, c.Index%3 != 0)
				log := filepath.Join(c.Scratch, "fault.log")
				probe := freshDir(c, "c14probe")
				p.copyTo(c, filepath.Join(probe, opencorpora.LocalCompiledFilename))
				calls := fileCallsOf(c, probe, from, filepath.Join(probe, opencorpora.LocalCompiledFilename))
				if len(calls) == 0 {
					c.Skip("no file system calls seen")
				}
				c.Op("%s: %d file system calls", d, len(calls))
				c.Max("calls_of_a_compile", len(calls))
				// all calls but the plain writes, and some of these
				var pick []call
				for _, x := range calls {
					if x.name != "write" {
						pick = append(pick, x)
					}
				}
				var writes []call
				for _, x := range calls {
					if x.name == "write" && !strings.Contains(x.line, "write(1,") && !strings.Contains(x.line, "write(2,") {
						writes = append(writes, x)
					}
				}
				n := 6
				if c.Thorough {
					n = 16
				}
				for k := 0; k < n && len(writes) > 0; k++ {
					pick = append(pick, writes[c.R.Intn(len(writes))])
				}
				if len(writes) > 0 {
					pick = append(pick, writes[0], writes[len(writes)-1])
				}
				for _, x := range pick {
					fault := kit.Pick(c.R, []string{"signal=KILL", "signal=KILL", "error=ENOSPC", "error=EIO"})
					if x.name == "close" && c.R.Chance(75) {
						fault = kit.Pick(c.R, []string{"error=ENOSPC", "error=EIO"})
					}
					inject := fmt.Sprintf("inject=%s:%s:when=%d", x.name, fault, x.nth)
					c.Op("%s at %s", inject, x.line)
					o := runSelf([]string{"GOMAXPROCS=1"}, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + x.name, "-e", inject}, "compile", dir, from, p.to, "-1")
					unreported(c, log, dir, from, o)
					died := fault == "signal=KILL" && o.killed
					if !died && o.code != 10 && o.code != 0 {
						c.Fail("%s at %s: the process ended with %d: %s", fault, x.line, o.code, o.out)
					}
					c.Count("call_faults", 1)
					c.Seen("fault_points", kit.Hash(fault+x.name+strconv.Itoa(x.nth)))
					p.check(c, fault+" at "+x.line, o.reported(), died, d)
					if died && c.R.Bool() {
						p.after(c, dir, fault+" at "+x.line)
					}
					p.restore(c)
				}
				c.Sig(len(calls), d.String())
				c.NonTrivial()
			}},
			{Name: "large", Quick: 4, Thorough: 60, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				d := largeDict(c.R, c.R.Range(1300, 1900))
				from := filepath.Join(dir, "new.xml")
				write(c, from, d.xml(c.R))
				p := putPrevious(c, dir, c.Index%4 != 3)
				log := filepath.Join(c.Scratch, "fault.log")
				probe := freshDir(c, "c14probe")
				to := filepath.Join(probe, opencorpora.LocalCompiledFilename)
				p.copyTo(c, to)
				var calls []call
				if straceOK {
					calls = fileCallsOf(c, probe, from, to)
				} else if err := opencorpora.NewLoader(probe).ParseUpdate(from, to); err != nil {
					c.Skip("compiling a dictionary: " + err.Error())
				}
				size := len(read(to))
				if size == 0 {
					if err := opencorpora.NewLoader(probe).ParseUpdate(from, to); err != nil {
						c.Skip("compiling a dictionary: " + err.Error())
					}
					size = len(read(to))
				}
				c.Op("%s compiles to %d bytes", d, size)
				c.Max("bytes_of_an_index", size)
				for _, limit := range []int{size - 1, size / 2, 100000, c.R.Intn(size)} {
					if limit >= size {
						continue
					}
					o := runSelf(nil, nil, "compile", dir, from, p.to, strconv.Itoa(limit))
					if o.code == 11 || o.code == -1 {
						c.Skip("limits can not be set: " + o.out)
					}
					c.Count("writes_failed", 1)
					c.Op("files are limited to %d: exit %d", limit, o.code)
					p.check(c, fmt.Sprintf("destination fails at byte %d of %d", limit, size), o.reported(), false, d)
					p.restore(c)
				}
				for k := 0; k < 4; k++ { // killed when the file itself is touched, or soon after
					delay := time.Duration(k*c.R.Intn(1000)) * time.Microsecond
					cmd := exec.Command(kit.Args["self"], "child", "compile", dir, from, p.to, "-1")
					w := newWatch()
					w.add(dir)
					if err := cmd.Start(); err != nil {
						c.Skip("harness: " + err.Error())
					}
					var stop func()
					if w != nil {
						stop = w.killAt(opencorpora.LocalCompiledFilename+"\x00", delay, func() { _ = cmd.Process.Kill() })
					}
					err := cmd.Wait()
					if stop != nil {
						stop()
					}
					o := outcomeOf(cmd, nil, err)
					c.Count("kills", 1)
					c.Op("killed %v after the file was touched: %d", delay, o.code)
					p.check(c, fmt.Sprintf("killed %v after the file was touched", delay), o.reported(), o.killed, d)
					p.restore(c)
				}
				if n := len(calls); n > 0 { // the last calls
					c.Max("calls_of_a_compile", n)
					for at := 1; at <= 10 && at <= n; at++ {
						x := calls[n-at]
						if strings.Contains(x.line, "write(1,") || strings.Contains(x.line, "write(2,") || x.nth > 65000 {
							continue
						}
						fault := kit.Pick(c.R, []string{"signal=KILL", "error=ENOSPC", "error=EIO"})
						inject := fmt.Sprintf("inject=%s:%s:when=%d", x.name, fault, x.nth)
						o := runSelf([]string{"GOMAXPROCS=1"}, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + x.name, "-e", inject}, "compile", dir, from, p.to, "-1")
						unreported(c, log, dir, from, o)
						died := fault == "signal=KILL" && o.killed
						c.Op("%s at %s: exit %d", inject, x.line, o.code)
						if !died && o.code != 10 && o.code != 0 {
							c.Fail("%s at %s: the process ended with %d: %s", fault, x.line, o.code, o.out)
						}
						c.Count("call_faults", 1)
						p.check(c, fault+" at "+x.line, o.reported(), died, d)
						if died {
							p.after(c, dir, fault+" at "+x.line)
						}
						p.restore(c)
					}
				}
				c.Sig(d.String(), size)
				c.NonTrivial()
			}},
			{Name: "kill-any-time", Quick: 40, Thorough: 800, Run: func(c *kit.Case) {
				dir := freshDir(c, "c14")
				p := putPrevious(c, dir, c.R.Chance(80))
				d := randomDict(c.R, c.R.Range(100, 400))
				from := filepath.Join(dir, "new.xml")
				write(c, from, d.xml(c.R))
				cmd := exec.Command(kit.Args["self"], "child", "compile", dir, from, p.to, "-1")
				started := time.Now()
				if err := cmd.Run(); err != nil {
					c.Skip("compiling a dictionary: " + err.Error())
				}
				took := time.Since(started)
				p.restore(c)
				for k := 0; k < 5; k++ {
					after := time.Duration(c.R.Intn(int(took)))
					cmd := exec.Command(kit.Args["self"], "child", "compile", dir, from, p.to, "-1")
					if err := cmd.Start(); err != nil {
						c.Skip("harness: " + err.Error())
					}
					time.Sleep(after)
					_ = cmd.Process.Kill()
					err := cmd.Wait()
					o := outcomeOf(cmd, nil, err)
					c.Count("kills", 1)
					c.Op("killed after %v of %v: %d", after, took, o.code)
					p.check(c, fmt.Sprintf("killed after %v of %v", after, took), o.reported(), o.killed, d)
					if o.killed && k == 4 {
						p.after(c, dir, fmt.Sprintf("killed after %v of %v", after, took))
					}
					p.restore(c)
				}
				c.Sig(d.String(), c.Index)
				c.NonTrivial()
			}},
		},
	}
}

// restore puts the previous state back.
func (p *previous) restore(c *kit.Case) {
	if p.kept() {
		return
	}
	_ = os.Remove(p.to)
	p.copyTo(c, p.to)
}

func c04() kit.Check {
	return kit.Check{
		Rule: "A compiled index file is cut at any byte and loaded from disk through the dictionary loader, which must report an error. Non-trivial: at least one cut file; distinct by content.",
		Groups: []kit.Group{
			{Name: "cut-on-disk", Quick: 40, Thorough: 400, Run: func(c *kit.Case) {
				dir := freshDir(c, "c04")
				p := putPrevious(c, dir, true)
				loader := opencorpora.NewLoader(dir)
				c.Op("compiled index of %d bytes", len(p.data))
				for k := 0; k < 60; k++ {
					cut := c.R.Intn(len(p.data))
					if k < 12 {
						cut = len(p.data) - 1 - k
					}
					if cut < 0 {
						continue
					}
					write(c, p.to, string(p.data[:cut]))
					var (
						err error
						idx *index.Index
					)
					c.NoPanic(fmt.Sprintf("loading %d of %d bytes", cut, len(p.data)), func() { idx, err = loader.LoadIndex() })
					c.Count("cut_files", 1)
					if err == nil {
						c.Fail("loading the first %d of %d bytes of a compiled index: no error", cut, len(p.data))
					}
					_ = idx
				}
				c.Sig(kit.HashB(p.data))
				c.NonTrivial()
			}},
		},
	}
}
