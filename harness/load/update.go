package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// shared is the remote of the checks that call the loader in this process.
var shared *remote

func sharedRemote(scratch string) error {
	var err error
	if shared, err = newRemote(); err != nil {
		return err
	}
	for _, kv := range shared.proxy() {
		k, v, _ := strings.Cut(kv, "=")
		if err := os.Setenv(k, v); err != nil {
			return err
		}
	}
	return makePool(scratch, []int{3, 8, 20, 60})
}

// ---- C26 --------------------------------------------------------------------

type fileState struct {
	data []byte
	mod  time.Time
	dir  bool
}

func stateOf(path string) *fileState {
	st, err := os.Lstat(path)
	if err != nil {
		return nil
	}
	return &fileState{read(path), st.ModTime(), st.IsDir()}
}

func (s *fileState) same(o *fileState) bool {
	if s == nil || o == nil {
		return s == o
	}
	return s.dir == o.dir && bytes.Equal(s.data, o.data) && s.mod.Equal(o.mod)
}

func (s *fileState) String() string {
	switch {
	case s == nil:
		return "absent"
	case s.dir:
		return "a directory"
	default:
		return fmt.Sprintf("%d bytes of %s", len(s.data), s.mod.UTC().Format(time.RFC3339Nano))
	}
}

// snapshot lists a tree.
func snapshot(root string) map[string]*fileState {
	res := map[string]*fileState{}
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil {
			s := stateOf(p)
			if s.dir {
				s.mod = time.Time{}
			}
			res[p] = s
		}
		return nil
	})
	return res
}

func c26() kit.Check {
	return kit.Check{
		Rule:  "A case sets a local state (no data path, no file, file with a time before, at or after the remote's by fractions of a second to years, empty file, directory in its place, data path below a file), makes a fake remote answer (statuses, modification header present, absent or malformed, dropped connection, error page, body broken at any byte with and without announced length, or all well), and asks which files exist and whether an update is wanted, then downloads; requests seen by the remote, results and the data path are compared with the expectation. The remote may send the loader elsewhere up to three times before it answers. Group bulk downloads and unpacks as much as the real dictionary has, in several packed streams. With a data path that can not be made every operation must report an error. In group call-faults a download or an unpacking runs in a process of its own in which a file system call fails or kills it: the file is then complete if success is reported, as before if an error is, and the next version of the remote is fetched after it. Non-trivial: every case; distinct by the combination.",
		Setup: func(scratch string) error { straceOK = straceWorks(); return sharedRemote(scratch) },
		Groups: []kit.Group{
			{Name: "fetch", Quick: 4000, Thorough: 20000, Serial: true, Run: fetchCase},
			{Name: "bulk", Quick: 2, Thorough: 40, Serial: true, Run: bulkCase},
			{Name: "call-faults", Quick: 40, Thorough: 800, Run: fetchFaults},
			{Name: "unmakeable", Quick: 60, Thorough: 1000, Serial: true, Run: unmakeableCase},
			{Name: "disk-full", Quick: 24, Thorough: 400, Run: func(c *kit.Case) {
				// the local file can not be written beyond a limit
				dir := freshDir(c, "c26")
				r, err := newRemote()
				if err != nil {
					c.Skip("harness: " + err.Error())
				}
				defer r.close()
				body := bytes.Repeat([]byte("0123456789abcdef"), c.R.Range(1, 6000))
				r.publish(body, time.Now().Add(-time.Hour))
				target := filepath.Join(dir, opencorpora.LocalSourceFilename)
				if c.R.Chance(70) {
					write(c, target, "previous")
					old := time.Now().Add(-48 * time.Hour)
					_ = os.Chtimes(target, old, old)
				}
				before := stateOf(target)
				limit := c.R.Intn(len(body))
				o := runSelf(r.proxy(), nil, "download", dir, strconv.Itoa(limit))
				c.Op("local %s, download of %d bytes limited to %d: %d %s", before, len(body), limit, o.code, o.out)
				if o.code == 11 || o.code == -1 {
					c.Skip("limits can not be set: " + o.out)
				}
				if o.code != 10 {
					c.Fail("a download that can not be written reports no error (exit %d): %s", o.code, o.out)
				}
				if after := stateOf(target); !before.same(after) {
					c.Fail("a download that could not be written changed the previous one from %s to %s", before, after)
				}
				c.Count("failed_writes", 1)
				c.Sig(len(body), limit)
				c.NonTrivial()
			}},
		},
	}
}

// fetchFaults downloads or unpacks in a process of its own whose file system calls fail or kill it.
func fetchFaults(c *kit.Case) {
	if !straceOK {
		c.Count("strace_unavailable", 1)
		return
	}
	r := c.R
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	p, q := pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
	rem.publish(p.bz2, time.Now().Add(-time.Hour))
	unpacking := c.Index%2 == 1
	operation, target, wanted := "download", opencorpora.LocalSourceFilename, p.bz2
	if !unpacking && r.Bool() { // of several pieces
		wanted = bytes.Repeat([]byte{byte(r.Intn(256)), 'x', byte(r.Intn(256))}, r.Range(10, 60000))
		rem.publish(wanted, time.Now().Add(-time.Hour))
	}
	if unpacking {
		operation, target, wanted = "unpack", opencorpora.LocalUnpackedFilename, []byte(p.text)
	}
	prepare := func(previous bool) string {
		dir := freshDir(c, "c26")
		old := time.Now().Add(-48 * time.Hour)
		put := func(name, text string) {
			write(c, filepath.Join(dir, name), text)
			if err := os.Chtimes(filepath.Join(dir, name), old, old); err != nil {
				c.Skip("harness: " + err.Error())
			}
		}
		if previous {
			put(opencorpora.LocalSourceFilename, string(q.bz2))
			put(opencorpora.LocalUnpackedFilename, q.text)
		}
		if unpacking {
			put(opencorpora.LocalSourceFilename, string(p.bz2))
		}
		rem.faultless()
		return dir
	}
	previous := r.Chance(70)
	dir := prepare(previous)
	log := filepath.Join(c.Scratch, "strace.log")
	env := append(rem.proxy(), "GOMAXPROCS=1")
	o := runSelf(env, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + fileCalls}, operation, dir, "-1")
	if o.code != 0 {
		c.Skip(operation + " under strace: " + o.out)
	}
	var calls []call
	counts := map[string]int{} // counted for each thread, as strace does
	for _, line := range strings.Split(string(read(log)), "\n") {
		if m := regexp.MustCompile(`^(\d+) +([a-z0-9]+)\(`).FindStringSubmatch(line); m != nil {
			counts[m[1]+m[2]]++
			if strings.Contains(line, dir) {
				calls = append(calls, call{m[2], counts[m[1]+m[2]], line})
			}
		}
	}
	if len(calls) == 0 {
		c.Skip("no file system calls seen")
	}
	c.Max("calls_of_"+operation, len(calls))
	pick := calls
	for len(pick) > 14 {
		k := 1 + r.Intn(len(pick)-2)
		if pick[k].name == "write" || r.Chance(10) {
			pick = append(append([]call{}, pick[:k]...), pick[k+1:]...)
		}
	}
	for _, x := range pick {
		fault := kit.Pick(r, []string{"signal=KILL", "error=ENOSPC", "error=EIO"})
		previous := r.Chance(70)
		dir := prepare(previous)
		before := snapshot(dir)
		file := filepath.Join(dir, target)
		inject := fmt.Sprintf("inject=%s:%s:when=%d", x.name, fault, x.nth)
		o := runSelf(env, []string{"strace", "-f", "-y", "-o", log, "-e", "trace=" + x.name, "-e", inject}, operation, dir, "-1")
		source := filepath.Join(dir, opencorpora.LocalSourceFilename)
		if !unpacking {
			source = ""
		}
		unreported(c, log, dir, source, o)
		what := fmt.Sprintf("%s (previous %v), %s at %s: exit %d", operation, previous, fault, x.line, o.code)
		c.Op("%s", what)
		c.Count("call_faults", 1)
		c.Seen("fault_points", kit.Hash(operation+fault+x.name+strconv.Itoa(x.nth)))
		got, kept := stateOf(file), before[file].same(stateOf(file))
		complete := got != nil && bytes.Equal(got.data, wanted)
		upset := o.code == 2 && strings.Contains(o.out, "fatal error: ") && !strings.Contains(o.out, "panic: ") // the runtime was hit
		if upset {
			c.Count("runtime_hit", 1)
		}
		switch {
		case o.killed, upset:
			if !kept && !complete {
				c.Fail("%s: the file was %s and is %s", what, before[file], got)
			}
			c.Count("fetches_killed", 1)
			if r.Bool() { // what the killed one left is not in the way of a smaller one
				small := pool[r.Intn(3)]
				if unpacking {
					write(c, filepath.Join(dir, opencorpora.LocalSourceFilename), string(small.bz2))
				} else {
					rem.publish(small.bz2, time.Now().Add(-time.Second))
				}
				o := runSelf(env, nil, operation, dir, "-1")
				want := small.bz2
				if unpacking {
					want = []byte(small.text)
				}
				if got := stateOf(file); o.code == 0 && (got == nil || !bytes.Equal(got.data, want)) {
					c.Fail("%s; then the same of %d bytes reports success, and the file is %s", what, len(want), got)
				} else if o.code != 0 {
					c.Fail("%s; then the same of %d bytes: exit %d: %s", what, len(want), o.code, o.out)
				}
				c.Count("fetched_after_kills", 1)
				if !unpacking {
					rem.publish(wanted, time.Now().Add(-time.Hour))
				}
				continue
			}
		case o.code == 0:
			if !complete {
				c.Fail("%s: success is reported, and the file is %s instead of %d bytes", what, got, len(wanted))
			}
			c.Count("fetches_done_in_spite_of_faults", 1)
			if !unpacking && x.name != "unlinkat" {
				// the next version of the remote is not missed, although it is older than this moment
				next := []byte(fmt.Sprintf("next %d", r.U64()))
				rem.publish(next, time.Now().Add(-time.Duration(r.Range(2, 3500))*time.Second))
				o := runSelf(env, nil, operation, dir, "-1")
				if got := stateOf(file); got == nil || !bytes.Equal(got.data, next) {
					c.Fail("%s; then the remote changed, a download exits with %d and the file is %s: %s", what, o.code, got, o.out)
				}
				rem.publish(wanted, time.Now().Add(-time.Hour))
				c.Count("fetched_after_faults", 1)
			}
		case o.code == 10:
			if !kept {
				c.Fail("%s: an error is reported, and the file was %s and is %s", what, before[file], got)
			}
			c.Count("fetches_failed", 1)
		default:
			if strings.Contains(o.out, "goroutine ") {
				c.Fail("%s: %s", what, o.out)
			}
			c.Count("fetches_upset", 1)
		}
		for path, s := range snapshot(dir) {
			known := path == file || path == dir
			if !known && before[path] == nil && !o.killed && x.name != "unlinkat" && (o.code == 0 || o.code == 10) {
				c.Fail("%s: leaves %s: %s", what, filepath.Base(path), s)
			}
			if path != file && before[path] != nil && path != dir && !before[path].same(s) {
				c.Fail("%s: %s was %s and is %s", what, filepath.Base(path), before[path], s)
			}
		}
	}
	c.Sig(operation, p.name, q.name, len(calls), fmt.Sprint(r.U64()))
	c.NonTrivial()
}

// unmakeableCase uses a data path that can not be made.
func unmakeableCase(c *kit.Case) {
	r := c.R
	root := freshDir(c, "c26")
	link := filepath.Join(root, "link")
	dir := link
	switch c.Index % 5 {
	case 0:
		if err := os.Symlink(filepath.Join(root, "no", "where"), link); err != nil {
			c.Skip("harness: " + err.Error())
		}
	case 1:
		if err := os.Symlink(filepath.Join(root, "no", "where"), link); err != nil {
			c.Skip("harness: " + err.Error())
		}
		dir = filepath.Join(link, "sub", "dir")
	case 2:
		if err := os.Symlink(link, link); err != nil {
			c.Skip("harness: " + err.Error())
		}
	case 3:
		dir = filepath.Join(root, strings.Repeat("long", 100))
	case 4:
		write(c, link, "a file")
		dir = filepath.Join(link, "sub")
	}
	from := filepath.Join(root, "valid.xml")
	write(c, from, pool[0].text)
	shared.publish(pool[0].bz2, time.Now().Add(-time.Hour))
	shared.set(reply{cut: -1}, reply{cut: -1})
	loader := opencorpora.NewLoader(dir)
	before := snapshot(root)
	ops := []struct {
		name string
		run  func() error
	}{
		{"downloading", func() error {
			updated, err := loader.DownloadUpdate()
			if updated {
				return nil
			}
			return err
		}},
		{"unpacking", loader.UnpackUpdate},
		{"compiling", func() error {
			return loader.ParseUpdate(from, filepath.Join(loader.DataPath(), opencorpora.LocalCompiledFilename))
		}},
		{"loading", func() error { _, err := loader.LoadIndex(); return err }},
		{"updating", func() error { return loader.Update(false) }},
		{"updating by force", func() error { return loader.Update(true) }},
	}
	for _, i := range r.Perm(len(ops)) {
		op, err := ops[i], error(nil)
		c.Op("%s with a data path that can not be made (%d)", op.name, c.Index%5)
		c.NoPanic(op.name, func() { err = op.run() })
		c.Count("impossible_operations", 1)
		if err == nil {
			c.Fail("%s with a data path that can not be made (%s) reports no error", op.name, strings.TrimPrefix(dir, root))
		}
	}
	if d := diffSnapshots(before, snapshot(root)); d != "" {
		c.Fail("with a data path that can not be made %s", d)
	}
	c.Sig(c.Index%5, fmt.Sprint(r.U64()))
	c.NonTrivial()
}

func fetchCase(c *kit.Case) {
	r := c.R
	root := freshDir(c, "c26")
	dir := filepath.Join(root, dataName(c))
	target := filepath.Join(dir, opencorpora.LocalSourceFilename)
	now := time.Now().Truncate(time.Second)
	remoteTime := now.Add(-time.Duration(r.Range(3600, 3600*24*900)) * time.Second)
	if r.Chance(20) {
		remoteTime = time.Unix(kit.Pick(r, []int64{0, 1, 86399, 315532799, 951782400, 1078012800, 2147483647, 2147483648, 4102444799, 4294967296, 7258118399}), 0)
	}
	local := r.Intn(12)
	kind := "local copy"
	delta := kit.Pick(r, []time.Duration{
		0, 1, -1, time.Millisecond, -time.Millisecond, 999 * time.Millisecond, -999 * time.Millisecond, time.Second, -time.Second,
		time.Minute, -time.Minute, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour, 9000 * time.Hour, -9000 * time.Hour,
	})
	odd := false
	mkdir := func() {
		if err := os.MkdirAll(dir, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
	}
	switch local {
	case 0:
		kind = "no data path"
		if r.Bool() {
			kind = "no data path nor what it lies in"
			dir = filepath.Join(root, "a", "b", "data")
			target = filepath.Join(dir, opencorpora.LocalSourceFilename)
		}
	case 1, 2:
		kind = "no local copy"
		mkdir()
	case 3:
		kind = "directory in place of the local copy"
		odd = true
		if err := os.MkdirAll(target, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
	case 4:
		kind = "data path below a file"
		odd = true
		write(c, dir, "file")
		dir = filepath.Join(dir, "sub")
		target = filepath.Join(dir, opencorpora.LocalSourceFilename)
	default:
		mkdir()
		data := "previous"
		if r.Chance(10) {
			data = ""
		} else if r.Chance(20) {
			data = string(pool[0].bz2)
		}
		kind = fmt.Sprintf("local copy %v after the remote", delta)
		if r.Chance(20) { // it is kept elsewhere
			real := filepath.Join(root, "kept", "dictionary.bz2")
			if err := os.MkdirAll(filepath.Dir(real), 0o755); err != nil {
				c.Skip("harness: " + err.Error())
			}
			to := real
			if r.Bool() {
				to = filepath.Join("..", "kept", "dictionary.bz2")
			}
			if err := os.Symlink(to, target); err != nil {
				c.Skip("harness: " + err.Error())
			}
			kind += ", a link"
			c.Count("linked_copies", 1)
			if r.Chance(25) {
				kind = "a link that leads nowhere"
				break
			}
		}
		write(c, target, data)
		mt := remoteTime.Add(delta)
		if err := os.Chtimes(target, mt, mt); err != nil {
			c.Skip("harness: " + err.Error())
		}
	}
	_, statErr := os.Stat(target)
	exists := statErr == nil
	content := pool[r.Intn(len(pool))].bz2
	if r.Chance(20) {
		content = bytes.Repeat([]byte{byte(r.Intn(256))}, r.Range(1, 300000))
	}
	shared.publish(content, remoteTime)
	head, get := reply{cut: -1}, reply{cut: -1, chunked: r.Bool()}
	headWhat, getWhat := "head ok", "get ok"
	comparable, headBad, getBad := true, false, false
	switch r.Intn(8) {
	case 0, 1:
		head, headWhat = badHead(r)
		headBad = true
	case 2:
		head.noModHdr = true
		headWhat = "head without modification time"
		comparable = false
	case 3:
		head.modHdr = kit.Pick(r, []string{"yesterday", "0", "-1", "2020-01-02T03:04:05Z", "Mon, 99 Jan 2020 00:00:00 GMT", ",", "Mon, 02 Jan 2020 03:04:05", "\x80\xff", "1577934245", strings.Repeat("9", 5000)})
		headWhat = fmt.Sprintf("head with modification time %.40q", head.modHdr)
		comparable = false
	}
	noTime := false
	if r.Chance(45) {
		get, getWhat = badGet(r, len(content))
		getBad = true
	} else {
		if r.Chance(30) {
			get.noModHdr, getWhat, noTime = true, "get without modification time", true
		}
		if !get.chunked && r.Chance(40) {
			get.closing = true
			getWhat += ", of unknown length"
		}
	}
	if moved := elsewhere(r, 20, &head, &get); moved != "" {
		getWhat += moved
		if get.coded {
			c.Count("answers_gzipped", 1)
		}
		if get.moved > 0 || head.moved > 0 {
			c.Count("answers_from_elsewhere", 1)
		}
	}
	c.Op("%s; %s; %s", kind, headWhat, getWhat)
	c.Sig(kind, headWhat, getWhat)
	c.Seen("combinations", kit.Hash(kind+headWhat+getWhat))
	c.NonTrivial()

	loader := opencorpora.NewLoader(dir)
	before := snapshot(root)
	compare := func(what string, but string) {
		after := snapshot(root)
		for p, s := range before {
			if p != but && !s.same(after[p]) {
				c.Fail("%s: %s changed from %s to %s", what, p, s, after[p])
			}
		}
		for p, s := range after {
			if before[p] == nil && p != but && p != dir && !strings.HasPrefix(p, dir+"/") && !strings.HasPrefix(dir, p+"/") {
				c.Fail("%s: %s appeared: %s", what, p, s)
			}
		}
		if but != target && before[target] == nil && after[target] != nil {
			c.Fail("%s: a local copy appeared", what)
		}
	}

	// is it there?
	if !odd {
		shared.set(head, get)
		other := filepath.Join(dir, opencorpora.LocalUnpackedFilename)
		if exists || local == 1 {
			switch r.Intn(3) {
			case 0:
				write(c, other, "")
			case 1:
				write(c, other, "unpacked")
			}
			before = snapshot(root)
		}
		c.NoPanic("looking for the files", func() {
			if got := loader.IsDownloadExists(); got != exists {
				c.Fail("the download is %s, that it exists is answered with %v", stateOf(target), got)
			}
			if got := loader.IsUnpackedExists(); got != (stateOf(other) != nil) {
				c.Fail("the unpacked file is %s, that it exists is answered with %v", stateOf(other), got)
			}
		})
		if len(shared.seen()) > 0 {
			c.Fail("looking for the files asks the remote")
		}
		compare("looking for the files", "")
		c.Count("existence_checks", 2)
	}

	// is it wanted?
	shared.set(head, get)
	var (
		want bool
		err  error
	)
	c.NoPanic("asking for an update", func() { want, err = loader.IsUpdateRequired() })
	c.Count("decisions", 1)
	if shared.count("GET") > 0 {
		c.Fail("asking for an update downloads")
	}
	compare("asking for an update", "")
	newer := remoteTime.After(remoteTime.Add(delta))
	decide := func(what string) (known, wanted, fails bool) {
		switch {
		case odd:
			return false, false, false
		case !exists:
			return true, true, false
		case headBad:
			return true, false, true
		case !comparable:
			return false, false, false
		default:
			return true, newer, false
		}
	}
	known, wanted, fails := decide("")
	if known {
		switch {
		case fails && err == nil:
			c.Fail("asking for an update: the check failed and no error is reported (wanted %v)", want)
		case fails && want:
			c.Fail("asking for an update: the check failed, yet the update is wanted")
		case !fails && err != nil:
			c.Fail("asking for an update: %v", err)
		case !fails && want != wanted:
			c.Fail("asking for an update: wanted %v, expected %v", want, wanted)
		}
	}

	// the download
	shared.set(head, get)
	var updated bool
	var derr error
	c.NoPanic("downloading", func() { updated, derr = loader.DownloadUpdate() })
	c.Count("downloads", 1)
	gets := shared.count("GET")
	switch {
	case odd:
		if updated && local == 4 {
			c.Fail("downloading below a file reports success")
		}
		compare("downloading with an odd local state", func() string {
			if updated {
				return target
			}
			return ""
		}())
		return
	case !known:
		wanted = want
		if err != nil {
			fails = true
		}
	}
	switch {
	case fails || !wanted:
		if gets > 0 {
			c.Fail("downloading: no update is wanted or the check fails, yet %v were sent", shared.seen())
		}
		if updated {
			c.Fail("downloading: no update is wanted or the check fails, yet an update is reported")
		}
		if fails && derr == nil {
			c.Fail("downloading: the check failed and no error is reported")
		}
		if !fails && derr != nil {
			c.Fail("downloading: no update is wanted, yet: %v", derr)
		}
		compare("downloading without need", "")
		c.Count("nothing_wanted", 1)
	case getBad:
		if derr == nil || updated {
			c.Fail("a failed download (%s) reports updated %v, error %v; the local copy is %s", getWhat, updated, derr, stateOf(target))
		}
		compare("a failed download ("+getWhat+")", "")
		c.Count("failed_downloads", 1)
	default:
		if derr != nil || !updated {
			c.Fail("a wanted download: updated %v, error %v", updated, derr)
		}
		if gets != 1 {
			c.Fail("a wanted download sends %v", shared.seen())
		}
		if got := read(target); !bytes.Equal(got, content) {
			c.Fail("a download of %d bytes leaves %s, with other content", len(content), stateOf(target))
		}
		compare("a download", target)
		c.Count("complete_downloads", 1)
		// and then nothing is wanted
		shared.set(reply{cut: -1}, reply{cut: -1})
		next := remoteTime.Add(time.Duration(r.Range(1, 10)) * time.Second)
		if noTime { // all that is known of it is when it was fetched
			next = time.Now().Add(time.Duration(r.Range(2, 10)) * time.Second)
		}
		if !noTime || remoteTime.Before(now) {
			if want, err = loader.IsUpdateRequired(); err != nil || want {
				c.Fail("asking for an update after the download: wanted %v, error %v", want, err)
			}
		}
		// until the remote changes
		shared.publish(content, next)
		if want, err = loader.IsUpdateRequired(); err != nil || !want {
			c.Fail("asking for an update after the remote changed: wanted %v, error %v", want, err)
		}
	}
}

// ---- C16 --------------------------------------------------------------------

// watch reports changes in directories by inotify.
type watch struct {
	fd   int
	dirs map[int32]string
}

func newWatch() *watch {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		return nil
	}
	return &watch{fd, map[int32]string{}}
}

func (w *watch) add(dir string) {
	if w == nil {
		return
	}
	wd, err := syscall.InotifyAddWatch(w.fd, dir, syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MODIFY|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO)
	if err == nil {
		w.dirs[int32(wd)] = dir
	}
}

// events drains the events seen.
func (w *watch) events() (res []string) {
	if w == nil {
		return nil
	}
	buf := make([]byte, 65536)
	for {
		n, err := syscall.Read(w.fd, buf)
		if err != nil || n <= 0 {
			return res
		}
		for off := 0; off+syscall.SizeofInotifyEvent <= n; {
			ev := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[off]))
			name := string(bytes.TrimRight(buf[off+syscall.SizeofInotifyEvent:off+syscall.SizeofInotifyEvent+int(ev.Len)], "\x00"))
			if ev.Mask&(syscall.IN_IGNORED|syscall.IN_Q_OVERFLOW) == 0 {
				res = append(res, filepath.Join(w.dirs[ev.Wd], name))
			}
			off += syscall.SizeofInotifyEvent + int(ev.Len)
		}
	}
}

// killAt calls kill when a file changes whose name begins so, or is so up to a zero byte. What it returns ends the watch.
func (w *watch) killAt(name string, delay time.Duration, kill func()) func() {
	quit, done := make(chan struct{}), make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case <-quit:
				return
			default:
			}
			for _, e := range w.events() {
				if base := filepath.Base(e); strings.HasPrefix(base, name) || base+"\x00" == name {
					time.Sleep(delay)
					select {
					case <-quit:
					default:
						kill()
					}
					return
				}
			}
			time.Sleep(20 * time.Microsecond)
		}
	}()
	return func() {
		close(quit)
		<-done
		w.close()
	}
}

func (w *watch) close() {
	if w != nil {
		_ = syscall.Close(w.fd)
	}
}

func c16() kit.Check {
	return kit.Check{
		Rule:   "A case gives the loader a data path (none, nested, existing or not, relative to a scratch working directory, absolute, unclean spelling, changed on the way) and runs loader operations, with and without faults of the remote and damaged inputs; directory change events (inotify) and snapshots of everything around (working directory, temporary and home directory) are compared. Non-trivial: at least one file written; distinct by path and operations.",
		Setup:  sharedRemote,
		Groups: []kit.Group{{Name: "paths", Quick: 500, Thorough: 8000, Serial: true, Run: pathsCase}},
	}
}

func pathsCase(c *kit.Case) {
	r := c.R
	root := freshDir(c, "c16")
	cwd := filepath.Join(root, "cwd")
	for _, d := range []string{"cwd", "cwd/old/data", "tmp", "home", "abs"} {
		if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
	}
	old, _ := os.Getwd()
	if err := os.Chdir(cwd); err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer os.Chdir(old)
	for _, k := range []string{"TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_DATA_HOME"} {
		was, had := os.LookupEnv(k)
		v := filepath.Join(root, "home")
		if k == "TMPDIR" {
			v = filepath.Join(root, "tmp")
		}
		_ = os.Setenv(k, v)
		k := k
		defer func() {
			if had {
				_ = os.Setenv(k, was)
			} else {
				_ = os.Unsetenv(k)
			}
		}()
	}
	pickPath := func() string {
		return kit.Pick(r, []string{
			"", "data", "a/b/c", "./x", "old/data", "old/data/sub", "a/../b", "data/", "имя/données", filepath.Join(root, "abs", "new"),
			filepath.Join(root, "abs"), filepath.Join(root, "abs/x/y/z"), "../abs/rel", ".data/opencorpora", ".data/other",
			"data ", " x/ y ", "$HOME/x", "${TMPDIR}", "~", "~/data", "%20", "data.tmp", filepath.Join(root, "abs", "new "), "-p", "file:data",
		})
	}
	effective := func(p string) string {
		if p == "" {
			p = common.DomainDataPath(opencorpora.DomainName)
		}
		if !filepath.IsAbs(p) {
			p = filepath.Join(cwd, p)
		}
		return filepath.Clean(p)
	}
	given := pickPath()
	dir := effective(given)
	loader := opencorpora.NewLoader(given)
	c.Op("data path %q", given)
	if r.Chance(25) {
		given = pickPath()
		dir = effective(given)
		loader.SetDataPath(given)
		c.Op("data path set to %q", given)
	}
	if got := loader.DataPath(); effective(got) != dir {
		c.Fail("the data path is %q, given was %q", got, given)
	}
	if !strings.HasPrefix(dir, root+"/") {
		c.Skip("the default data path is elsewhere")
	}
	file := func(n string) string { return filepath.Join(dir, n) }
	var done []string
	wrote := false
	for k := r.Range(1, 5); k > 0; k-- {
		p := pool[r.Intn(len(pool))]
		shared.publish(p.bz2, time.Now().Add(-2*time.Second))
		head, get := reply{cut: -1}, reply{cut: -1}
		what := ""
		faulty := false
		if r.Chance(30) {
			faulty = true
			if r.Chance(30) {
				head, what = badHead(r)
			} else {
				get, what = badGet(r, len(p.bz2))
			}
		}
		shared.set(head, get)
		w := newWatch()
		_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.IsDir() && p != dir && !strings.HasPrefix(p, dir+"/") {
				w.add(p)
			}
			return nil
		})
		if w == nil {
			c.Count("inotify_unavailable", 1)
		}
		before := snapshot(root)
		op := r.Intn(8)
		name := ""
		var err error
		complete := false
		c.NoPanic("the loader", func() {
			switch op {
			case 0:
				name = "download"
				var up bool
				up, err = loader.DownloadUpdate()
				complete = err == nil && up
			case 1:
				name = "unpack"
				err = loader.UnpackUpdate()
			case 2:
				name = "compile"
				if stateOf(file(opencorpora.LocalUnpackedFilename)) == nil {
					_ = os.MkdirAll(dir, 0o755)
					text := p.text
					if r.Chance(30) {
						text = text[:len(text)/2]
					}
					_ = os.WriteFile(file(opencorpora.LocalUnpackedFilename), []byte(text), 0o644)
					before = snapshot(root)
					w.events()
				}
				err = loader.ParseUpdate(file(opencorpora.LocalUnpackedFilename), file(opencorpora.LocalCompiledFilename))
			case 3:
				name = "load"
				_, err = loader.LoadIndex()
			case 4:
				name = "ask"
				_, err = loader.IsUpdateRequired()
				loader.IsDownloadExists()
				loader.IsUnpackedExists()
			case 5:
				name = "update without force"
				err = loader.Update(false)
				complete = err == nil
			default:
				name = "update"
				err = loader.Update(true)
				complete = err == nil
			}
		})
		c.Op("%s %s: %v", name, what, err)
		c.Count("operations", 1)
		done = append(done, name, what)
		// nothing elsewhere
		allowed := func(p string) bool {
			return p == dir || strings.HasPrefix(p, dir+"/") || strings.HasPrefix(dir, p+"/")
		}
		for _, e := range w.events() {
			if !allowed(e) {
				c.Fail("%s: %s was changed, the data path is %s", name, e, dir)
			}
			c.Count("directory_events", 1)
		}
		w.close()
		after := snapshot(root)
		for p, s := range before {
			if !allowed(p) && !s.same(after[p]) {
				c.Fail("%s: %s changed from %s to %s, the data path is %s", name, p, s, after[p], dir)
			}
			if after[p] == nil && p == dir {
				c.Fail("%s removed the data path", name)
			}
		}
		for p, s := range after {
			if before[p] == nil {
				wrote = wrote || !s.dir
				if !allowed(p) {
					c.Fail("%s: %s appeared, the data path is %s", name, p, dir)
				}
				// ancestors of the data path and it itself as directories, files in it
				if p == dir || strings.HasPrefix(dir, p+"/") {
					if !s.dir {
						c.Fail("%s: %s appeared as a file", name, p)
					}
					continue
				}
				base := filepath.Base(p)
				if (complete || err == nil) && (filepath.Dir(p) != dir || (base != opencorpora.LocalSourceFilename && base != opencorpora.LocalUnpackedFilename && base != opencorpora.LocalCompiledFilename)) {
					c.Fail("%s succeeds and leaves %s", name, p)
				}
			}
		}
		if !faulty && err != nil && (name == "download" || name == "update") {
			c.Fail("%s into data path %q: %v", name, given, err)
		}
		if complete && name == "download" && !bytes.Equal(read(file(opencorpora.LocalSourceFilename)), p.bz2) {
			c.Fail("%s into data path %q: the file is %s", name, given, stateOf(file(opencorpora.LocalSourceFilename)))
		}
		if complete && name == "update" && !faulty {
			if why := holds(c, file(opencorpora.LocalCompiledFilename), p.d); why != "" {
				c.Fail("%s into data path %q: the compiled index: %s", name, given, why)
			}
			c.Count("updates", 1)
		}
		shift(dir, -20*time.Second)
	}
	c.Sig(given, strings.Join(done, ";"))
	if wrote {
		c.NonTrivial()
	}
}

// shift moves the times of the files of a directory, which stands for time passing.
func shift(dir string, by time.Duration) {
	entries, _ := os.ReadDir(dir)
	for _, e := range entries {
		p := filepath.Join(dir, e.Name())
		if st, err := os.Stat(p); err == nil {
			mt := st.ModTime().Add(by)
			_ = os.Chtimes(p, mt, mt)
		}
	}
}

// ---- C15 --------------------------------------------------------------------

func c15() kit.Check {
	return kit.Check{
		Rule: "A case is a history of runs of the real updater command in a scratch working directory against a fake remote: the remote's dictionary changes between runs, time passes, requests are dropped or answered with errors and error pages, downloads break at any byte, the process is killed at a request, at a byte of the download, at any instant or at any file system call, runs are forced or not; in the group \"stages\" runs are ended before chosen calls on chosen files (a dictionary compiled and not yet marked so, the next one downloaded and not yet compiled) while the remote moves on by seconds. After every run the compiled index is absent as before, or a complete index of a dictionary served; when the run succeeds with the remote answering, it is the current one; a forced run without faults must succeed. Non-trivial: at least one fault and one success; distinct by history.",
		Setup: func(scratch string) error {
			straceOK = straceWorks()
			return makePool(scratch, []int{3, 4, 5, 6, 8, 10, 14, 20, 40, 120, 300})
		},
		Groups: []kit.Group{
			{Name: "history", Quick: 600, Thorough: 4000, Run: historyCase},
			{Name: "stages", Quick: 240, Thorough: 4000, Run: stagesCase},
		},
	}
}

// stage is a moment of a run of the updater: before a call that has to do with a file.
type stage struct {
	file, call string
	nth        int
}

func (s stage) String() string { return fmt.Sprintf("before %s %d of %s", s.call, s.nth, s.file) }

// stagesCase ends runs at chosen moments, one after another, while the remote goes on to other dictionaries, and then
// lets the updater run without force.
func stagesCase(c *kit.Case) {
	if !straceOK {
		c.Count("strace_unavailable", 1)
		return
	}
	r := c.R
	cwd := freshDir(c, "c15")
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	u := &updater{c: c, cwd: cwd, data: filepath.Join(cwd, common.DomainDataPath(opencorpora.DomainName)), r: rem, hashes: map[uint64]*packed{}}
	at := time.Now().Truncate(time.Second).Add(-time.Duration(r.Range(1, 100)) * time.Hour)
	if r.Chance(40) { // of late
		at = time.Now().Truncate(time.Second).Add(-time.Duration(r.Range(5, 3000)) * time.Second)
	}
	size := r.Intn(2)
	publish := func() {
		at = at.Add(time.Duration(kit.Pick(r, []int{1, 1, 2, 59, 60, 3600})) * time.Second)
		if size = 1 - size; size == 0 || r.Chance(30) {
			u.cur = pool[r.Intn(4)] // a small one
		} else {
			u.cur = pool[len(pool)-1-r.Intn(3)]
		}
		u.served = append(u.served, u.cur)
		u.modified = at
		u.hashes = map[uint64]*packed{}
		rem.publish(u.cur.bz2, at)
		c.Op("remote serves %s (%d bytes packed) of %v", u.cur.name, len(u.cur.bz2), at.Format(time.RFC3339))
	}
	faults, successes := 0, 0
	publish()
	if r.Chance(70) {
		u.run(r.Bool(), true, &faults, &successes)
		if r.Chance(90) {
			publish()
		}
	}
	aim := r.Chance(40) // a dictionary compiled and not marked so, and then another one downloaded and not compiled
	for k, n := 0, r.Range(1, 3); k < n; k++ {
		s := stage{file: kit.Pick(r, []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename})}
		s.call = kit.Pick(r, []string{"openat", "write", "close", "renameat", "renameat", "utimensat", "utimensat"})
		s.nth = 1
		if s.call == "write" {
			s.nth = kit.Pick(r, []int{1, 2, r.Range(1, 30)})
		}
		if s.file == opencorpora.LocalUnpackedFilename && s.call == "utimensat" {
			s.call = "renameat"
		}
		if aim {
			n = 2
			if s = (stage{opencorpora.LocalCompiledFilename, "utimensat", 1}); k > 0 {
				s = kit.Pick(r, []stage{{opencorpora.LocalSourceFilename, "renameat", 1}, {opencorpora.LocalUnpackedFilename, "openat", 1}, {opencorpora.LocalUnpackedFilename, "write", 1},
					{opencorpora.LocalUnpackedFilename, "renameat", 1}, {opencorpora.LocalCompiledFilename, "openat", 1}, {opencorpora.LocalCompiledFilename, "write", 1}, {opencorpora.LocalCompiledFilename, "renameat", 1}})
			}
		}
		u.planned = "killed " + s.String()
		u.wrap = []string{"strace", "-f", "-o", "/dev/null"}
		path := filepath.Join(u.data, s.file)
		paths := []string{path, path + ".tmp"}
		if rel, err := filepath.Rel(cwd, path); err == nil { // the way the updater names it
			paths = append(paths, rel, rel+".tmp")
		}
		for _, p := range paths {
			u.wrap = append(u.wrap, "-P", p)
		}
		u.wrap = append(u.wrap, "-e", "trace="+s.call, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", s.call, s.nth))
		c.Seen("stages", kit.Hash(s.String()))
		u.run(!aim && r.Chance(40), false, &faults, &successes)
		u.planned, u.wrap = "", nil
		if r.Chance(65) || aim && k == 0 {
			publish()
		}
	}
	u.run(false, true, &faults, &successes)
	u.run(true, true, &faults, &successes)
	c.Count("stage_histories", 1)
	c.Sig(strings.Join(c.Ops(), ";"))
	if faults > 0 && successes > 0 {
		c.NonTrivial()
	}
}

type updater struct {
	planned string   // the fault planned for the next run
	wrap    []string // and how it is made
	c       *kit.Case
	cwd     string
	data    string
	r       *remote
	served  []*packed
	cur     *packed
	hashes  map[uint64]*packed
	// a damaged file was delivered as a success, which only unpacking can notice: one failing run is due to it
	poisoned bool
	modified time.Time
}

// identify names the dictionary a compiled index holds.
func (u *updater) identify(data []byte) *packed {
	h := kit.HashB(data)
	if p, ok := u.hashes[h]; ok {
		return p
	}
	var res *packed
	idx, err := loadFile(u.c, filepath.Join(u.data, opencorpora.LocalCompiledFilename))
	if err == nil {
		for _, p := range u.served {
			if p.d.differs(idx) == "" {
				res = p
				break
			}
		}
	}
	u.hashes[h] = res
	return res
}

func historyCase(c *kit.Case) {
	r := c.R
	cwd := freshDir(c, "c15")
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	u := &updater{c: c, cwd: cwd, data: filepath.Join(cwd, common.DomainDataPath(opencorpora.DomainName)), r: rem, hashes: map[uint64]*packed{}}
	if !strings.HasPrefix(u.data, cwd+"/") {
		c.Skip("the default data path is not below the working directory")
	}
	compiled := filepath.Join(u.data, opencorpora.LocalCompiledFilename)
	publish := func() {
		if len(u.served) > 0 && r.Chance(15) { // the remote serves what is no complete dictionary
			u.cur = spoiled[r.Intn(len(spoiled))]
			u.modified = time.Now().Add(-2 * time.Second)
			rem.publish(u.cur.bz2, u.modified)
			c.Op("remote serves %s (%d bytes packed)", u.cur.name, len(u.cur.bz2))
			c.Count("spoiled_dictionaries_served", 1)
			return
		}
		n := len(pool)
		if r.Chance(70) {
			n -= 3 // mostly the small ones
		}
		u.cur = pool[r.Intn(n)]
		u.served = append(u.served, u.cur)
		u.modified = time.Now().Add(-2 * time.Second)
		rem.publish(u.cur.bz2, u.modified)
		u.hashes = map[uint64]*packed{}
		c.Op("remote serves %s (%d bytes packed)", u.cur.name, len(u.cur.bz2))
	}
	publish()
	faults, successes := 0, 0
	runs := r.Range(3, 7)
	for k := 0; k <= runs; k++ {
		last := k == runs
		if k > 0 && r.Chance(45) {
			publish()
		}
		for last && u.cur.d == nil {
			publish()
		}
		force := last || r.Chance(60)
		_ = u.run(force, last, &faults, &successes)
		if !last && r.Chance(35) { // at once, and mostly without force
			_ = u.run(r.Chance(25), true, &faults, &successes)
			c.Count("runs_at_once", 1)
		}
		by := time.Duration(r.Range(5, 200000)) * time.Second
		shift(u.data, -by)
		u.modified = u.modified.Add(-by)
		rem.publish(u.cur.bz2, u.modified)
	}
	_ = compiled
	c.Count("histories", 1)
	c.Sig(strings.Join(c.Ops(), ";"))
	if faults > 0 && successes > 0 {
		c.NonTrivial()
	}
}

func (u *updater) run(force, clean bool, faults, successes *int) string {
	c, r := u.c, u.c.R
	compiled := filepath.Join(u.data, opencorpora.LocalCompiledFilename)
	before := read(compiled)
	args := []string{"-f=" + strconv.FormatBool(force)}
	if force && r.Bool() {
		args = nil // the default
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	var cmd *exec.Cmd
	kill := func() {
		if cmd.Process != nil {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	head, get := reply{cut: -1}, reply{cut: -1, chunked: r.Bool()}
	what := "no fault"
	headBad := false
	poisons, flapping := false, false
	var changed *packed
	var heads []reply
	var after time.Duration = -1
	var wrap []string
	sight, sightDelay := "", time.Duration(0) // killed at the first change of a file of such a name
	if u.planned != "" {
		what, wrap = u.planned, u.wrap
	} else if !clean {
		switch r.Intn(20) {
		case 0, 1:
			// none
		case 16, 17, 18, 19:
			sight = kit.Pick(r, []string{opencorpora.LocalSourceFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalUnpackedFilename, opencorpora.LocalCompiledFilename, opencorpora.LocalCompiledFilename})
			if r.Bool() {
				sightDelay = time.Duration(r.Intn(5000)) * time.Microsecond
			}
			what = fmt.Sprintf("killed %v after the first change of %s", sightDelay, sight)
		case 12:
			// the body ends early with the connection and no length was announced
			get = reply{cut: r.Intn(len(u.cur.bz2)), closing: true}
			what = fmt.Sprintf("get ends silently at %d of %d bytes", get.cut, len(u.cur.bz2))
			poisons = true
		case 13:
			get = reply{cut: -1, page: errorPage, chunked: r.Bool()}
			what = "get answers 200 with an error page"
			poisons = true
		case 14:
			// the remote changes while the download is under way
			next := pool[r.Intn(len(pool)-3)]
			get.onRequest = func() { // before the answer, which is of what was there: nothing of it comes after the end of the run
				u.r.mu.Lock()
				defer u.r.mu.Unlock()
				if changed == nil {
					changed = next
					u.r.content, u.r.modified = next.bz2, time.Now()
				}
			}
			what = "the remote changes after the download began"
		case 15:
			// the checks contradict each other
			first, second := reply{cut: -1}, reply{cut: -1}
			soon := time.Now().Add(time.Hour).UTC().Format(time.RFC1123)
			soon = strings.Replace(soon, "UTC", "GMT", 1)
			long := "Mon, 02 Jan 2006 15:04:05 GMT"
			first.modHdr, second.modHdr = soon, long
			if r.Chance(30) {
				first.modHdr, second.modHdr = long, soon
			}
			heads = []reply{first, second}
			flapping = true
			what = fmt.Sprintf("checks answer with times %s and %s", first.modHdr, second.modHdr)
		case 2:
			head, what = badHead(r)
			headBad = true
		case 3, 4, 5:
			get, what = badGet(r, len(u.cur.bz2))
		case 6:
			cut := r.Intn(len(u.cur.bz2) + 1)
			delay := time.Duration(r.Intn(4)) * time.Millisecond
			get = reply{cut: cut, chunked: r.Bool(), onSent: func() { time.Sleep(delay); kill() }}
			if cut == len(u.cur.bz2) {
				get.cut = -1
			}
			what = fmt.Sprintf("killed at byte %d of %d of the download", cut, len(u.cur.bz2))
		case 7:
			head.onRequest = kill
			what = "killed at the check"
		case 8, 9:
			after = time.Duration(r.Intn(60000)) * time.Microsecond
			what = fmt.Sprintf("killed after %v", after)
		default:
			if straceOK {
				name := kit.Pick(r, []string{"write", "write", "openat", "renameat", "unlinkat", "close", "mkdirat", "ftruncate"})
				nth := 1 + r.Intn(12)
				switch name {
				case "write":
					nth = 1 + r.Intn(600)
				case "renameat", "unlinkat", "mkdirat", "ftruncate":
					nth = 1 + r.Intn(4)
				}
				fault := kit.Pick(r, []string{"signal=KILL", "signal=KILL", "error=ENOSPC", "error=EIO"})
				if fault != "signal=KILL" && (name == "openat" || name == "close") {
					fault = "signal=KILL" // errors there upset the start of the process
				}
				if fault != "signal=KILL" && name == "write" {
					nth += 30 // beyond what the runtime and the network write
				}
				what = fmt.Sprintf("%s at %s number %d", fault, name, nth)
				wrap = []string{"strace", "-f", "-o", "/dev/null", "-e", "trace=" + name, "-e", fmt.Sprintf("inject=%s:%s:when=%d", name, fault, nth)}
				if fault != "signal=KILL" {
					headBad = true // it may hit the network
				}
			}
		}
	}
	if what != "no fault" {
		*faults++
	}
	what += elsewhere(r, 10, &head, &get)
	u.r.set(head, get)
	u.r.mu.Lock()
	u.r.heads = heads
	u.r.mu.Unlock()
	all := append(append(append([]string{}, wrap...), kit.Args["opencorpora_update"]), args...)
	cmd = exec.CommandContext(ctx, all[0], all[1:]...)
	cmd.Dir = u.cwd
	cmd.Env = append(os.Environ(), u.r.proxy()...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	var w *watch
	if sight != "" {
		if err := os.MkdirAll(u.data, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
		w = newWatch()
		w.add(u.data)
	}
	if err := cmd.Start(); err != nil {
		c.Skip("harness: " + err.Error())
	}
	if after >= 0 {
		time.Sleep(after)
		kill()
	}
	stop := func() {}
	if w != nil {
		stop = w.killAt(sight, sightDelay, kill)
	}
	err := cmd.Wait()
	stop()
	if ctx.Err() != nil {
		c.Fail("the updater (forced %v, %s) did not end within 60 s", force, what)
	}
	o := outcomeOf(cmd, out.Bytes(), err)
	data := read(compiled)
	cur := u.cur
	u.r.mu.Lock()
	if changed != nil {
		u.cur = changed
		u.served = append(u.served, changed)
		u.modified = u.r.modified
		u.hashes = map[uint64]*packed{}
	}
	u.r.mu.Unlock()
	c.Op("update forced %v, %s: exit %d, requests %s, compiled %s", force, what, o.code, join(u.r.seen()), describe(compiled))
	c.Count("updater_runs", 1)
	if o.killed {
		c.Count("updater_killed", 1)
	} else if o.code != 0 {
		c.Count("updater_failed", 1)
	}
	if strings.Contains(o.out, "goroutine ") && strings.Contains(o.out, "panic") {
		c.Fail("the updater (forced %v, %s) panicked: %s", force, what, o.out)
	}
	if before != nil && data == nil {
		c.Fail("the updater (forced %v, %s, exit %d) lost the compiled index", force, what, o.code)
	}
	var held *packed
	if data != nil && !bytes.Equal(data, before) || o.code == 0 && data != nil {
		if held = u.identify(data); held == nil {
			_, lerr := loadFile(c, compiled)
			c.Fail("after the updater (forced %v, %s, exit %d) the compiled index of %d bytes is not the complete index of any dictionary served (%v)", force, what, o.code, len(data), lerr)
		}
		c.Count("indexes_identified", 1)
	}
	if changed != nil {
		c.Count("changes_under_way", 1)
	}
	if poisons && u.r.count("GET") > 0 {
		u.poisoned = true
		c.Count("silently_damaged_downloads", 1)
	}
	if o.code == 0 && !o.killed {
		if !headBad {
			if data == nil {
				c.Fail("the updater (forced %v, %s) reports success, and there is no compiled index", force, what)
			}
			if cur.d == nil && u.cur == cur && !flapping {
				c.Fail("the updater (forced %v, %s) reports success, and the remote serves %s", force, what, cur.name)
			}
			if !flapping && cur.d != nil && held != cur && held != u.cur && cur.d.differs(mustLoad(c, compiled)) != "" {
				c.Fail("the updater (forced %v, %s) reports success, and the compiled index holds %s, the remote serves %s", force, what, held.name, cur.name)
			}
			*successes++
			u.poisoned = false
			c.Count("updates_verified", 1)
		}
	} else if what == "no fault" && force && cur.d != nil {
		if !u.poisoned {
			c.Fail("the updater (forced) fails without any fault: exit %d %s", o.code, o.out)
		}
		// the damaged file was found out by this run, the next one has to get over it
		u.poisoned = false
		if clean {
			return u.run(force, clean, faults, successes)
		}
	}
	return what
}

func mustLoad(c *kit.Case, path string) *index.Index {
	idx, err := loadFile(c, path)
	if err != nil {
		c.Fail("the compiled index does not load: %v", err)
	}
	return idx
}
