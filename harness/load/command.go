package main

import (
	"bytes"
	"compress/bzip2"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"

	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/common"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

// ---- C29 --------------------------------------------------------------------

// updaterRun runs the updater command in a directory.
func updaterRun(c *kit.Case, cwd string, rem *remote, args ...string) outcome {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, kit.Args["opencorpora_update"], args...)
	cmd.Dir = cwd
	cmd.Env = append(os.Environ(), rem.proxy()...)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := cmd.Start(); err != nil {
		c.Skip("harness: " + err.Error())
	}
	err := cmd.Wait()
	if ctx.Err() != nil {
		c.Fail("the updater %q did not end within 60 s", args)
	}
	o := outcomeOf(cmd, out.Bytes(), err)
	if strings.Contains(o.out, "goroutine ") && strings.Contains(o.out, "panic") {
		c.Fail("the updater %q panicked: %s", args, o.out)
	}
	c.Count("updater_runs", 1)
	return o
}

func diffSnapshots(a, b map[string]*fileState) string {
	for p, s := range a {
		if !s.same(b[p]) {
			return fmt.Sprintf("%s was %s and is %s", filepath.Base(p), s, b[p])
		}
	}
	for p, s := range b {
		if a[p] == nil {
			return fmt.Sprintf("%s is new: %s", filepath.Base(p), s)
		}
	}
	return ""
}

func commandCase(c *kit.Case) {
	r := c.R
	cwd := freshDir(c, "c29")
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	data := filepath.Join(cwd, common.DomainDataPath(opencorpora.DomainName))
	if !strings.HasPrefix(data, cwd+"/") {
		c.Skip("the default data path is not below the working directory")
	}
	file := func(n string) string { return filepath.Join(data, n) }
	down, unpacked, compiled := file(opencorpora.LocalSourceFilename), file(opencorpora.LocalUnpackedFilename), file(opencorpora.LocalCompiledFilename)
	some := func() *packed { return pool[r.Intn(len(pool)-3)] }

	// the state before: nothing, or what an update left, with files missing or spoiled
	first := some()
	modified := time.Now().Add(-time.Duration(r.Range(3, 90)) * time.Hour)
	var local, unpackedIs *packed // the dictionary of the download and of the unpacked file
	spoiled := false              // the compiled file is not what it seems
	looped := false               // the download is a link to itself
	complete := false             // the last update was completed and nothing touched since
	state := "nothing there"
	if r.Chance(85) {
		rem.publish(first.bz2, modified)
		rem.faultless()
		if o := updaterRun(c, cwd, rem); o.code != 0 {
			c.Skip(fmt.Sprintf("a plain update does not work: exit %d %s", o.code, o.out))
		}
		local, unpackedIs, complete, state = first, first, true, "updated to "+first.name
		switch r.Intn(10) {
		case 6:
			// what is at the place of the download can not be looked at
			_ = os.Remove(down)
			if err := os.Symlink(down, down); err != nil {
				c.Skip("harness: " + err.Error())
			}
			looped = true
			local, complete, state = nil, false, state+", download is a link to itself"
			if r.Chance(30) {
				_ = os.Remove(unpacked)
				unpackedIs, state = nil, state+", unpacked file removed"
			}
		case 0:
			_ = os.Remove(compiled)
			complete, state = false, state+", compiled file removed"
		case 1:
			_ = os.Remove(unpacked)
			unpackedIs, complete, state = nil, false, state+", unpacked file removed"
		case 2:
			_ = os.Remove(down)
			local, complete, state = nil, false, state+", download removed"
		case 3:
			unpackedIs, complete, state = some(), false, state+", unpacked file is of another dictionary"
			write(c, unpacked, unpackedIs.text)
		case 4:
			_ = os.Remove(down)
			_ = os.Remove(unpacked)
			local, unpackedIs, complete, state = nil, nil, false, state+", only the compiled file left"
		case 5:
			// the compiled file is another one, or spoiled, which can not be seen from outside
			st, err := os.Stat(compiled)
			if err != nil {
				c.Skip("harness: " + err.Error())
			}
			data := read(compiled)
			write(c, compiled, string(data[:r.Intn(len(data))]))
			if err := os.Chtimes(compiled, st.ModTime(), st.ModTime()); err != nil {
				c.Skip("harness: " + err.Error())
			}
			spoiled, state = true, state+", compiled file cut short with its time kept"
		}
	}
	if local != nil && !looped && r.Chance(15) { // the download is kept elsewhere
		kept := filepath.Join(cwd, "kept")
		if err := os.Mkdir(kept, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
		to := filepath.Join(kept, "dictionary.bz2")
		if err := os.Rename(down, to); err != nil {
			c.Skip("harness: " + err.Error())
		}
		if err := os.Symlink(to, down); err != nil {
			c.Skip("harness: " + err.Error())
		}
		state += ", download is a link to where it is kept"
		c.Count("linked_downloads", 1)
	}
	// the remote now
	cur, newer := first, false
	if local != nil && r.Chance(45) {
		cur, newer = some(), true
		modified = modified.Add(time.Duration(r.Range(1, 7200)) * time.Second)
	}
	head, get := reply{cut: -1}, reply{cut: -1, chunked: r.Bool()}
	remoteIs := "answers"
	headBad, getBad := false, false
	switch r.Intn(10) {
	case 0, 1, 2:
		head, remoteIs = badHead(r)
		headBad = true
	case 3, 4:
		get, remoteIs = badGet(r, len(cur.bz2))
		getBad = true
	}
	remoteIs += elsewhere(r, 10, &head, &get)
	rem.publish(cur.bz2, modified)
	rem.set(head, get)

	force, help, bad := true, false, false
	var args []string
	switch r.Intn(9) {
	case 0:
		help, args = true, []string{kit.Pick(r, []string{"-h", "--h", "-h=true", "-h=1"})}
	case 1:
		bad, args = true, []string{kit.Pick(r, []string{"-x", "--force", "-f=maybe", "-F", "-h=x", "-d=", "-force=false", "-ff"})}
	case 2, 3:
		args = [][]string{nil, {"-f"}, {"-f=true"}, {"--f=1"}, {"-f=T"}}[r.Intn(5)]
	default:
		force, args = false, []string{kit.Pick(r, []string{"-f=false", "--f=false", "-f=0", "-f=F"})}
	}
	if r.Chance(30) {
		args = append(args, kit.Pick(r, []string{"-d", "-d=true", "-d=false"}))
		if r.Bool() {
			args[0], args[len(args)-1] = args[len(args)-1], args[0]
		}
	}
	if !help && !bad && r.Chance(20) { // arguments beside the flags mean nothing
		args = append(args, kit.Pick(r, []string{"other", "./other/data", filepath.Join(cwd, "other"), "-", "false", ""}))
	}
	before := snapshot(cwd)
	o := updaterRun(c, cwd, rem, args...)
	after := snapshot(cwd)
	requests := rem.seen()
	c.Op("%s; remote has %s (newer %v), %s; %q: exit %d, requests %s", state, cur.name, newer, remoteIs, args, o.code, join(requests))
	if o.killed || o.code < 0 {
		c.Fail("the updater %q died: %d %s", args, o.code, o.out)
	}
	for p := range after {
		if before[p] == nil && p != cwd && p != data && !strings.HasPrefix(p, data+"/") && !strings.HasPrefix(data, p+"/") {
			c.Fail("the updater %q made %s", args, p)
		}
	}
	what := fmt.Sprintf("with %s and a remote that %s (newer dictionary: %v) the updater %q exits with %d", state, remoteIs, newer, args, o.code)
	unchanged := func(why string) {
		if d := diffSnapshots(before, after); d != "" {
			c.Fail("%s; %s, yet %s", what, why, d)
		}
	}
	status := func(ok bool, why string) {
		if ok != (o.code == 0) {
			c.Fail("%s; %s", what, why)
		}
	}
	compiledIs := func(p *packed, why string) {
		idx, err := loadFile(c, compiled)
		if err != nil {
			c.Fail("%s; %s, yet the compiled index does not load: %v", what, why, err)
		}
		if d := p.d.differs(idx); d != "" {
			c.Fail("%s; %s, yet the compiled index is not of dictionary %s: %s", what, why, p.name, d)
		}
		c.Count("indexes_checked", 1)
	}
	gets := rem.count("GET")
	compiledKept := func(why string) {
		if !before[compiled].same(after[compiled]) {
			c.Fail("%s; %s, yet the compiled index was %s and is %s", what, why, before[compiled], after[compiled])
		}
	}
	expectation := ""
	expect := func(s string) string {
		expectation = s
		c.Count("expect_"+strings.ReplaceAll(s, " ", "_"), 1)
		return s
	}
	switch {
	case help:
		why := expect("usage is asked for")
		status(true, why)
		unchanged(why)
		if len(requests) > 0 {
			c.Fail("%s; %s, yet it asks the remote: %s", what, why, join(requests))
		}
		for _, f := range []string{"-f", "-d", "-h"} {
			if !strings.Contains(o.out, f) {
				c.Fail("%s; the usage does not show %s: %s", what, f, o.out)
			}
		}
	case bad:
		why := expect("the arguments are wrong")
		status(false, why)
		unchanged(why)
		if len(requests) > 0 {
			c.Fail("%s; %s, yet it asks the remote: %s", what, why, join(requests))
		}
	case looped && force && unpackedIs != nil:
		why := expect("the download can not be looked at and a rebuild is forced")
		status(true, why)
		compiledIs(unpackedIs, why)
	case looped:
		why := expect("the download can not be looked at")
		status(false, why)
		compiledKept(why)
	case local == nil && (headBad || getBad):
		if getBad {
			if force && unpackedIs != nil && o.code == 0 {
				expect("recompiled without a download")
				compiledIs(unpackedIs, expectation)
				break
			}
			why := expect("there is no download and none can be had")
			status(false, why)
			compiledKept(why)
			break
		}
		if o.code == 0 { // the check is not needed, as there is no local copy
			expect("downloaded in spite of the failing check")
			if force && unpackedIs != nil && gets == 0 {
				compiledIs(unpackedIs, expectation)
			} else {
				compiledIs(cur, expectation)
			}
			break
		}
		compiledKept(expect("there is no download and the check fails"))
	case headBad && !force:
		why := expect("the check fails and nothing is forced")
		status(false, why)
		unchanged(why)
	case headBad:
		why := expect("the check fails and a rebuild of what is there is forced")
		status(true, why)
		compiledIs(local, why)
		if !before[down].same(after[down]) || gets > 0 {
			c.Fail("%s; %s, yet the download was %s and is %s (%s)", what, why, before[down], after[down], join(requests))
		}
	case local == nil || newer:
		if getBad {
			why := expect("a new dictionary can not be had")
			status(false, why)
			compiledKept(why)
			if !before[down].same(after[down]) {
				c.Fail("%s; %s, yet the download was %s and is %s", what, why, before[down], after[down])
			}
			break
		}
		why := expect("there is a new dictionary")
		status(true, why)
		compiledIs(cur, why)
		if gets != 1 || after[down] == nil || !bytes.Equal(after[down].data, cur.bz2) {
			c.Fail("%s; %s, %d requests for it were made and the download is %s", what, why, gets, after[down])
		}
	default:
		why := expect("there is nothing new")
		status(true, why)
		if !spoiled || force {
			compiledIs(local, why)
		}
		if gets != 0 || !before[down].same(after[down]) {
			c.Fail("%s; %s, yet %d downloads were made and the download was %s and is %s", what, why, gets, before[down], after[down])
		}
		if !force && complete {
			unchanged(expect("there is nothing to do"))
		}
	}
	if looped {
		_ = os.Remove(down)
	}
	if c.Thorough || r.Chance(30) { // whatever happened, a plain update follows and gets over it
		rem.publish(cur.bz2, modified)
		rem.set(reply{cut: -1}, reply{cut: -1})
		o = updaterRun(c, cwd, rem)
		what = fmt.Sprintf("after that (%s) a plain update exits with %d", what, o.code)
		status(true, "the remote answers")
		want := cur
		if cur == nil {
			want = first
		}
		compiledIs(want, "the remote answers")
		c.Count("followed_by_a_plain_update", 1)
		settled(c, cwd, rem)
	}
	c.Sig(state, remoteIs, strings.Join(args, " "), newer, cur.name, expectation)
	c.NonTrivial()
}

// blockedCase runs the updater where it can not write.
func blockedCase(c *kit.Case) {
	r := c.R
	cwd := freshDir(c, "c29")
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	p := pool[r.Intn(len(pool)-3)]
	rem.publish(p.bz2, time.Now().Add(-time.Hour))
	rel := common.DomainDataPath(opencorpora.DomainName)
	data := filepath.Join(cwd, rel)
	if !strings.HasPrefix(data, cwd+"/") {
		c.Skip("the default data path is not below the working directory")
	}
	dir := func(d string) {
		if err := os.MkdirAll(d, 0o755); err != nil {
			c.Skip("harness: " + err.Error())
		}
	}
	blocked := ""
	gone := ""
	switch c.Index % 8 {
	case 5, 6:
		// links that lead nowhere
		blocked = filepath.Join(cwd, strings.SplitN(rel, "/", 2)[0])
		if c.Index%8 == 6 {
			dir(filepath.Dir(data))
			blocked = data
		}
		if err := os.Symlink(filepath.Join(cwd, "no", "where"), blocked); err != nil {
			c.Skip("harness: " + err.Error())
		}
	case 7:
		// the working directory is gone
		gone = filepath.Join(cwd, "gone")
		dir(gone)
	case 0:
		blocked = filepath.Join(cwd, strings.SplitN(rel, "/", 2)[0])
		write(c, blocked, "keep")
	case 1:
		dir(filepath.Dir(data))
		blocked = data
		write(c, blocked, "keep")
	case 2:
		blocked = filepath.Join(data, opencorpora.LocalSourceFilename)
		dir(filepath.Join(blocked, "x"))
	case 3:
		blocked = filepath.Join(data, opencorpora.LocalUnpackedFilename)
		dir(filepath.Join(blocked, "x"))
	case 4:
		blocked = filepath.Join(data, opencorpora.LocalCompiledFilename)
		dir(filepath.Join(blocked, "x"))
	}
	before := stateOf(blocked)
	args := []string{"-f=" + fmt.Sprint(r.Bool())}
	if gone != "" {
		cmd := exec.Command("sh", append([]string{"-c", `cd "$1" && rmdir "$1" && shift && exec "$@"`, "sh", gone, kit.Args["opencorpora_update"]}, args...)...)
		cmd.Env = append(os.Environ(), rem.proxy()...)
		out, err := cmd.CombinedOutput()
		o := outcomeOf(cmd, out, err)
		c.Op("working directory is gone, %q: exit %d", args, o.code)
		if o.code == 0 {
			c.Fail("in a working directory that is gone the updater %q reports success: %s", args, out)
		}
		c.Count("blocked_runs", 1)
		c.Sig("gone", args, p.name)
		c.NonTrivial()
		return
	}
	o := updaterRun(c, cwd, rem, args...)
	c.Op("%s is in the way (%s), %q: exit %d", blocked, before, args, o.code)
	if o.code == 0 {
		c.Fail("with %s in the way at %s the updater %q reports success", before, blocked, args)
	}
	if after := stateOf(blocked); after == nil || after.dir != before.dir || !bytes.Equal(after.data, before.data) {
		c.Fail("with %s in the way at %s the updater %q changed it to %s", before, blocked, args, after)
	}
	c.Count("blocked_runs", 1)
	if k := c.Index % 8; k == 3 || k == 4 {
		// the download was no part of the trouble: it stays, and the next run goes on with it
		if got := stateOf(filepath.Join(data, opencorpora.LocalSourceFilename)); got == nil || !bytes.Equal(got.data, p.bz2) {
			c.Fail("with %s in the way at %s the updater %q leaves the download as %s", before, blocked, args, got)
		}
		if err := os.RemoveAll(blocked); err != nil {
			c.Skip("harness: " + err.Error())
		}
		n := rem.count("GET")
		args = []string{"-f=" + fmt.Sprint(r.Bool())}
		if o := updaterRun(c, cwd, rem, args...); o.code != 0 {
			c.Fail("with %s no longer in the way the updater %q exits with %d: %s", blocked, args, o.code, o.out)
		}
		if rem.count("GET") != n {
			c.Fail("with %s no longer in the way the updater %q fetches the dictionary again", blocked, args)
		}
		idx, err := loadFile(c, filepath.Join(data, opencorpora.LocalCompiledFilename))
		if err != nil {
			c.Fail("with %s no longer in the way the updater %q makes an index that does not load: %v", blocked, args, err)
		}
		if d := p.d.differs(idx); d != "" {
			c.Fail("with %s no longer in the way the updater %q makes another index: %s", blocked, args, d)
		}
		c.Count("obstacles_removed", 1)
		settled(c, cwd, rem)
	}
	c.Sig(blocked[len(cwd):], args, p.name)
	c.NonTrivial()
}

func c29() kit.Check {
	return kit.Check{
		Rule:  "A case brings a working directory into a state (nothing, an update completed, files of it missing or spoiled), gives the remote a newer dictionary or not and a fault or none, and runs the real updater command with flags of every spelling (usage, wrong, forced, not forced, debug); exit status, requests, files and the compiled index are compared with the outcome the state, the flags and the remote call for. Often a plain update follows, which must bring the current dictionary. Group blocked puts files and directories in the way, and takes those away that stood behind the download, which must then be used. Group broken has the remote serve damaged archives (cut, a bit changed, error pages, unpacked text): they are refused, the unpacked and the compiled file stay, and the next good archive is taken even with the same time. After a success that followed trouble one more unforced update must find nothing to do. Non-trivial: every case; distinct by state, flags, remote and outcome.",
		Setup: func(scratch string) error { return makePool(scratch, []int{2, 3, 4, 5, 6, 8, 10, 14, 20, 40, 60}) },
		Groups: []kit.Group{
			{Name: "matrix", Quick: 1800, Thorough: 12000, Run: commandCase},
			{Name: "blocked", Quick: 96, Thorough: 400, Run: blockedCase},
			{Name: "broken", Quick: 200, Thorough: 2000, Run: brokenCase},
		},
	}
}

// brokenCase lets the remote serve damaged archives.
func brokenCase(c *kit.Case) {
	r := c.R
	cwd := freshDir(c, "c29")
	rem, err := newRemote()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	defer rem.close()
	data := filepath.Join(cwd, common.DomainDataPath(opencorpora.DomainName))
	if !strings.HasPrefix(data, cwd+"/") {
		c.Skip("the default data path is not below the working directory")
	}
	file := func(n string) string { return filepath.Join(data, n) }
	down, unpacked, compiled := file(opencorpora.LocalSourceFilename), file(opencorpora.LocalUnpackedFilename), file(opencorpora.LocalCompiledFilename)
	some := func() *packed { return pool[r.Intn(len(pool)-3)] }
	modified := time.Now().Add(-time.Duration(r.Range(300, 900)) * time.Hour)
	first := some()
	before := r.Chance(85) // there was an update before
	if before {
		rem.publish(first.bz2, modified)
		rem.faultless()
		if o := updaterRun(c, cwd, rem); o.code != 0 {
			c.Skip(fmt.Sprintf("a plain update does not work: exit %d %s", o.code, o.out))
		}
	}
	was := snapshot(cwd)
	next := some()
	for k := r.Range(1, 3); k > 0; k-- {
		modified = modified.Add(time.Duration(r.Range(1, 7200)) * time.Second)
		bad := append([]byte{}, next.bz2...)
		how := ""
		switch r.Intn(5) {
		case 0:
			bad = bad[:r.Intn(len(bad))]
			how = fmt.Sprintf("cut to %d bytes", len(bad))
		case 1:
			at := r.Range(4, len(bad)-1) // behind what says how it is packed
			bad[at] ^= byte(1 << r.Intn(8))
			how = fmt.Sprintf("a bit of byte %d changed", at)
		case 2:
			bad, how = []byte(errorPage), "an error page"
		case 3:
			bad, how = nil, "empty"
		case 4:
			bad, how = []byte(next.text), "not packed"
		}
		if unpacks(bad) {
			c.Count("damage_that_is_none", 1)
			continue
		}
		rem.publish(bad, modified)
		rem.faultless()
		args := []string{"-f=" + fmt.Sprint(r.Bool())}
		o := updaterRun(c, cwd, rem, args...)
		c.Op("updated before %v, the remote serves an archive %s: %q exits with %d", before, how, args, o.code)
		if o.code == 0 {
			c.Fail("the remote serves an archive %s, the updater %q reports success", how, args)
		}
		is := snapshot(cwd)
		for _, p := range []string{unpacked, compiled} {
			if was[p] == nil && is[p] == nil {
				continue
			}
			if was[p] == nil || !was[p].same(is[p]) {
				c.Fail("the remote serves an archive %s (updated before: %v): %s was %s and is %s", how, before, filepath.Base(p), was[p], is[p])
			}
		}
		c.Count("damaged_archives", 1)
		c.Seen("damages", kit.Hash(how))
	}
	// repaired, under the same time or a later one
	if r.Bool() {
		modified = modified.Add(time.Duration(r.Range(1, 7200)) * time.Second)
	}
	rem.publish(next.bz2, modified)
	rem.faultless()
	args := []string{"-f=" + fmt.Sprint(r.Bool())}
	o := updaterRun(c, cwd, rem, args...)
	c.Op("repaired: %q exits with %d", args, o.code)
	if o.code != 0 {
		c.Fail("after damaged archives the remote serves a good one, the updater %q exits with %d: %s", args, o.code, o.out)
	}
	idx, err := loadFile(c, compiled)
	if err != nil {
		c.Fail("after damaged archives the compiled index does not load: %v", err)
	}
	if d := next.d.differs(idx); d != "" {
		c.Fail("after damaged archives the compiled index is not of the good one: %s", d)
	}
	if got := read(down); !bytes.Equal([]byte(got), next.bz2) {
		c.Fail("after damaged archives the download has %d bytes, the good one has %d", len(got), len(next.bz2))
	}
	c.Count("indexes_checked", 1)
	settled(c, cwd, rem)
	c.Sig(strings.Join(c.Ops(), ";"))
	c.NonTrivial()
}

// settled runs an unforced update once more, after one that succeeded, with the remote as it was: there is nothing to do.
func settled(c *kit.Case, cwd string, rem *remote) {
	before, n := snapshot(cwd), rem.count("GET")
	o := updaterRun(c, cwd, rem, "-f=false")
	if o.code != 0 {
		c.Fail("an unforced update after a successful one exits with %d: %s", o.code, o.out)
	}
	if rem.count("GET") != n {
		c.Fail("an unforced update after a successful one fetches the same dictionary again")
	}
	after := snapshot(cwd)
	for p, was := range before {
		if !was.same(after[p]) {
			c.Fail("an unforced update after a successful one changes %s from %s (%v) to %s", p[len(cwd):], was, was.mod, after[p])
		}
	}
	for p := range after {
		if before[p] == nil {
			c.Fail("an unforced update after a successful one makes %s", p[len(cwd):])
		}
	}
	c.Count("nothing_to_do_after_success", 1)
}

// unpacks tells whether something is a complete archive.
func unpacks(data []byte) bool {
	_, err := io.Copy(io.Discard, bzip2.NewReader(bytes.NewReader(data)))
	return err == nil
}
