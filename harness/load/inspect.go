package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/amarin/gomorphy/internal/index"
	"github.com/amarin/gomorphy/internal/zverif/kit"
	"github.com/amarin/gomorphy/pkg/dag"
	"github.com/amarin/gomorphy/pkg/opencorpora"
)

const answerTimeout = 60 * time.Second

// inspector is a running inspector process.
type inspector struct {
	c    *kit.Case
	cmd  *exec.Cmd
	in   io.WriteCloser
	mu   sync.Mutex
	buf  []byte
	more chan struct{} // signalled on output and end of output
	eof  bool
	out  *os.File // standard output, log records come by the pipe
	at   int64
	next int
	dead bool
	key  string // names the finding if the next line fails
}

func startInspector(c *kit.Case, dir string) *inspector {
	s := &inspector{c: c, more: make(chan struct{}, 1)}
	s.cmd = exec.Command(kit.Args["opencorpora_test"])
	s.cmd.Dir = dir
	s.cmd.Env = append(os.Environ(), "GOMORPHY_STUB_LOG=1", "HOME="+dir, "TERM=dumb")
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	pr, pw, err := os.Pipe()
	if err != nil {
		c.Skip("harness: " + err.Error())
	}
	if s.out, err = os.Create(filepath.Join(dir, "stdout")); err != nil {
		c.Skip("harness: " + err.Error())
	}
	s.cmd.Stdout, s.cmd.Stderr = s.out, pw
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		c.Skip("harness: " + err.Error())
	}
	if err = s.cmd.Start(); err != nil {
		c.Skip("harness: " + err.Error())
	}
	_ = pw.Close()
	go func() {
		defer func() { _ = pr.Close() }()
		b := make([]byte, 64<<10)
		for {
			n, err := pr.Read(b)
			s.mu.Lock()
			s.buf = append(s.buf, b[:n]...)
			if err != nil {
				s.eof = true
			}
			s.mu.Unlock()
			select {
			case s.more <- struct{}{}:
			default:
			}
			if err != nil {
				return
			}
		}
	}()
	return s
}

// until waits for a mark and takes the output before it; the line of the mark is dropped.
func (s *inspector) until(mark string) (string, bool) {
	deadline := time.NewTimer(answerTimeout)
	defer deadline.Stop()
	for {
		s.mu.Lock()
		if at := bytes.Index(s.buf, []byte(mark)); at >= 0 {
			if nl := bytes.IndexByte(s.buf[at:], '\n'); nl >= 0 {
				text := string(s.buf[:at])
				s.buf = append([]byte{}, s.buf[at+nl+1:]...)
				s.mu.Unlock()
				return text, true
			}
		}
		eof, text := s.eof, string(s.buf)
		s.mu.Unlock()
		if eof {
			return text, false
		}
		select {
		case <-s.more:
		case <-deadline.C:
			return text, false
		}
	}
}

func tail(s string) string {
	if len(s) > 1500 {
		return "..." + s[len(s)-1500:]
	}
	return s
}

// ask sends a line and returns what is answered to it.
func (s *inspector) ask(line string) answer {
	mark := fmt.Sprintf("xSENT%dk", s.next)
	s.next++
	show := line
	if len(show) > 100 {
		show = fmt.Sprintf("%s... (%d bytes)", show[:100], len(line))
	}
	_, _ = io.WriteString(s.in, line+"\ntag "+mark+"\n")
	text, ok := s.until("`" + mark + "`")
	shown := s.shown()
	if !ok {
		first := s.next == 1
		s.stop()
		if first {
			s.c.Skip("the inspector does not answer at all: " + tail(text))
		}
		s.c.Op("%q", show)
		how := "the process ended"
		if s.cmd.ProcessState != nil {
			how += " with " + s.cmd.ProcessState.String()
		}
		if !s.eofSeen() {
			how = "nothing was answered"
		}
		s.c.FailKey(s.key, "after line %q %s: %s", show, how, tail(text))
	}
	a := answer{line: show, raw: text + shown}
	text = text[:strings.LastIndex(text, "\n")+1] // the record that carries the mark begins on the last line
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) != "" {
			a.logs = append(a.logs, l)
		}
	}
	for _, l := range strings.Split(shown, "\n") {
		if strings.TrimSpace(l) != "" {
			a.data = append(a.data, l)
		}
	}
	s.c.Count("commands_answered", 1)
	if strings.Contains(a.raw, "goroutine ") && strings.Contains(a.raw, "panic") {
		s.c.Fail("line %q makes the inspector panic: %s", show, tail(a.raw))
	}
	return a
}

// shown takes what was printed since.
func (s *inspector) shown() string {
	var res []byte
	b := make([]byte, 64<<10)
	for {
		n, _ := s.out.ReadAt(b, s.at)
		if n == 0 {
			return string(res)
		}
		res = append(res, b[:n]...)
		s.at += int64(n)
	}
}

func (s *inspector) eofSeen() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.eof }

func (s *inspector) stop() {
	if s.dead {
		return
	}
	s.dead = true
	defer func() { _ = s.out.Close() }()
	if !s.eofSeen() {
		_ = syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
	}
	_ = s.cmd.Wait()
}

// finish ends the input or sends a line that ends the session, and returns the exit status.
func (s *inspector) finish(line string) (status int, text string) {
	if line != "" {
		_, _ = io.WriteString(s.in, line)
	}
	if !strings.HasPrefix(line, "e") {
		_ = s.in.Close()
	}
	text, _ = s.until("\x00no such mark")
	if !s.eofSeen() {
		s.stop()
		return -100, text
	}
	s.dead = true
	_ = s.cmd.Wait()
	return s.cmd.ProcessState.ExitCode(), text
}

// answer is what one line was answered with.
type answer struct {
	line string
	raw  string
	logs []string
	data []string // lines that are no log records
}

func (a answer) says() bool { return len(a.logs)+len(a.data) > 0 }

func (a answer) text() string {
	return strings.TrimSpace(strings.Join(append(append([]string{}, a.logs...), a.data...), "\n"))
}

var tokenSplit = regexp.MustCompile(`[\s(),\[\]:]+`)

func has(text, token string) bool {
	for _, t := range tokenSplit.Split(text, -1) {
		if t == token {
			return true
		}
	}
	return false
}

var (
	formLine   = regexp.MustCompile(`< (\d+): (.*), eta `)
	nodeSet    = regexp.MustCompile(`^- (\d+): \((.*)\)$`)
	nodeChild  = regexp.MustCompile(`^- (.)\[(\d+)\]: (\d+)$`)
	varSetLine = regexp.MustCompile(`^- (\d+): (\d+): TS\d+: (.*)$`)
	setData    = regexp.MustCompile(`^set\.\d+\(0x[0-9A-Fa-f]+\): (.*)$`)
)

func namesKey(names []string) string {
	n := append([]string{}, names...)
	sort.Strings(n)
	return strings.Join(n, ",")
}

// nameSets are the tag sets of a word by names.
func nameSets(sets map[string]bool) []string {
	var res []string
	for k := range sets {
		var names []string
		for _, t := range strings.Split(k, ",") {
			name, _, _ := strings.Cut(t, "/")
			names = append(names, name)
		}
		res = append(res, namesKey(names))
	}
	sort.Strings(res)
	return res
}

func isCommand(line string) bool {
	switch strings.Split(line, " ")[0] {
	case "tag", "t", "set", "s", "var", "v", "exit", "e", "node", "n", "reload", "r":
		return true
	}
	return false
}

func (s *inspector) checkSearch(d *dict, words map[string]map[string]bool, line string, isPrefix bool) {
	c := s.c
	a := s.ask(line)
	var got []string
	for _, l := range a.logs {
		if m := formLine.FindStringSubmatch(l); m != nil {
			got = append(got, namesKey(strings.Split(m[2], ",")))
		}
	}
	sort.Strings(got)
	want := nameSets(words[line])
	c.Op("%q: %d forms", line, len(got))
	if strings.Join(got, " ") != strings.Join(want, " ") {
		c.Fail("word search %q shows tag sets %v, the dictionary has %v: %s", line, got, want, a.text())
	}
	if !a.says() {
		c.Fail("word search %q is answered with nothing", line)
	}
	missing := strings.Contains(a.text(), "not found")
	if missing && (isPrefix || words[line] != nil) {
		c.Fail("word search %q says it is not found, the dictionary has it: %s", line, a.text())
	}
	if !missing && !isPrefix && words[line] == nil {
		c.Fail("word search %q of a string that is not in the dictionary says: %s", line, a.text())
	}
	c.Count("searches", 1)
}

// nodeView is a node as the inspector shows it.
type nodeView struct {
	id, parent string
	prefix     string
	sets       []string
	children   map[string]string
	text       string
}

func (a answer) node() (v nodeView, ok bool) {
	v.children = map[string]string{}
	for _, l := range a.data {
		switch {
		case strings.HasPrefix(l, "Node:"):
			v.id = strings.TrimSpace(strings.TrimPrefix(l, "Node:"))
			ok = true
		case strings.HasPrefix(l, "Prefix:"):
			v.prefix = strings.TrimSpace(strings.TrimPrefix(l, "Prefix:"))
		case strings.HasPrefix(l, "Parent:"):
			v.parent = strings.TrimSpace(strings.TrimPrefix(l, "Parent:"))
		default:
			if m := nodeSet.FindStringSubmatch(l); m != nil {
				v.sets = append(v.sets, namesKey(strings.Split(m[2], ",")))
			} else if m := nodeChild.FindStringSubmatch(l); m != nil {
				r, _ := strconv.Atoi(m[2])
				if string(rune(r)) != m[1] {
					v.text = fmt.Sprintf("child letter %q shown with code %d", m[1], r)
				}
				v.children[string(rune(r))] = m[3]
			}
		}
	}
	sort.Strings(v.sets)
	if v.text == "" {
		v.text = strings.Join(a.data, "\n")
	}
	return v, ok
}

func (s *inspector) noData(line, why string) {
	a := s.ask(line)
	s.c.Op("%q (%s): %s", line, why, a.text())
	if !a.says() {
		s.c.Fail("line %q (%s) is answered with nothing", line, why)
	}
	if len(a.data) > 0 {
		s.c.FailKey(s.key, "line %q (%s) is answered with data: %s", line, why, strings.Join(a.data, "\n"))
	}
	if m := regexp.MustCompile(`tag\[`).FindString(a.text()); m != "" {
		s.c.Fail("line %q (%s) is answered with a tag: %s", line, why, a.text())
	}
	s.c.Count("refusals", 1)
}

var hugeArgs = []string{
	"-1", "-2", "-9223372036854775808", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615",
	"18446744073709551616", "99999999999999999999999", "4294967295", "4294967296", "4294967297", "-4294967295", "-4294967296", "65536000000",
	"0xFFFFFFFF", "0x100000000", "0xFFFFFFFFFFFFFFFF", "0x", "0b", "1e3", "1.5", "--1", "zzz", "٣", "0x7fffffff", "2147483648", "-2147483648",
}

func junkLine(r *kit.Rand) string {
	cmd := kit.Pick(r, []string{"tag", "t", "set", "s", "var", "v", "node", "n", "foo", "TAG", "Set", "nodes"})
	switch r.Intn(12) {
	case 0:
		return cmd
	case 1:
		return cmd + " "
	case 2:
		return cmd + strings.Repeat(" ", r.Range(2, 40))
	case 3:
		return cmd + " " + kit.Pick(r, hugeArgs)
	case 4:
		return cmd + " " + kit.Pick(r, hugeArgs) + " " + kit.Pick(r, hugeArgs)
	case 5:
		return cmd + " " + kit.Pick(r, []string{"count", "tables", "table", "id", "info", "0", "1", "2", "00", "01", "0x0", "0x1", "+1"})
	case 6:
		return cmd + " table " + kit.Pick(r, append(hugeArgs, "0", "1", "2", "3", "", " "))
	case 7:
		return cmd + " " + kit.Pick(r, []string{"count", "tables", "table", "1", "0"}) + " " + kit.Pick(r, []string{"x", "1", "0", "1 2", "count"})
	case 8:
		return strings.Repeat(" ", r.Intn(4))
	case 9:
		b := make([]byte, r.Range(1, 30))
		for i := range b {
			b[i] = byte(r.Range(0x80, 0xff))
		}
		return "w" + string(b)
	case 10:
		return kit.Pick(r, []string{"%s%d%v%!", "%n", "%", "tag %s", "set %d", "node %v%v", "var %x", "`", "\"", "\\", "/", "..", "tag ..", "node \\n", "'"})
	default:
		return cmd + " " + strings.Repeat(kit.Pick(r, []string{"9", "а", "ab ", "0x", "-"}), r.Range(1, 5000))
	}
}

// findings of the inspector, see the known findings file
const (
	fTagNegative   = "inspector-tag-negative-id"
	fTableNegative = "inspector-set-table-negative-id"
	fNodeLast      = "inspector-node-last-id"
	fNodeWraps     = "inspector-node-negative-id-wraps"
	fSetWraps      = "inspector-set-id-wraps"
	fReload        = "inspector-reload-failure-ends"
	fTagCase       = "inspector-tag-name-case"
)

// avoided tells if a line only triggers a finding that is listed.
func avoided(line string) bool {
	args := strings.Split(line, " ")
	num := func(i int) (int, bool) {
		if i >= len(args) {
			return 0, false
		}
		n, err := strconv.Atoi(args[i])
		return n, err == nil
	}
	switch args[0] {
	case "tag", "t":
		n, ok := num(1)
		return len(args) == 2 && ok && n < 0 && kit.Known(fTagNegative)
	case "set", "s":
		n, ok := num(2)
		return len(args) == 3 && args[1] == "table" && ok && n < 0 && kit.Known(fTableNegative)
	case "node", "n":
		n, ok := num(1)
		return len(args) == 2 && ok && n < 0 && kit.Known(fNodeWraps)
	}
	return false
}

// inspected is a compiled dictionary to be inspected.
type inspected struct {
	d     *dict
	words map[string]map[string]bool
	pre   map[string]bool
	idx   *index.Index
}

func compileInto(c *kit.Case, d *dict, dir, file string) *inspected {
	src := filepath.Join(dir, "src.xml")
	write(c, src, d.xml(c.R))
	if err := opencorpora.NewLoader(dir).ParseUpdate(src, file); err != nil {
		c.Skip("the dictionary does not compile: " + err.Error())
	}
	idx, err := loadFile(c, file)
	if err != nil {
		c.Skip("the compiled dictionary does not load: " + err.Error())
	}
	if why := d.differs(idx); why != "" {
		c.Skip("the compiled dictionary differs: " + why)
	}
	in := &inspected{d: d, words: d.words(), pre: map[string]bool{"": true}, idx: idx}
	for w := range in.words {
		rs := []rune(w)
		for i := range rs {
			in.pre[string(rs[:i+1])] = true
		}
	}
	return in
}

// searchable tells if a string can be searched by typing it.
func searchable(w string) bool { return !isCommand(w) }

func (in *inspected) all(m map[string]bool) []string {
	var res []string
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}

// whole inspects everything the index holds.
func (in *inspected) whole(s *inspector, limit int) {
	c := s.c
	// words, prefixes, misses
	for i, p := range in.all(in.pre) {
		if p == "" || i > limit {
			continue
		}
		if searchable(p) {
			s.checkSearch(in.d, in.words, p, true)
		}
		if miss := p + kit.Pick(c.R, []string{"я", "q", "\u0301", "a", "0"}); !in.pre[miss] && searchable(miss) {
			s.checkSearch(in.d, in.words, miss, false)
		}
	}
	// tags
	a := s.ask("tag count")
	if !has(a.text(), strconv.Itoa(len(in.d.grams))) {
		c.Fail("tag count answers %s, there are %d", a.text(), len(in.d.grams))
	}
	for i, g := range in.d.grams {
		parent := in.d.parent(g.name)
		a := s.ask("tag " + strconv.Itoa(i))
		c.Op("tag %d: %s", i, a.text())
		if !has(a.text(), g.name) || !has(a.text(), parent) {
			c.Fail("tag %d is %s of %s, the inspector shows %s", i, g.name, parent, a.text())
		}
		twin := false
		for _, o := range in.d.grams[:i] {
			twin = twin || strings.EqualFold(o.name, g.name)
		}
		if twin && kit.Known(fTagCase) {
			continue
		}
		b := s.ask(kit.Pick(c.R, []string{"tag ", "t "}) + g.name)
		if a.text() != b.text() {
			c.Fail("tag %s shows %s, tag %d of that name shows %s", g.name, b.text(), i, a.text())
		}
		c.Count("tags_shown", 1)
	}
	for _, n := range append([]int{len(in.d.grams), len(in.d.grams) + 1, 255, 256, 256 + len(in.d.grams) - 1}, -1) {
		if n < 0 && kit.Known(fTagNegative) {
			continue
		}
		if n < 0 || n >= len(in.d.grams) {
			s.noData("tag "+strconv.Itoa(n), "no such tag")
		}
	}
	// nodes
	total := len(in.pre) - 1
	a = s.ask("node count")
	if !has(a.text(), strconv.Itoa(total)) {
		c.Fail("node count answers %s, there are %d", a.text(), total)
	}
	ids := make([]int, total)
	for i := range ids {
		ids[i] = i + 1
	}
	whole := total <= limit
	if !whole {
		keep := map[int]bool{1: true, 2: true, total: true, total - 1: true}
		for _, k := range c.R.Perm(total)[:limit] {
			keep[k+1] = true
		}
		ids = ids[:0]
		for k := range keep {
			ids = append(ids, k)
		}
		sort.Ints(ids)
	}
	unseen := ""
	if kit.Known(fNodeLast) && total > 0 {
		ids = ids[:len(ids)-1]
		unseen = in.idx.GetItem(dag.ID(total)).Word()
	}
	byID := map[string]nodeView{}
	byPrefix := map[string]nodeView{}
	vars := map[index.VariantID][]string{}
	for _, id := range ids {
		a := s.ask(kit.Pick(c.R, []string{"node ", "n "}) + strconv.Itoa(id))
		v, ok := a.node()
		c.Op("node %d: %q", id, v.prefix)
		if !ok || v.id != strconv.Itoa(id) {
			c.Fail("node %d of %d is shown as: %s", id, total, a.text())
		}
		n := in.idx.GetItem(dag.ID(id))
		word := n.Word()
		if v.prefix != strings.TrimSpace(word) {
			c.Fail("node %d of prefix %q is shown as %s", id, word, a.text())
		}
		if want := nameSets(in.words[word]); strings.Join(want, " ") != strings.Join(v.sets, " ") {
			c.Fail("node %d of word %q with tag sets %v is shown as %s", id, word, want, a.text())
		}
		if v.parent != strconv.Itoa(int(n.Item().Parent)) {
			c.Fail("node %d of parent %d is shown as %s", id, n.Item().Parent, a.text())
		}
		if n.Item().Variants != 0 {
			vars[n.Item().Variants] = v.sets
		}
		kids := in.idx.GetChildrenIDMap(dag.ID(id))
		if len(kids) != len(v.children) {
			c.Fail("node %d with %d children is shown as %s", id, len(kids), a.text())
		}
		for letter, kid := range kids {
			if v.children[string(letter)] != strconv.Itoa(int(kid)) {
				c.Fail("node %d with child %q %d is shown as %s", id, letter, kid, a.text())
			}
		}
		byID[v.id] = v
		if whole {
			byPrefix[word] = v
		}
		if _, err := strconv.Atoi(word); err != nil && !strings.Contains(word, " ") && word != "count" {
			b := s.ask("node " + word)
			if bv, ok := b.node(); !ok || bv.text != v.text {
				c.Fail("node %s shows %s, node %d of that prefix shows %s", word, b.text(), id, a.text())
			}
		}
		c.Count("nodes_shown", 1)
	}
	if whole {
		for p := range in.pre {
			if p == "" || p == unseen {
				continue
			}
			v, ok := byPrefix[p]
			if !ok {
				c.Fail("no node of prefix %q is shown among all %d nodes", p, total)
			}
			rs := []rune(p)
			up := string(rs[:len(rs)-1])
			if up == "" {
				if v.parent != "0" {
					c.Fail("node of prefix %q is shown with parent %s", p, v.parent)
				}
			} else if u := byPrefix[up]; u.id != v.parent || u.children[string(rs[len(rs)-1])] != v.id {
				c.Fail("node %s of prefix %q has parent %s, node %s of prefix %q has children %v", v.id, p, v.parent, u.id, up, u.children)
			}
		}
	}
	for _, n := range []string{strconv.Itoa(total + 1), strconv.Itoa(total + 2), strconv.Itoa(total + 100), "-1", "-" + strconv.Itoa(total+1),
		strconv.FormatInt(1<<32+1, 10), strconv.FormatInt(-(1<<32 - 1), 10), strconv.FormatInt(1<<32+int64(total), 10), strconv.FormatInt(1<<32, 10)} {
		if n[0] == '-' && kit.Known(fNodeWraps) {
			continue
		}
		s.noData("node "+n, "no such node")
	}
	if a := s.ask("node 0"); !a.says() {
		c.Fail("node 0 is answered with nothing")
	} else if v, ok := a.node(); ok && v.id != "0" {
		c.Fail("node 0 is answered with %s", a.text())
	}
	for _, w := range []string{"zzzz", "яяяя", "zz\u0301"} {
		if !in.pre[w] {
			s.noData("node "+w, "no such prefix")
		}
	}
	// variants and tag sets
	sets := map[index.TagSetID]bool{}
	for id, names := range vars {
		form := "%d"
		if c.R.Bool() {
			form = "0x%x"
		}
		a := s.ask(kit.Pick(c.R, []string{"var ", "v "}) + fmt.Sprintf(form, uint32(id)))
		var got []string
		var shown []index.TagSetID
		for _, l := range a.data {
			if m := varSetLine.FindStringSubmatch(l); m != nil {
				got = append(got, namesKey(strings.Split(m[3], ",")))
				n, _ := strconv.Atoi(m[2])
				shown = append(shown, index.TagSetID(n))
			}
		}
		sort.Strings(got)
		c.Op("var %d: %v", id, got)
		if strings.Join(got, " ") != strings.Join(names, " ") {
			c.Fail("variants %d of tag sets %v are shown as %s", id, names, a.text())
		}
		ids, _ := in.idx.Variants(id)
		if len(ids) != len(shown) {
			c.Fail("variants %d of tag set ids %v are shown as %s", id, ids, a.text())
		}
		for i := range ids {
			if ids[i] != shown[i] {
				c.Fail("variants %d of tag set ids %v are shown as %s", id, ids, a.text())
			}
			sets[ids[i]] = true
		}
		c.Count("variants_shown", 1)
	}
	tables := in.idx.TagSetIndex()
	a = s.ask("set tables")
	if !has(a.text(), strconv.Itoa(len(tables))) {
		c.Fail("set tables answers %s, there are %d", a.text(), len(tables))
	}
	for t := range tables {
		if want := fmt.Sprintf("%02d(%d)", t, tables[t].Len()); !strings.Contains(a.text(), want) {
			c.Fail("set tables does not show table %s: %s", want, a.text())
		}
		b := s.ask("set table " + strconv.Itoa(t))
		if !b.says() || strings.Contains(b.text(), "no such") {
			c.Fail("set table %d of %d is answered with %q", t, len(tables), b.text())
		}
		for _, ts := range tables[t] {
			if !strings.Contains(b.text(), ts.String()) {
				c.Fail("set table %d does not show %v: %s", t, ts, b.text())
			}
		}
		for i := 0; i < tables[t].Len(); i++ {
			sets[index.TagSetTableNumber(t).TagSetID(index.TagSetSubID(i))] = true
		}
	}
	s.noData("set table "+strconv.Itoa(len(tables)), "no such table")
	if !kit.Known(fTableNegative) {
		s.noData("set table -1", "no such table")
	}
	s.noData("set table x", "no such table")
	for id := range sets {
		ts, ok := in.idx.TagSetIndex().Get(id)
		if !ok {
			c.Skip("tag set id does not resolve")
		}
		var names []string
		for _, t := range ts {
			names = append(names, in.d.grams[t].name)
		}
		form := "%d"
		if c.R.Bool() {
			form = "0x%X"
		}
		a := s.ask(kit.Pick(c.R, []string{"set ", "s "}) + fmt.Sprintf(form, uint32(id)))
		c.Op("set %d: %v", id, a.data)
		got := "nothing"
		for _, l := range a.data {
			if m := setData.FindStringSubmatch(l); m != nil {
				var g []string
				for _, n := range strings.Split(m[1], ",") {
					if n = strings.TrimSpace(n); n != "" {
						g = append(g, n)
					}
				}
				got = namesKey(g)
			}
		}
		if got != namesKey(names) {
			c.Fail("tag set %d of %v is shown as %s: %s", id, names, got, a.text())
		}
		c.Count("sets_shown", 1)
	}
	for _, t := range []int{0, len(tables) - 1, len(tables), len(tables) + 1} {
		n := 0
		if t >= 0 && t < len(tables) {
			n = tables[t].Len()
		}
		if t >= 0 {
			s.noData(fmt.Sprintf("set %d", t<<16+n), "no such tag set")
			if !kit.Known(fSetWraps) {
				s.noData(fmt.Sprintf("set %d", 1<<32+t<<16), "no such tag set")
			}
		}
	}
	for _, n := range []string{"4294967296", "-1", "x", "0xFFFFFFFF", "4294967295"} {
		s.noData("var "+n, "no such variants")
	}
	if a := s.ask("var 0"); !a.says() || varSetLine.MatchString(strings.Join(a.data, "\n")) { // 0 stands for none
		c.Fail("variants 0 are shown as %s", a.text())
	}
	for id := range vars {
		s.noData(fmt.Sprintf("var %d", int64(id)+1<<32), "no such variants")
		break
	}
}

func inspectorDir(c *kit.Case) (dir, data, file string) {
	dir = freshDir(c, "c18")
	data = filepath.Join(dir, ".data", opencorpora.DomainName)
	if err := os.MkdirAll(data, 0o755); err != nil {
		c.Skip("harness: " + err.Error())
	}
	return dir, data, filepath.Join(data, opencorpora.LocalCompiledFilename)
}

func c18() kit.Check {
	some := func(s *inspector, in *inspected) {
		ps := in.all(in.pre)
		for k := 0; k < 3; k++ {
			if p := kit.Pick(s.c.R, ps); p != "" && searchable(p) {
				s.checkSearch(in.d, in.words, p, true)
			}
		}
		s.ask("node count")
	}
	end := func(s *inspector) {
		line := kit.Pick(s.c.R, []string{"", "exit\n", "e\n", "exit now\n", "tag 0", ""})
		status, text := s.finish(line)
		s.c.Op("end with %q: status %d", line, status)
		if status != 0 {
			s.c.Fail("the inspector ends with status %d at the end of the session (%q): %s", status, line, tail(text))
		}
		s.c.Count("sessions_ended", 1)
	}
	return kit.Check{
		Rule: "A case compiles a random dictionary, runs the real inspector binary on it and talks to it over pipes; after every line a probe command must be answered, which separates the answers. 'whole' asks for every word, prefix, near miss, tag, node, tag set, table and variant (by id and by name) and compares what is shown with the dictionary, and asks for ids just outside every range and those that wrap around 32 bits. 'junk' mixes hostile lines with searches whose answers are known. 'reload' replaces, removes, truncates or damages the compiled file between commands. Non-trivial: at least 10 lines answered; distinct by dictionary and lines.",
		Groups: []kit.Group{
			{Name: "whole", Quick: 120, Thorough: 4000, Run: func(c *kit.Case) {
				dir, data, file := inspectorDir(c)
				in := compileInto(c, randomDict(c.R, sizeOf(c.R, false)), data, file)
				c.Op("%v", in.d)
				s := startInspector(c, dir)
				defer s.stop()
				s.ask("tag count")
				in.whole(s, 150)
				end(s)
				c.Sig(in.d, in.all(in.pre))
				if s.next >= 10 {
					c.NonTrivial()
				}
			}},
			{Name: "junk", Quick: 200, Thorough: 6000, Run: func(c *kit.Case) {
				dir, data, file := inspectorDir(c)
				in := compileInto(c, randomDict(c.R, c.R.Range(0, 20)), data, file)
				c.Op("%v", in.d)
				s := startInspector(c, dir)
				defer s.stop()
				s.ask("tag count")
				for k := c.R.Range(10, 60); k > 0; k-- {
					if c.R.Chance(20) {
						some(s, in)
						continue
					}
					line := junkLine(c.R)
					if avoided(line) {
						continue
					}
					a := s.ask(line)
					c.Op("%q: %s", line, a.text())
					if !a.says() {
						c.Fail("line %q is answered with nothing", line)
					}
					if cmd := strings.Split(line, " ")[0]; cmd == "node" || cmd == "n" {
						if v, ok := a.node(); ok {
							args := strings.Split(line, " ")
							n, err := strconv.Atoi(args[1])
							if err == nil && v.id != strconv.Itoa(n) {
								c.Fail("line %q is answered with node %s", line, v.id)
							}
						}
					}
					c.Sig(line)
				}
				end(s)
				c.NonTrivial()
			}},
			{Name: "edges", Quick: 56, Thorough: 700, Run: func(c *kit.Case) {
				// inputs that each come down to one weakness, which may be listed as a known finding
				dir, data, file := inspectorDir(c)
				d := randomDict(c.R, c.R.Range(2, 15))
				if len(d.grams) > 250 {
					d = &dict{grams: d.grams[:20]}
				}
				d.grams = append(d.grams, gram{"Qq-q", ""}, gram{"qQ-q", ""})
				in := compileInto(c, d, data, file)
				total := len(in.pre) - 1
				tables := in.idx.TagSetIndex()
				s := startInspector(c, dir)
				defer s.stop()
				s.ask("tag count")
				switch s.key = []string{fTagNegative, fTableNegative, fNodeLast, fNodeWraps, fSetWraps, fReload, fTagCase}[c.Index%7]; s.key {
				case fTagNegative:
					s.noData(fmt.Sprintf("tag %d", -c.R.Range(1, 300)), "no such tag")
				case fTableNegative:
					s.noData(fmt.Sprintf("set table %d", -c.R.Range(1, 300)), "no such table")
				case fNodeLast:
					if total == 0 {
						break
					}
					a := s.ask("node " + strconv.Itoa(total))
					if v, ok := a.node(); !ok || v.id != strconv.Itoa(total) {
						c.FailKey(s.key, "the last node %d is shown as: %s", total, a.text())
					}
				case fNodeWraps:
					s.noData(fmt.Sprintf("node %d", int64(c.R.Range(1, total))-1<<32), "no such node")
				case fSetWraps:
					if len(tables) > 0 {
						t := c.R.Intn(len(tables))
						if n := tables[t].Len(); n > 0 {
							s.noData(fmt.Sprintf("set %d", 1<<32+t<<16+c.R.Intn(n)), "no such tag set")
						}
					}
				case fReload:
					_ = os.RemoveAll(file)
					if c.R.Bool() {
						write(c, file, "not an index")
					}
					a := s.ask("reload")
					if !a.says() {
						c.FailKey(s.key, "a reload of a missing or damaged index is answered with nothing")
					}
				case fTagCase:
					n := len(d.grams)
					a, b := s.ask(fmt.Sprintf("tag %d", n-1)), s.ask("tag qQ-q")
					if a.text() != b.text() {
						c.FailKey(s.key, "tag qQ-q shows %s, tag %d of that name shows %s", b.text(), n-1, a.text())
					}
				}
				s.key = ""
				in.whole(s, 20)
				end(s)
				c.Sig(in.d, in.all(in.pre))
				c.NonTrivial()
			}},
			{Name: "reload", Quick: 80, Thorough: 3000, Run: func(c *kit.Case) {
				dir, data, file := inspectorDir(c)
				in := compileInto(c, randomDict(c.R, c.R.Range(1, 15)), data, file)
				s := startInspector(c, dir)
				defer s.stop()
				s.ask("tag count")
				for k := c.R.Range(2, 7); k > 0; k-- {
					next := in
					what := ""
					bad := false
					how := c.R.Intn(6)
					if kit.Known(fReload) {
						how = kit.Pick(c.R, []int{0, 5})
					}
					switch how {
					case 0:
						what = "unchanged"
						bad = !fileThere(file)
					case 1:
						what, bad = "removed", true
						_ = os.RemoveAll(file)
					case 2:
						if b := read(file); len(b) > 0 {
							what, bad = "truncated", true
							write(c, file, string(b[:c.R.Intn(len(b))]))
						} else {
							what, bad = "still bad", true
						}
					case 3:
						what, bad = "a text", true
						_ = os.RemoveAll(file)
						write(c, file, "<html>not an index</html>")
					case 4:
						what, bad = "a directory", true
						_ = os.RemoveAll(file)
						_ = os.Mkdir(file, 0o755)
					default:
						what = "another dictionary"
						_ = os.RemoveAll(file)
						next = compileInto(c, randomDict(c.R, c.R.Range(1, 15)), data, file)
					}
					if what == "unchanged" && !bad {
						if idx, err := loadFile(c, file); err != nil || in.d.differs(idx) != "" {
							bad = true
						}
					}
					a := s.ask(kit.Pick(c.R, []string{"reload", "r", "reload now"}))
					c.Op("compiled file %s; reload: %s", what, a.text())
					if !bad {
						in = next
					} else if !a.says() {
						c.Fail("a reload of a missing or damaged index (%s) is answered with nothing", what)
					}
					if c.R.Chance(30) {
						in.whole(s, 20)
					} else {
						some(s, in)
					}
					c.Count("reloads", 1)
					c.Sig(what)
				}
				end(s)
				c.Sig(in.all(in.pre))
				c.NonTrivial()
			}},
		},
	}
}

func fileThere(path string) bool {
	st, err := os.Stat(path)
	return err == nil && st.Mode().IsRegular()
}
