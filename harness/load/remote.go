package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/amarin/gomorphy/internal/zverif/kit"
)

// reply says how the remote answers a request.
type reply struct {
	drop      bool   // the connection is closed without an answer
	status    int    // 0 means 200
	page      string // body of an error page
	noModHdr  bool
	modHdr    string // modification header given literally
	cut       int    // only so many bytes of the body are sent, then the connection breaks; -1 for all
	chunked   bool   // the length is not announced
	moved     int    // so many times the answer is that it is elsewhere, then this one is given there
	location  string // where else it is
	closing   bool   // the length is not announced and the body ends with the connection
	coded     bool   // the body is sent gzipped to whoever accepts that
	keep      bool   // the connection is kept for more requests after a whole answer
	onRequest func()
	onSent    func() // called when the bytes before the cut are sent
}

// remote is a fake of the server of the dictionary, and a proxy to it.
type remote struct {
	mu       sync.Mutex
	content  []byte
	modified time.Time
	heads    []reply // answers to the first checks, before head
	head     reply
	get      reply
	requests []string
	listener net.Listener
	server   *http.Server
}

func newRemote() (*remote, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	r := &remote{listener: l, head: reply{cut: -1}, get: reply{cut: -1}}
	r.server = &http.Server{Handler: r}
	go func() { _ = r.server.Serve(l) }()
	return r, nil
}

func (r *remote) close()       { _ = r.server.Close() }
func (r *remote) addr() string { return "http://" + r.listener.Addr().String() }
func (r *remote) proxy() []string {
	return []string{"HTTP_PROXY=" + r.addr(), "http_proxy=" + r.addr(), "NO_PROXY=", "no_proxy="}
}

// faultless makes both requests succeed.
func (r *remote) faultless() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.head, r.get = reply{cut: -1}, reply{cut: -1}
}

func (r *remote) set(head, get reply) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.head, r.get = head, get
	r.heads = nil
	r.requests = nil
}

func (r *remote) publish(content []byte, modified time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.content, r.modified = content, modified
}

func (r *remote) seen() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.requests...)
}

func (r *remote) count(method string) (n int) {
	for _, m := range r.seen() {
		if m == method {
			n++
		}
	}
	return n
}

// ServeHTTP answers requests, written raw so that broken answers are possible.
func (r *remote) ServeHTTP(w http.ResponseWriter, req *http.Request) {
	conn, buf, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer conn.Close()
	for r.answer(conn, buf, req) {
		_ = conn.SetReadDeadline(time.Now().Add(60 * time.Second))
		if req, err = http.ReadRequest(buf.Reader); err != nil {
			return
		}
	}
}

// answer answers a request and tells whether the connection takes more of them.
func (r *remote) answer(conn net.Conn, buf *bufio.ReadWriter, req *http.Request) bool {
	r.mu.Lock()
	moves, _ := strconv.Atoi(strings.TrimPrefix(req.URL.Path, "/moved/"))
	if moves == 0 {
		r.requests = append(r.requests, req.Method)
	}
	how := r.get
	if req.Method == http.MethodHead {
		how = r.head
		if len(r.heads) > 0 {
			how = r.heads[0]
			if moves >= how.moved {
				r.heads = r.heads[1:]
			}
		}
	}
	if moves < how.moved {
		how = reply{status: []int{301, 302, 307, 308, 303}[(moves+how.moved)%5], page: "moved", cut: -1, location: "http://mirror.example/moved/" + strconv.Itoa(moves+1),
			modHdr: []string{"", "Mon, 02 Jan 2006 15:04:05 GMT", "Sat, 02 Jan 2106 15:04:05 GMT"}[how.moved%3]}
	}
	content, modified := r.content, r.modified
	r.mu.Unlock()

	if how.onRequest != nil {
		how.onRequest()
	}
	if how.drop {
		return false
	}
	status := how.status
	if status == 0 {
		status = 200
	}
	body := content
	if status != 200 || how.page != "" {
		body = []byte(how.page)
	}
	cut := how.cut
	coded := how.coded && req.Method == http.MethodGet && status == 200 && strings.Contains(req.Header.Get("Accept-Encoding"), "gzip")
	if coded {
		whole := len(body)
		body = gzipped(body)
		if cut >= whole {
			cut = -1
		} else if cut >= 0 {
			cut = cut * len(body) / whole
		}
	}
	fmt.Fprintf(buf, "HTTP/1.1 %d %s\r\nContent-Type: application/octet-stream\r\n", status, http.StatusText(status))
	keep := how.keep && !how.closing && (cut < 0 || cut >= len(body))
	if !keep {
		fmt.Fprintf(buf, "Connection: close\r\n")
	}
	if coded {
		fmt.Fprintf(buf, "Content-Encoding: gzip\r\n")
	}
	if how.location != "" {
		fmt.Fprintf(buf, "Location: %s\r\n", how.location)
	}
	if how.modHdr != "" {
		fmt.Fprintf(buf, "Last-Modified: %s\r\n", how.modHdr)
	} else if !how.noModHdr && !modified.IsZero() {
		fmt.Fprintf(buf, "Last-Modified: %s\r\n", modified.UTC().Format(http.TimeFormat))
	}
	if how.chunked {
		fmt.Fprintf(buf, "Transfer-Encoding: chunked\r\n\r\n")
	} else if how.closing {
		fmt.Fprintf(buf, "\r\n")
	} else {
		fmt.Fprintf(buf, "Content-Length: %d\r\n\r\n", len(body))
	}
	if req.Method == http.MethodHead {
		_ = buf.Flush()
		if how.onSent != nil {
			how.onSent()
		}
		return keep
	}
	send := body
	if cut >= 0 && cut < len(body) {
		send = body[:cut]
	}
	if how.chunked {
		for len(send) > 0 {
			n := 4000
			if n > len(send) {
				n = len(send)
			}
			fmt.Fprintf(buf, "%x\r\n%s\r\n", n, send[:n])
			send = send[n:]
		}
		if cut < 0 || cut >= len(body) {
			fmt.Fprintf(buf, "0\r\n\r\n")
		}
	} else {
		_, _ = buf.Write(send)
	}
	_ = buf.Flush()
	if how.onSent != nil {
		how.onSent()
	}
	if keep {
		return true
	}
	if c, ok := conn.(*net.TCPConn); ok {
		_ = c.CloseWrite()
		_ = c.SetReadDeadline(time.Now().Add(200 * time.Millisecond))
		_, _ = io.Copy(io.Discard, c)
	}
	return false
}

// packed is a dictionary with its XML text and the packed file of it.
type packed struct {
	d    *dict
	text string
	bz2  []byte
	name string
}

var (
	pool    []*packed
	spoiled []*packed // what can not be compiled, without a dictionary
)

// makePool packs dictionaries; python's bz2 does the packing.
func makePool(scratch string, sizes []int) error {
	dir := filepath.Join(scratch, "pool")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	r := kit.NewRand(77, kit.Hash("pool"))
	for i, n := range sizes {
		d := (*dict)(nil)
		if n < 0 {
			d = largeDict(r, -n)
		} else {
			d = randomDict(r, n)
		}
		d.rev = i
		p := &packed{d: d, text: d.xml(r), name: "d" + strconv.Itoa(i)}
		pool = append(pool, p)
		if err := os.WriteFile(filepath.Join(dir, p.name), []byte(p.text), 0o644); err != nil {
			return err
		}
	}
	last := pool[len(pool)-1].text
	for i, text := range []string{
		"", errorPage, last[:len(last)/2], last[:strings.LastIndex(last, "</")], last[:strings.LastIndex(last, "</lemma>")],
		strings.Replace(last, "</lemmata>", `<lemma id="99999" rev="1"><l t="слово"><g v="ZzZz"/></l><f t="слово"/></lemma></lemmata>`, 1), last + "<",
	} {
		if strings.HasSuffix(text, "<") || text == last {
			continue
		}
		p := &packed{text: text, name: "s" + strconv.Itoa(i)}
		spoiled = append(spoiled, p)
		if err := os.WriteFile(filepath.Join(dir, p.name), []byte(p.text), 0o644); err != nil {
			return err
		}
	}
	script := "import bz2,os,sys\nfor n in os.listdir(sys.argv[1]):\n p=os.path.join(sys.argv[1],n)\n open(p+'.bz2','wb').write(bz2.compress(open(p,'rb').read(),1))\n"
	if out, err := exec.Command("python3", "-c", script, dir).CombinedOutput(); err != nil {
		return fmt.Errorf("packing: %v: %s", err, out)
	}
	for _, p := range append(append([]*packed{}, pool...), spoiled...) {
		data, err := os.ReadFile(filepath.Join(dir, p.name+".bz2"))
		if err != nil {
			return err
		}
		p.bz2 = data
	}
	return nil
}

const errorPage = "<html><head><title>error</title></head><body><h1>Service unavailable</h1></body></html>\n"

// badGet lists ways a download can fail.
func badGet(r *kit.Rand, size int) (reply, string) {
	switch r.Intn(6) {
	case 0:
		return reply{drop: true, cut: -1}, "get dropped"
	case 1, 2:
		st := kit.Pick(r, []int{202, 206, 206, 304, 400, 403, 404, 410, 429, 500, 502, 503, 504})
		page := errorPage
		if r.Chance(30) {
			page = ""
		}
		if st == 304 {
			page = ""
		}
		return reply{status: st, page: page, cut: -1}, fmt.Sprintf("get answers %d", st)
	default:
		cut := r.Intn(size)
		if r.Chance(20) {
			cut = size - 1
		} else if r.Chance(20) {
			cut = 0
		}
		how := reply{cut: cut, chunked: r.Bool()}
		return how, fmt.Sprintf("get breaks at %d of %d bytes (chunked %v)", cut, size, how.chunked)
	}
}

func badHead(r *kit.Rand) (reply, string) {
	if r.Bool() {
		return reply{drop: true, cut: -1}, "head dropped"
	}
	st := kit.Pick(r, []int{202, 206, 304, 400, 403, 404, 429, 500, 502, 503, 504})
	return reply{status: st, cut: -1}, fmt.Sprintf("head answers %d", st)
}

func join(s []string) string { return strings.Join(s, ", ") }

// elsewhere makes a remote answer from another place, to which it sends who asks, sometimes.
func elsewhere(r *kit.Rand, percent int, head, get *reply) string {
	if get.coded = r.Chance(percent); get.coded {
		if r.Chance(60) {
			return ", gzipped"
		}
	} else if !r.Chance(percent) {
		return ""
	}
	head.moved, get.moved = r.Intn(4), r.Intn(4)
	return fmt.Sprintf(", moved %d times for head and %d for get", head.moved, get.moved)
}

func gzipped(data []byte) []byte {
	var b bytes.Buffer
	w := gzip.NewWriter(&b)
	_, _ = w.Write(data)
	_ = w.Close()
	return b.Bytes()
}
