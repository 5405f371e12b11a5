package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type e2ePlan struct {
	Proto string   `json:"proto"`
	M     string   `json:"m"`
	Via   string   `json:"via"`
	Code  int      `json:"code"`
	X     bodyDesc `json:"x"`
	Fail  string   `json:"fail"`
	HP    bool     `json:"hp"`
	Push  bool     `json:"push"`
	Slow  bool     `json:"slow"`
}

type e2eView struct {
	Op     string   `json:"op"`
	E      string   `json:"e"`
	Req    string   `json:"req"`
	Status int      `json:"status"`
	CL     int      `json:"cl"`
	N      int      `json:"n"`
	D      []int    `json:"d"`
	Loc    int      `json:"loc"`
	Err    string   `json:"err"`
	Hdr    []string `json:"hdr"`
	Head   bool     `json:"head"`
	Text   bool     `json:"text"`
	Why    string   `json:"why"`
	Srv    string   `json:"srv"`
}

type e2eTrace struct {
	ID int       `json:"id"`
	Q  e2ePlan   `json:"q"`
	Ev []e2eView `json:"ev"`
}

// e2eWorld is one server for HTTP/1.x and one for HTTP/2.
type e2eWorld struct {
	h1, h2 *httptest.Server
	next   int64
	plans  sync.Map // id -> *e2eJob
	client *http.Client
	h2c    *http.Client
	dir    string
	files  map[int]string
}

type e2eJob struct {
	q    e2ePlan
	base *response.Response // answer with a copy of this one
	mu   sync.Mutex
	srv  string
}

func newE2E() *e2eWorld {
	w := &e2eWorld{files: map[int]string{}}
	dir, err := os.MkdirTemp("", "e2e")
	fatal(err)
	w.dir = dir
	quiet := log.New(io.Discard, "", 0)
	w.h1 = httptest.NewUnstartedServer(http.HandlerFunc(w.serve))
	w.h1.Config.ErrorLog = quiet
	w.h1.Start()
	w.h2 = httptest.NewUnstartedServer(http.HandlerFunc(w.serve))
	w.h2.Config.ErrorLog = quiet
	w.h2.EnableHTTP2 = true
	w.h2.StartTLS()
	w.client = &http.Client{CheckRedirect: noRedirect, Transport: &http.Transport{DisableCompression: true}}
	tr := w.h2.Client().Transport.(*http.Transport).Clone()
	tr.DisableCompression = true
	tr.TLSClientConfig = &tls.Config{InsecureSkipVerify: true}
	tr.ForceAttemptHTTP2 = true
	w.h2c = &http.Client{CheckRedirect: noRedirect, Transport: tr}
	handler.OnPanic = func(error) {}
	return w
}

func noRedirect(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }

func (w *e2eWorld) close() {
	w.client.CloseIdleConnections()
	w.h2c.CloseIdleConnections()
	w.h1.CloseClientConnections()
	w.h2.CloseClientConnections()
	go w.h1.Close()
	go w.h2.Close()
	for _, f := range w.files {
		_ = os.Remove(f)
	}
	_ = os.Remove(w.dir)
}

func (w *e2eWorld) file(n int) string {
	if f, ok := w.files[n]; ok {
		return f
	}
	f := fmt.Sprintf("%s/f%d", w.dir, n)
	fatal(os.WriteFile(f, src.Content(n), 0o600))
	w.files[n] = f
	return f
}

var errBoom = errors.New("boom")

// response builds what the plan says.
func (w *e2eWorld) response(q e2ePlan) *response.Response {
	b := response.NewBuilder()
	if q.Push {
		b.WithHeader("Push", "/style.css", false)
	}
	x := q.X
	switch x.Kind {
	case "json":
		b.WithJSON(strings.Repeat("a", x.N))
	case "pretty":
		b.WithPrettyJSON([]string{strings.Repeat("b", x.N), "<c>"})
	case "redirect":
		b.RedirectPage(302, "/target?x="+strings.Repeat("d", x.N%3000)+"&y=\"é\"")
		if q.Push {
			b.WithHeader("Push", "/style.css", false)
		}
	case "error":
		b.ErrorPage(404, errBoom)
	case "file":
		f, err := os.Open(w.file(x.N))
		fatal(err)
		bd, err := body.FromReader(f)
		fatal(err)
		if x.Pre > 0 {
			_, err = io.ReadFull(bd, make([]byte, x.Pre))
			fatal(err)
		}
		b.WithBody(bd)
	default:
		s := &respWorld{}
		if q.Fail == "panic" {
			b.WithBody(s.panicBody(x))
		} else {
			b.WithBody(s.bodyFor(x))
		}
	}
	b.WithStatus(q.Code)
	return b.Build()
}

// panicBody is like bodyFor, but its source panics instead of failing.
func (s *respWorld) panicBody(x bodyDesc) body.Body {
	e := src.Env{Kind: x.Kind, N: x.N, F: x.F, L: x.N, Closer: x.Closer, Chunk: x.Chunk, Base: x.Base}
	var r io.Reader
	known := int64(x.N)
	wrap := func(r io.Reader) panicReader { return panicReader{r} }
	var err error
	var b body.Body
	switch x.Kind {
	case "seek":
		e.Cs = true
		r = src.New(e).Reader()
		b, err = body.FromReader(panicSeeker{wrap(r), r.(io.Seeker)})
	case "at":
		e.Ca = true
		r = src.New(e).Reader()
		b, err = body.FromReaderAndLength(panicReaderAt{wrap(r), r.(io.ReaderAt)}, known)
	case "stream":
		r = src.New(e).Reader()
		b, err = body.FromReader(wrap(r))
	default:
		e.Kind = "stream"
		r = src.New(e).Reader()
		b, err = body.FromReaderAndLength(wrap(r), known)
	}
	fatal(err)
	if x.Pre > 0 {
		_, err = io.ReadFull(b, make([]byte, x.Pre))
		fatal(err)
	}
	if x.Kind == "custom" {
		b = &countBody{Body: b}
	}
	return b
}

type panicReader struct{ r io.Reader }

// boom panics with the failure, unless bytes come with it.
func boom(n int, err error) (int, error) {
	if err == src.ErrSource {
		if n > 0 {
			return n, nil
		}
		panic(errBoom)
	}
	return n, err
}

func (p panicReader) Read(b []byte) (int, error) { return boom(p.r.Read(b)) }

type panicSeeker struct {
	panicReader
	s io.Seeker
}

func (p panicSeeker) Seek(o int64, wh int) (int64, error) { return p.s.Seek(o, wh) }

type panicReaderAt struct {
	panicReader
	a io.ReaderAt
}

func (p panicReaderAt) ReadAt(b []byte, o int64) (int, error) {
	n, err := p.a.ReadAt(b, o)
	if err == src.ErrSource {
		panic(errBoom)
	}
	return n, err
}

func (w *e2eWorld) serve(rw http.ResponseWriter, req *http.Request) {
	id, _ := strconv.Atoi(req.Header.Get("X-Plan"))
	v, ok := w.plans.Load(id)
	if !ok { // a pushed request
		return
	}
	job := v.(*e2eJob)
	make1 := func() response.Response {
		if job.q.HP {
			panic(errBoom)
		}
		if job.q.Slow {
			time.Sleep(2 * time.Millisecond)
		}
		if job.base != nil {
			c, err := job.base.Copy()
			fatal(err)
			return *c
		}
		return *w.response(job.q)
	}
	note := func(err error) {
		if err != nil {
			job.mu.Lock()
			job.srv = err.Error()
			job.mu.Unlock()
		}
	}
	switch job.q.Via {
	case "adaptor":
		handler.Adaptor{Inner: handler.HandlerFunc(func(*http.Request) response.Response { return make1() })}.ServeHTTP(rw, req)
	case "raw":
		r := make1()
		note(r.Serve(rw))
	case "wrapped":
		r := make1()
		note(r.Serve(response.NewWriter(rw, req)))
	}
}

const e2eWait = 20 * time.Second

// conn is a raw HTTP/1.x connection, so that stray bytes between responses
// are noticed.
type rawConn struct {
	c net.Conn
	r *bufio.Reader
}

func (w *e2eWorld) dial() (*rawConn, error) {
	c, err := net.Dial("tcp", w.h1.Listener.Addr().String())
	if err != nil {
		return nil, err
	}
	return &rawConn{c: c, r: bufio.NewReader(c)}, nil
}

func (w *e2eWorld) raw(rc **rawConn, id int, q e2ePlan) e2eView {
	v := e2eView{D: []int{}, Hdr: []string{}, CL: -1, Req: "nil", Err: "nil", Head: q.M == "HEAD", Op: "request", E: "nil"}
	var err error
	if *rc == nil {
		*rc, err = w.dial()
		fatal(err)
	}
	c := *rc
	if c.r.Buffered() > 0 {
		v.Req, v.Why = "garbage", "bytes after the previous response"
		_ = c.c.Close()
		*rc = nil
		return v
	}
	_ = c.c.SetDeadline(time.Now().Add(e2eWait))
	version, extra := q.Proto, ""
	if q.M == "POST" {
		extra = "Content-Length: 0\r\n"
	}
	_, err = fmt.Fprintf(c.c, "%s / HTTP/%s\r\nHost: x\r\nX-Plan: %d\r\n%s\r\n", q.M, version, id, extra)
	var resp *http.Response
	if err == nil {
		resp, err = http.ReadResponse(c.r, &http.Request{Method: q.M})
	}
	if err != nil {
		v.Req, v.Why = "err", err.Error()
		_ = c.c.Close()
		*rc = nil
		return v
	}
	view(&v, resp)
	if resp.Close || version == "1.0" || v.Err != "nil" {
		_ = c.c.Close()
		*rc = nil
	}
	return v
}

func view(v *e2eView, resp *http.Response) {
	v.Status = resp.StatusCode
	v.CL = -1
	if s := resp.Header.Get("Content-Length"); s != "" {
		n, err := strconv.Atoi(s)
		fatal(err)
		v.CL = n
	} else if resp.ContentLength >= 0 && !v.Head {
		v.CL = int(resp.ContentLength)
	}
	if resp.StatusCode == 204 || resp.StatusCode == 304 {
		v.CL = -1
	}
	for k := range resp.Header {
		v.Hdr = append(v.Hdr, k)
	}
	sort.Strings(v.Hdr)
	data, err := io.ReadAll(resp.Body)
	_ = resp.Body.Close()
	v.N = len(data)
	v.D, v.Loc = src.Project(data)
	v.Text = utf8ish(data)
	if err != nil {
		v.Err, v.Why = "err", err.Error()
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() || errors.Is(err, context.DeadlineExceeded) {
			v.Err = "timeout"
		}
	}
}

// utf8ish: the generated texts end in a line end and contain nothing strange.
func utf8ish(data []byte) bool {
	return bytes.HasSuffix(data, []byte("\n")) && !bytes.Contains(data, []byte{0})
}

func (w *e2eWorld) viaClient(c *http.Client, url string, id int, q e2ePlan) e2eView {
	v := e2eView{D: []int{}, Hdr: []string{}, CL: -1, Req: "nil", Err: "nil", Head: q.M == "HEAD", Op: "request", E: "nil"}
	ctx, cancel := context.WithTimeout(context.Background(), e2eWait)
	defer cancel()
	req, err := http.NewRequestWithContext(ctx, q.M, url, nil)
	fatal(err)
	req.Header.Set("X-Plan", strconv.Itoa(id))
	resp, err := c.Do(req)
	if err != nil {
		v.Req, v.Why = "err", err.Error()
		return v
	}
	view(&v, resp)
	return v
}

func (w *e2eWorld) request(rc **rawConn, job *e2eJob) e2eView {
	id := int(atomic.AddInt64(&w.next, 1))
	w.plans.Store(id, job)
	defer w.plans.Delete(id)
	var v e2eView
	switch job.q.Proto {
	case "h2":
		v = w.viaClient(w.h2c, w.h2.URL, id, job.q)
	case "1.1c":
		v = w.viaClient(w.client, w.h1.URL, id, job.q)
	default:
		v = w.raw(rc, id, job.q)
	}
	job.mu.Lock()
	v.Srv = job.srv
	job.mu.Unlock()
	return v
}

func (w *e2eWorld) run(id int, line []byte) []e2eTrace {
	var s struct {
		How string    `json:"how"`
		Qs  []e2ePlan `json:"qs"`
	}
	fatal(json.Unmarshal(line, &s))
	for i := range s.Qs {
		w.prepare(s.Qs[i].X)
	}
	views := make([]e2eView, len(s.Qs))
	var base *response.Response
	if s.How == "shared" {
		base = w.response(s.Qs[0])
	}
	if s.How == "sequence" {
		var rc *rawConn
		for i, q := range s.Qs {
			views[i] = w.request(&rc, &e2eJob{q: q})
		}
		if rc != nil {
			_ = rc.c.Close()
		}
	} else {
		var wg sync.WaitGroup
		for i, q := range s.Qs {
			wg.Add(1)
			go func(i int, q e2ePlan) {
				defer wg.Done()
				var rc *rawConn
				views[i] = w.request(&rc, &e2eJob{q: q, base: base})
				if rc != nil {
					_ = rc.c.Close()
				}
			}(i, q)
		}
		wg.Wait()
	}
	if base != nil {
		_ = base.Body().Close()
	}
	var out []e2eTrace
	for i, q := range s.Qs {
		out = append(out, e2eTrace{ID: id*100 + i, Q: q, Ev: []e2eView{views[i]}})
	}
	return out
}

// prepare creates files before requests may need them at the same time.
func (w *e2eWorld) prepare(x bodyDesc) {
	if x.Kind == "file" {
		w.file(x.N)
	}
}
