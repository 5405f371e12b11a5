package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/wrapperspb"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/rw"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type bodyDesc struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	Pre    int    `json:"pre"`
	F      int    `json:"f"`
	Known  bool   `json:"known"`
	Closer bool   `json:"closer"`
	Cerr   bool   `json:"cerr"`
	Chunk  int    `json:"chunk"`
	Base   int    `json:"base"`
	Eofw   bool   `json:"eofw"`
}

type writerDesc struct {
	Pu    bool      `json:"pu"`
	Perr  []string  `json:"perr"`
	Max   int       `json:"max"`
	Wrap  bool      `json:"wrap"`
	Head  bool      `json:"head"`
	Fancy bool      `json:"fancy"`
	Pre   []rw.Pair `json:"pre"`
	Vary  bool      `json:"vary"`
}

type respOp struct {
	Op   string       `json:"op"`
	B    int          `json:"b"`
	C    int          `json:"c"`
	M    int          `json:"m"`
	R    int          `json:"r"`
	K    string       `json:"k"`
	S    string       `json:"s"`
	V    int          `json:"v"`
	App  bool         `json:"app"`
	How  string       `json:"how"`
	Code int          `json:"code"`
	Loc  []int        `json:"loc"`
	X    bodyDesc     `json:"x"`
	Rs   []int        `json:"rs"`
	Ws   []writerDesc `json:"ws"`
}

type respScn struct {
	NB  int      `json:"nb"`
	NR  int      `json:"nr"`
	NM  int      `json:"nm"`
	Ops []respOp `json:"ops"`
}

type hSnap struct {
	Live bool      `json:"live"`
	Code int       `json:"code"`
	H    []rw.Pair `json:"h"`
	Body bool      `json:"body"`
	Rem  int       `json:"rem"`
	Err  int       `json:"err"`
	Gen  int       `json:"gen"`
	Seen bool      `json:"seen"`
}

type served struct {
	Calls   []rw.Call `json:"calls"`
	E       string    `json:"e"`
	After   string    `json:"after"`
	Bcloses int       `json:"bcloses"`
	Used    int       `json:"used"`
	Raw     []int     `json:"raw"`
	Final   []rw.Pair `json:"final"`
	N       int       `json:"n"`
}

type otherErr struct{ what string }

func (e *otherErr) Error() string { return e.what }

// richErr implements the optional methods errors are known to have.
type richErr struct{ what string }

func (e *richErr) Error() string              { return e.what }
func (e *richErr) String() string             { return e.what }
func (e *richErr) Message() string            { return e.what }
func (e *richErr) Public() string             { return e.what }
func (e *richErr) Timeout() bool              { return true }
func (e *richErr) Temporary() bool            { return true }
func (e *richErr) StatusCode() int            { return 451 }
func (e *richErr) HTTPStatus() int            { return 451 }
func (e *richErr) Header() http.Header        { return http.Header{"X-A": {e.what}} }
func (e *richErr) Headers() http.Header       { return http.Header{"X-A": {e.what}} }
func (e *richErr) Unwrap() error              { return context.DeadlineExceeded }
func (e *richErr) MarshalJSON() ([]byte, error) { return json.Marshal(e.what) }
func (e *richErr) MarshalText() ([]byte, error) { return []byte(e.what), nil }

type valueErr string

func (e valueErr) Error() string { return string(e) }

// The two errors a scenario uses are drawn from these pairs.
var errPairs = [][]error{
	{nil, errors.New("cannot open /etc/s3cr3t: permission denied"), &otherErr{"<b>s3cr3t</b>"}},
	{nil, &richErr{"s3cr3t rich"}, fmt.Errorf("s3cr3t: %w", os.ErrNotExist)},
	{nil, &os.PathError{Op: "open", Path: "/etc/s3cr3t", Err: os.ErrPermission}, valueErr("s3cr3t value")},
	{nil, &net.OpError{Op: "dial", Net: "tcp", Err: &net.DNSError{Err: "s3cr3t", Name: "s3cr3t.example", IsTimeout: true}}, fmt.Errorf("s3cr3t: %w", context.DeadlineExceeded)},
	{nil, &url.Error{Op: "Get", URL: "http://s3cr3t/", Err: io.ErrUnexpectedEOF}, io.EOF},
	{nil, fmt.Errorf("s3cr3t: %w", errors.New("s3cr3t inner")), http.ErrAbortHandler},
}

func errIndex(err error) int {
	for _, pair := range errPairs {
		for i, e := range pair {
			if e == err {
				return i
			}
		}
	}
	return -1
}

func codes(s string) []int {
	d := []int{}
	for _, c := range []byte(s) {
		d = append(d, int(c))
	}
	return d
}

func uncodes(d []int) string {
	var sb strings.Builder
	for _, c := range d {
		sb.WriteByte(byte(c))
	}
	return sb.String()
}

// countBody is a Body of our own.
type countBody struct {
	body.Body
	mu     sync.Mutex
	closes int
	nocopy bool
}

func (b *countBody) Close() error {
	b.mu.Lock()
	b.closes++
	b.mu.Unlock()
	return b.Body.Close()
}

func (b *countBody) Copy() (body.Body, error) {
	if b.nocopy {
		return nil, src.ErrSource
	}
	dup, err := b.Body.Copy()
	if err != nil {
		return nil, err
	}
	return &countBody{Body: dup}, nil
}

// testGen is a page generator of our own.
type testGen struct {
	g    int
	w    *respWorld
	last []Event
}

func (g *testGen) page(kind string, code int, loc string, err error) (http.Header, body.Body) {
	g.w.pages++
	base := 600000 + 20*g.w.pages
	g.w.gens = append(g.w.gens, Event{"g": g.g, "kind": kind, "code": code, "loc": codes(loc), "err": errIndex(err)})
	g.w.base = base
	h := http.Header{"X-Gen": {fmt.Sprint(g.g)}, "Content-Type": {"text/x-gen"}, "X-Code": {fmt.Sprint(code)}}
	return h, body.FromBytes(src.Content(base + 7)[base:])
}

func (g *testGen) GenerateRedirectPage(code int, location string) (http.Header, body.Body) {
	return g.page("redirect", code, location, nil)
}

func (g *testGen) GenerateErrorPage(code int, err error) (http.Header, body.Body) {
	return g.page("errpage", code, "", err)
}

type respWorld struct {
	rng    *rand.Rand
	b      []*response.Builder
	r      []*response.Response
	m      []http.Header
	copied []bool
	bcop   []bool
	plain  bool // there are sources that fail with plain errors
	srcs   []*src.Source
	gen    []*testGen
	errs   []error
	pages  int
	gens   []Event
	base   int
	names  map[string]string // header names in place of those in the scenario
	peek   int // how often builders' headers are looked at
}

func (w *respWorld) bodyFor(x bodyDesc) body.Body {
	add := func(e src.Env) *src.Source {
		s := src.New(e)
		w.srcs = append(w.srcs, s)
		return s
	}
	e := src.Env{Kind: x.Kind, N: x.N, F: x.F, L: x.N, Closer: x.Closer, Cerr: x.Cerr, Chunk: x.Chunk, Base: x.Base, Eofw: x.Eofw, Errs: src.AlikeErrs + 1 + x.N + x.F}
	if (x.N+x.Base/30000)%3 == 0 {
		e.Errs -= src.AlikeErrs // plain ones: see serveClass
		w.plain = true
	}
	var b body.Body
	var err error
	switch x.Kind {
	case "bytes":
		add(e)
		b = body.FromBytes(src.Content(x.Base + x.N)[x.Base:])
	case "empty":
		add(e)
		b = body.Empty()
	case "stream":
		b, err = body.FromReader(add(e).Reader())
	case "known", "custom", "nocopy":
		e.Kind = "stream"
		b, err = body.FromReaderAndLength(add(e).Reader(), int64(x.N))
	case "short": // the source has more bytes than the body
		e.N += 3
		e.Kind, e.Cs = "seek", true
		b, err = body.FromReaderAndLength(add(e).Reader(), int64(x.N))
	case "seek":
		e.Cs = true
		b, err = body.FromReader(add(e).Reader())
	case "at":
		e.Ca = true
		b, err = body.FromReaderAndLength(add(e).Reader(), int64(x.N))
	default:
		err = fmt.Errorf("unknown kind %q", x.Kind)
	}
	fatal(err)
	if x.Pre > 0 {
		_, err = io.ReadFull(b, make([]byte, x.Pre))
		fatal(err)
	}
	if x.Kind == "custom" || x.Kind == "nocopy" {
		b = &countBody{Body: b, nocopy: x.Kind == "nocopy"}
	}
	return b
}

func rem(b body.Body) int {
	if b == nil {
		return -9
	}
	return int(clip(b.BytesRemaining()))
}

func (w *respWorld) genIndex(g response.PageGenerator) int {
	if g == response.DefaultPageGenerator {
		return 0
	}
	for _, x := range w.gen {
		if x != nil && response.PageGenerator(x) == g {
			return x.g
		}
	}
	return -1
}

// snap records what all objects show.  Builder.Headers has a side effect, so
// it is not always called.
func (w *respWorld) snap(ev Event, must int) {
	sb, sr, sm := []hSnap{}, []hSnap{}, [][]rw.Pair{}
	for i, b := range w.b[1:] {
		if b == nil {
			sb = append(sb, hSnap{H: []rw.Pair{}})
			continue
		}
		s := hSnap{Live: true, Code: b.Status(), Body: b.Body() != nil, Rem: rem(b.Body()), Err: errIndex(b.Err()),
			Gen: w.genIndex(b.PageGenerator()), H: []rw.Pair{}}
		if i+1 == must || w.rng.Intn(4) < w.peek {
			s.H, s.Seen = rw.Clone(b.Headers()), true
		}
		sb = append(sb, s)
	}
	for _, r := range w.r[1:] {
		if r == nil {
			sr = append(sr, hSnap{H: []rw.Pair{}})
			continue
		}
		sr = append(sr, hSnap{Live: true, Code: r.Status(), H: rw.Clone(r.Headers()), Body: r.Body() != nil, Rem: rem(r.Body()),
			Err: errIndex(r.Err()), Seen: true})
	}
	for _, m := range w.m[1:] {
		sm = append(sm, rw.Clone(m))
	}
	sc := []int{}
	for _, s := range w.srcs {
		sc = append(sc, int(s.Counts().Closes))
	}
	ev["sb"], ev["sr"], ev["sm"], ev["sc"] = sb, sr, sm, sc
}

func (w *respWorld) after() (n int) {
	for _, s := range w.srcs {
		n += int(s.Counts().After)
	}
	return n
}

func mutate(h http.Header, op respOp) {
	switch op.How {
	case "set":
		h[op.K] = []string{op.S}
	case "app":
		h[op.K] = append(h[op.K], op.S)
	case "two":
		v := make([]string, 0, 4) // room for one that appends in place
		h[op.K] = append(v, op.S, "second")
	case "none":
		h[op.K] = []string{}
	case "elem":
		if len(h[op.K]) > 0 {
			h[op.K][0] = op.S
		}
	case "last":
		if n := len(h[op.K]); n > 0 {
			h[op.K][n-1] = op.S
		}
	case "del":
		delete(h, op.K)
	default:
		fatal(fmt.Errorf("unknown change %q", op.How))
	}
}

func readAll(b body.Body) []int {
	dup, err := b.Copy()
	if err != nil {
		return []int{}
	}
	data, _ := io.ReadAll(dup)
	_ = dup.Close()
	return codes(string(data))
}

var (
	ctypes = []string{"", "text/html; charset=utf-8", "TEXT/Plain", "application/json;charset=UTF-8", "", "text/", "a/b; =c", "text/plain; charset"}
	trims  = []string{"", "en", "  de, fr ", "gzip"}
	etags  = []struct {
		t string
		s bool
	}{{}, {"abc", true}, {"abc", false}, {"", true}}
	digests = []struct {
		a string
		n int
	}{{}, {"sha-256", 3}, {"md5", 1}, {"", 3}, {"md5", 0}}
	payValue = map[string]interface{}{"a": []interface{}{1, "<&>"}}
	badValue = []interface{}{nil, make(chan int), func() {}}
)

func (w *respWorld) do(op respOp, ev Event) (done bool) {
	b := w.b[op.B]
	skip := map[string]bool{"new": true, "mapmut": true, "rcopy": true, "serve": true, "pserve": true}
	if !skip[op.Op] && b == nil {
		return false
	}
	ev["rem"] = -9
	defer func() {
		if x := recover(); x != nil {
			ev["panic"] = true
			ev["why"] = fmt.Sprint(x)
		}
	}()
	done = true
	chain := func(x *response.Builder) { ev["same"] = x == b }
	switch op.Op {
	case "new":
		w.b[op.B] = response.NewBuilder()
		w.bcop[op.B] = false
	case "mapmut":
		mutate(w.m[op.M], op)
	case "hdrmut":
		mutate(b.Headers(), op)
	case "status":
		chain(b.WithStatus(op.V))
	case "headers":
		chain(b.WithHeaders(w.m[op.M]))
	case "header":
		chain(b.WithHeader(op.K, op.S, op.App))
	case "without":
		chain(b.WithoutHeader(op.K))
	case "ctype":
		chain(b.WithContentType(ctypes[op.V]))
	case "lang":
		chain(b.WithContentLanguage(trims[op.V]))
	case "enc":
		chain(b.WithContentEncoding(trims[op.V]))
	case "etag":
		chain(b.WithETag(etags[op.V].t, etags[op.V].s))
	case "digest":
		chain(b.WithDigest(digests[op.V].a, []byte{1, 2, 3}[:digests[op.V].n]))
	case "body":
		chain(b.WithBody(w.bodyFor(op.X)))
	case "nilbody":
		chain(b.WithBody(nil))
	case "json":
		chain(b.WithJSON(payValue))
		ev["raw"] = readAll(b.Body())
	case "pretty":
		chain(b.WithPrettyJSON(payValue))
		ev["raw"] = readAll(b.Body())
	case "proto":
		chain(b.WithProto(wrapperspb.String("hi<")))
		ev["raw"] = readAll(b.Body())
	case "text":
		chain(b.WithProtoText(wrapperspb.String("hi<"), nil))
		ev["raw"] = readAll(b.Body())
	case "badjson":
		chain(b.WithJSON(badValue[op.V]))
	case "err":
		chain(b.WithError(w.errs[op.V]))
	case "gen":
		if op.V == 0 {
			b.WithPageGenerator(nil)
		}
		chain(b.WithPageGenerator(w.gen[op.V]))
	case "redirect", "errpage":
		w.gens, w.base = []Event{}, 0
		ev["text"] = codes(http.StatusText(op.Code))
		if op.Op == "redirect" {
			chain(b.RedirectPage(op.Code, uncodes(op.Loc)))
		} else {
			chain(b.ErrorPage(op.Code, w.errs[op.V]))
		}
		ev["gens"], ev["base"] = w.gens, w.base
		if w.genIndex(b.PageGenerator()) != 0 {
			break
		}
		ev["raw"] = readAll(b.Body())
		if op.Op == "redirect" {
			plain := response.NewBuilder().RedirectPage(op.Code, "/")
			ev["plain"] = readAll(plain.Body())
			_ = plain.Body().Close()
		}
		ld, hv := [][]int{}, ""
		for k, v := range b.Headers() {
			for _, s := range v {
				hv += s + "\n"
				if k == "Location" {
					ld = append(ld, codes(s))
				}
			}
		}
		ev["lochdr"], ev["hraw"] = ld, codes(hv)
	case "copy":
		dup, err := b.Copy()
		ev["e"] = rw.Class(err)
		if err == nil {
			w.b[op.C] = dup
			w.bcop[op.C], w.bcop[op.B] = true, true
		}
	case "build":
		ev["rem"] = rem(b.Body())
		w.r[op.C] = b.Build()
		w.copied[op.C] = w.bcop[op.B]
		w.bcop[op.B] = false
	case "rcopy":
		if w.r[op.R] == nil {
			return false
		}
		dup, err := w.r[op.R].Copy()
		ev["e"] = rw.Class(err)
		if err == nil {
			w.r[op.C] = dup
			w.copied[op.C], w.copied[op.R] = true, true
		}
	case "serve", "pserve":
		for _, i := range op.Rs {
			if w.r[i] == nil {
				return false
			}
			if w.copied[i] {
				ev["copied"] = true
			}
		}
		ev["xs"] = w.serveAll(op)
		ev["race"] = src.Races() > w.races()
		for _, x := range ev["xs"].([]*served) {
			if x.E == "hang" {
				ev["e"] = "hang"
				hangs++
			}
		}
	default:
		fatal(fmt.Errorf("unknown operation %q", op.Op))
	}
	return true
}

var racesSeen int

func (w *respWorld) races() int {
	n := racesSeen
	racesSeen = src.Races()
	return n
}

// hangs counts calls that did not come to an end; nothing is tried after three.
var hangs int

// gate lets one of several goroutines at a time make its next call.
type gate struct {
	mu     sync.Mutex
	parked map[int]chan struct{}
	live   int
	open   bool
}

func (g *gate) wait(i int) {
	g.mu.Lock()
	if g.open {
		g.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	g.parked[i] = ch
	g.mu.Unlock()
	<-ch
}

func (g *gate) run(rng *rand.Rand, done <-chan struct{}) bool {
	deadline := time.Now().Add(10 * time.Second)
	lone := 0
	for {
		select {
		case <-done:
			return true
		default:
		}
		g.mu.Lock()
		n := len(g.parked)
		if n > 0 && (n == g.live || lone > 20) {
			lone = 0
			k := rng.Intn(n)
			for i := 0; i < 64; i++ {
				if ch, ok := g.parked[i]; ok {
					if k == 0 {
						delete(g.parked, i)
						close(ch)
						break
					}
					k--
				}
			}
		}
		g.mu.Unlock()
		lone++
		if lone > 5 {
			time.Sleep(20 * time.Microsecond)
		}
		if time.Now().After(deadline) {
			g.mu.Lock()
			g.open = true
			for i, ch := range g.parked {
				delete(g.parked, i)
				close(ch)
			}
			g.mu.Unlock()
			select {
			case <-done:
				return true
			case <-time.After(5 * time.Second):
				return false
			}
		}
	}
}

// serveClass names what Serve returned.  Sources may fail with errors that
// anybody else may return, too: it is theirs if they failed meanwhile.
func (w *respWorld) serveClass(err error, before []src.Counts) string {
	for i, s := range w.srcs {
		if s.Env.Errs >= src.AlikeErrs || err == nil {
			continue
		}
		c := s.Counts()
		if c.Errs > 0 && err == s.Env.ReadError() {
			return "src"
		}
		if c.Closes > before[i].Closes && s.Env.Cerr && err == s.Env.CloseError() {
			return "cerr"
		}
	}
	return rw.Class(err)
}

func (w *respWorld) serveAll(op respOp) []*served {
	xs := make([]*served, len(op.Rs))
	used0 := w.after()
	g := &gate{parked: make(map[int]chan struct{}), live: len(op.Rs)}
	g.open = src.RaceMode
	var wg sync.WaitGroup
	var mu sync.Mutex
	recs := make([]*rw.Rec, len(op.Rs))
	begin := make(chan struct{})
	before := []src.Counts{}
	for _, s := range w.srcs {
		before = append(before, s.Counts())
	}
	results := make([]error, len(op.Rs))
	for j := range op.Rs {
		j := j
		d := op.Ws[j]
		rec := rw.New(d.Max)
		if rec.Alt = w.rng.Intn(1000); w.plain {
			rec.Alt = 24*(rec.Alt%7) + 23
		}
		rec.Snapshot, rec.Keep = true, true
		recs[j] = rec
		for _, p := range d.Pre {
			rec.Hdr[w.real(p.K)] = append(make([]string, 0, 4), p.V...)
		}
		for _, k := range d.Perr {
			rec.PushErr = append(rec.PushErr, rw.PushError(k, rec.Alt))
		}
		if d.Vary {
			rec.OnStatus = func(h http.Header) {
				for k := range h {
					if j%2 == 0 && len(h[k]) > 0 {
						h[k][0] = "changed" + fmt.Sprint(j)
					}
					h[k] = append(h[k], "appended"+fmt.Sprint(j))
					h[k][0] = "changed" + fmt.Sprint(j)
				}
			}
		}
		if len(op.Rs) > 1 {
			rec.Gate = func(string) { g.wait(j) }
		}
		next := rec.Writer(rw.Caps{Push: d.Pu, Flush: d.Fancy, Notify: d.Fancy, Hijack: d.Fancy, ReadFrom: d.Fancy, Unwrap: len(op.Rs)%2 == 1})
		if d.Wrap {
			next = response.NewWriter(next, request(d.Head))
		}
		resp := w.r[op.Rs[j]]
		x := &served{Calls: []rw.Call{}, E: "hang", After: "none", Bcloses: -1, Raw: []int{}, Final: []rw.Pair{}}
		xs[j] = x
		wg.Add(1)
		go func() {
			defer func() {
				g.mu.Lock()
				g.live--
				g.mu.Unlock()
				wg.Done()
			}()
			<-begin
			e := "panic"
			func() {
				defer func() {
					if y := recover(); y != nil {
						e = "panic"
					}
				}()
				results[j] = resp.Serve(next)
				e = "done"
			}()
			mu.Lock()
			x.E = e
			mu.Unlock()
		}()
	}
	done := make(chan struct{})
	close(begin)
	go func() { wg.Wait(); close(done) }()
	if !g.run(w.rng, done) {
		for _, x := range xs {
			mu.Lock()
			y := *x
			mu.Unlock()
			*x = y
		}
		return xs
	}
	used := w.after() - used0
	for j, x := range xs {
		if x.E == "done" {
			x.E = w.serveClass(results[j], before)
		}
		x.Calls = recs[j].Take()
		x.Final = rw.Clone(recs[j].Hdr)
		if n := len(recs[j].Data); n <= 4096 {
			x.Raw = codes(string(recs[j].Data))
		}
		x.N = recs[j].Got
		x.Used = used
		b := w.r[op.Rs[j]].Body()
		if c, ok := b.(*countBody); ok {
			x.Bcloses = c.closes
		}
	}
	used0 = w.after()
	for j, x := range xs {
		b := w.r[op.Rs[j]].Body()
		func() {
			defer func() {
				if y := recover(); y != nil {
					x.After = "panic"
				}
			}()
			err := b.Close()
			switch {
			case err == nil:
				x.After = "nil"
			case errors.Is(err, fs.ErrClosed):
				x.After = "closed"
			default:
				x.After = rw.Class(err)
			}
		}()
		_ = j
	}
	return xs
}

func blankEvent(op respOp) Event {
	ev := Event{"op": op.Op, "b": op.B, "c": op.C, "m": op.M, "r": op.R, "k": op.K, "s": op.S, "v": op.V, "app": op.App,
		"how": op.How, "code": op.Code, "loc": op.Loc, "x": op.X, "rs": op.Rs, "ws": op.Ws,
		"panic": false, "e": "nil", "same": true, "rem": -9, "raw": []int{}, "plain": []int{}, "lochdr": [][]int{}, "hraw": []int{},
		"text": []int{}, "gens": []Event{}, "base": 0, "copied": false, "race": false, "xs": []*served{}}
	if op.Loc == nil {
		ev["loc"] = []int{}
	}
	if op.Rs == nil {
		ev["rs"], ev["ws"] = []int{}, []writerDesc{}
	}
	return ev
}

// Names used in place of X-A and X-B, which are what is recorded.
var namePairs = [][2]string{{"X-A", "X-B"}, {"X-A", "X-B"}, {"Transfer-Encoding", "Set-Cookie"}, {"Link", "Connection"},
	{"Content-Range", "Trailer"}, {"Last-Modified", "Www-Authenticate"}, {"Upgrade", "Retry-After"},
	{"Content-Disposition", "Allow"}, {"Accept-Ranges", "Transfer-Encoding"}}

// headerNames chooses a pair, also for recording.
func headerNames(id int) map[string]string {
	p := namePairs[id%len(namePairs)]
	names := map[string]string{"X-A": p[0], "X-B": p[1], "x-a": strings.ToLower(p[0]), "X-a": p[0][:1] + strings.ToLower(p[0][1:])}
	rw.Abstract = map[string]string{}
	for abstract, name := range names {
		if _, ok := rw.Abstract[name]; !ok || abstract == "X-A" {
			rw.Abstract[name] = abstract
		}
	}
	return names
}

func (w *respWorld) real(name string) string {
	if n, ok := w.names[name]; ok {
		return n
	}
	return name
}

func runResp(id int, line []byte) interface{} {
	var s respScn
	fatal(json.Unmarshal(line, &s))
	w := &respWorld{rng: rand.New(rand.NewSource(*seed*7919 + int64(id))), b: make([]*response.Builder, s.NB+1), r: make([]*response.Response, s.NR+1),
		m: make([]http.Header, s.NM+1), copied: make([]bool, s.NR+1), bcop: make([]bool, s.NB+1)}
	w.gen = []*testGen{nil, {g: 1, w: w}, {g: 2, w: w}}
	w.errs = errPairs[0]
	if w.rng.Intn(2) == 0 {
		w.errs = errPairs[w.rng.Intn(len(errPairs))]
	}
	w.peek = []int{0, 2, 4}[id%3]
	for i := range w.m {
		w.m[i] = http.Header{}
	}
	w.races()
	evs := []Event{}
	tr := map[string]interface{}{"id": id, "nb": s.NB, "nr": s.NR, "nm": s.NM, "ev": evs}
	w.names = headerNames(id)
	for _, op := range s.Ops {
		ev := blankEvent(op)
		op.K = w.real(op.K)
		if journalFile != nil {
			jev := blankEvent(op)
			jev["panic"] = true
			for range op.Rs {
				jev["xs"] = append(jev["xs"].([]*served), &served{Calls: []rw.Call{}, E: "crash", After: "none", Raw: []int{}, Final: []rw.Pair{}})
			}
			w.snap(jev, op.B)
			fatal(json.NewEncoder(journalFile).Encode(map[string]interface{}{"id": id, "nb": s.NB, "nr": s.NR, "nm": s.NM, "ev": append(append([]Event{}, evs...), jev)}))
		}
		if !w.do(op, ev) {
			continue
		}
		if ev["e"] == "hang" {
			jev := ev
			jev["sb"], jev["sr"], jev["sm"], jev["sc"] = []hSnap{}, []hSnap{}, [][]rw.Pair{}, []int{}
			evs = append(evs, jev)
			break
		}
		must := 0
		if op.Op == "redirect" || op.Op == "errpage" {
			must = op.B
		}
		w.snap(ev, must)
		evs = append(evs, ev)
	}
	tr["ev"] = evs
	return tr
}
