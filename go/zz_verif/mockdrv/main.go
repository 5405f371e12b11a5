// Command mockdrv uses the mock reader of internal/mockreader as generated
// scenarios say and records what happened.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/chronos-tachyon/morehttp/internal/mockreader"
)

var (
	mode    = flag.String("mode", "seq", "seq | conc")
	inFile  = flag.String("in", "", "scenarios, one JSON object per line")
	outFile = flag.String("out", "", "traces, one JSON object per line")
	seed    = flag.Int64("seed", 1, "random seed")
	from    = flag.Int("from", 1, "first scenario to perform")
	to      = flag.Int("to", 1<<30, "last scenario to perform")
	journal = flag.String("journal", "", "unused")
)

type call struct {
	Op   string `json:"op"`
	Len  int    `json:"len"`
	Off  string `json:"off"`
	Wh   string `json:"wh"`
	Mark string `json:"mark"`
}

type expectation struct {
	call
	N    int    `json:"n"`
	Data []int  `json:"data"`
	Pos  string `json:"pos"`
	Fi   string `json:"fi"`
	Err  string `json:"err"`
}

type scenario struct {
	Nil    bool          `json:"nil"`
	Wrap   string        `json:"wrap"`
	Script []expectation `json:"script"`
	Calls  []call        `json:"calls,omitempty"`
	Seed   int64         `json:"seed,omitempty"`
}

type event struct {
	call
	Out   string   `json:"out"`
	Via   string   `json:"via"`
	N     int      `json:"n"`
	Buf   []int    `json:"buf"`
	Pos   string   `json:"pos"`
	Fi    string   `json:"fi"`
	Err   string   `json:"err"`
	Index int      `json:"index"`
	Exp   []string `json:"exp"`
	Act   []string `json:"act"`
	InMsg bool     `json:"inmsg"`
	Caps  []string `json:"caps"`
	Given []string `json:"given"`
	Got   []string `json:"got"`
	CallT int64    `json:"call"`
	RetT  int64    `json:"ret"`
	Extra string   `json:"extra"`
}

func newEvent(c call) event {
	return event{call: c, Buf: []int{}, Exp: []string{}, Act: []string{}, Caps: []string{}, Given: []string{},
		Got: []string{}, Pos: "", Fi: "nil", Err: "nil", Index: -1}
}

var (
	errE1 = errors.New("error one")
	infos = map[string]fs.FileInfo{
		"f1": &mockreader.FileInfo{NameValue: "f1", SizeValue: 3},
		"f2": &mockreader.FileInfo{NameValue: "f2", SizeValue: 4},
	}
	errs = map[string]error{"nil": nil, "eof": io.EOF, "e1": errE1}
)

func errName(e error) string {
	for k, v := range errs {
		if v == e {
			return k
		}
	}
	return "other"
}

func infoName(fi fs.FileInfo) string {
	if fi == nil {
		return "nil"
	}
	for k, v := range infos {
		if v == fi {
			return k
		}
	}
	return "other"
}

func i64(s string) int64 {
	v, err := strconv.ParseInt(s, 10, 64)
	fatal(err)
	return v
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mockdrv:", err)
		os.Exit(3)
	}
}

const fill = 238

func expect(x expectation) mockreader.Expectation {
	switch x.Op {
	case "mark":
		return mockreader.ExpectMark(x.Mark)
	case "stat":
		return mockreader.ExpectStat(infos[x.Fi], errs[x.Err])
	case "read", "readat":
		p := make([]byte, x.Len)
		for i := range p {
			p[i] = byte(x.Data[i])
		}
		if x.Op == "read" {
			return mockreader.ExpectRead(p, x.N, errs[x.Err])
		}
		return mockreader.ExpectReadAt(p, i64(x.Off), x.N, errs[x.Err])
	case "seek":
		return mockreader.ExpectSeek(i64(x.Off), int(i64(x.Wh)), i64(x.Pos), errs[x.Err])
	case "close":
		return mockreader.ExpectClose(errs[x.Err])
	}
	panic("unknown expectation " + x.Op)
}

func wrap(kind string, r *mockreader.MockReader) io.Reader {
	switch kind {
	case "000":
		return mockreader.Wrapper000{Inner: r}
	case "001":
		return mockreader.Wrapper001{Inner: r}
	case "010":
		return mockreader.Wrapper010{Inner: r}
	case "011":
		return mockreader.Wrapper011{Inner: r}
	case "100":
		return mockreader.Wrapper100{Inner: r}
	case "101":
		return mockreader.Wrapper101{Inner: r}
	case "110":
		return mockreader.Wrapper110{Inner: r}
	case "111":
		return mockreader.Wrapper111{Inner: r}
	}
	return r
}

var word = regexp.MustCompile(`-?[0-9]+|[A-Za-z][A-Za-z0-9]*`)

type stater interface{ Stat() (fs.FileInfo, error) }

// perform makes one call, through the wrapper if it can make it.
func perform(c call, r *mockreader.MockReader, w io.Reader, useRaw bool) (ev event) {
	ev = newEvent(c)
	target := w
	ev.Via = "wrapper"
	raw := func() { target = r; ev.Via = "raw" }
	if useRaw {
		raw()
	}
	p := make([]byte, c.Len)
	for i := range p {
		p[i] = fill
	}
	defer func() {
		for _, b := range p {
			ev.Buf = append(ev.Buf, int(b))
		}
		v := recover()
		if v == nil {
			return
		}
		ev.Out = "panic"
		e, ok := v.(mockreader.ExpectationFailedError)
		if !ok {
			if ep, okp := v.(*mockreader.ExpectationFailedError); okp {
				e, ok = *ep, true
			}
		}
		ev.Extra = fmt.Sprint(v)
		if !ok {
			ev.Out = "strange panic"
			return
		}
		ev.Index = int(e.Index)
		x, a := e.Expect.String(), e.Actual.String()
		ev.Exp = append(ev.Exp, word.FindAllString(x, -1)...)
		ev.Act = append(ev.Act, word.FindAllString(a, -1)...)
		msg := word.FindAllString(e.Error(), -1)
		ev.InMsg = contains(msg, strconv.Itoa(int(e.Index))) && containsAll(msg, ev.Exp) && containsAll(msg, ev.Act)
	}()
	var err error
	switch c.Op {
	case "mark":
		r.Mark(c.Mark)
	case "stat":
		if _, ok := target.(stater); !ok {
			raw()
		}
		var fi fs.FileInfo
		fi, err = target.(stater).Stat()
		ev.Fi = infoName(fi)
	case "read":
		ev.N, err = target.Read(p)
	case "readat":
		if _, ok := target.(io.ReaderAt); !ok {
			raw()
		}
		ev.N, err = target.(io.ReaderAt).ReadAt(p, i64(c.Off))
	case "seek":
		if _, ok := target.(io.Seeker); !ok {
			raw()
		}
		var pos int64
		pos, err = target.(io.Seeker).Seek(i64(c.Off), int(i64(c.Wh)))
		ev.Pos = strconv.FormatInt(pos, 10)
	case "close":
		if _, ok := target.(io.Closer); !ok {
			raw()
		}
		err = target.(io.Closer).Close()
	}
	ev.Out = "ok"
	ev.Err = errName(err)
	return ev
}

func contains(ws []string, w string) bool {
	for _, x := range ws {
		if x == w {
			return true
		}
	}
	return false
}

func containsAll(ws, xs []string) bool {
	for _, x := range xs {
		if !contains(ws, x) {
			return false
		}
	}
	return true
}

func caps(w io.Reader) event {
	ev := newEvent(call{Op: "caps"})
	ev.Caps = append(ev.Caps, "read")
	if _, ok := w.(stater); ok {
		ev.Caps = append(ev.Caps, "stat")
	}
	if _, ok := w.(io.Seeker); ok {
		ev.Caps = append(ev.Caps, "seek")
	}
	if _, ok := w.(io.ReaderAt); ok {
		ev.Caps = append(ev.Caps, "readat")
	}
	if _, ok := w.(io.Closer); ok {
		ev.Caps = append(ev.Caps, "close")
	}
	return ev
}

func info(rng *rand.Rand) event {
	ev := newEvent(call{Op: "info"})
	mode := fs.FileMode(rng.Intn(512))
	if rng.Intn(2) == 0 {
		mode |= fs.ModeDir
	}
	at := time.Unix(rng.Int63n(1<<40), rng.Int63n(1e9)).UTC()
	size := rng.Int63()
	name := "n" + strconv.Itoa(rng.Int())
	var fi fs.FileInfo = &mockreader.FileInfo{NameValue: name, SizeValue: size, ModeValue: mode, ModTimeValue: at}
	ev.Given = []string{name, fmt.Sprint(size), mode.String(), at.String(), fmt.Sprint(mode&fs.ModeDir != 0)}
	ev.Got = []string{fi.Name(), fmt.Sprint(fi.Size()), fi.Mode().String(), fi.ModTime().String(), fmt.Sprint(fi.IsDir())}
	return ev
}

type trace struct {
	ID   int      `json:"id"`
	Scn  scenario `json:"scn"`
	Race bool     `json:"race"`
	Ev   []event  `json:"ev"`
}

func prepare(s scenario) (*mockreader.MockReader, io.Reader) {
	var r *mockreader.MockReader
	if !s.Nil {
		var list []mockreader.Expectation
		for _, x := range s.Script {
			list = append(list, expect(x))
		}
		r = mockreader.New(list...)
	}
	return r, wrap(s.Wrap, r)
}

func sequential(id int, s scenario) trace {
	rng := rand.New(rand.NewSource(*seed*1000003 + int64(id)))
	r, w := prepare(s)
	t := trace{ID: id, Ev: []event{caps(w), info(rng)}}
	for _, c := range s.Calls {
		t.Ev = append(t.Ev, perform(c, r, w, rng.Intn(4) == 0))
	}
	s.Calls = nil
	t.Scn = s
	return t
}

// concurrent makes the calls of the scenario from several goroutines.
func concurrent(id int, s scenario) trace {
	rng := rand.New(rand.NewSource(*seed*1000003 + int64(id)))
	r, w := prepare(s)
	var clock int64
	var wg sync.WaitGroup
	start := make(chan struct{})
	k := 2 + rng.Intn(3)
	evs := make([][]event, k)
	for g := 0; g < k; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			for i := g; i < len(s.Calls); i += k {
				c := atomic.AddInt64(&clock, 1)
				ev := perform(s.Calls[i], r, w, false)
				ev.CallT, ev.RetT = c, atomic.AddInt64(&clock, 1)
				evs[g] = append(evs[g], ev)
			}
		}(g)
	}
	close(start)
	wg.Wait()
	t := trace{ID: id, Ev: []event{}}
	for _, e := range evs {
		t.Ev = append(t.Ev, e...)
	}
	s.Calls = nil
	t.Scn = s
	return t
}

func main() {
	flag.Parse()
	in, err := os.Open(*inFile)
	fatal(err)
	out, err := os.Create(*outFile)
	fatal(err)
	w := bufio.NewWriterSize(out, 1<<20)
	enc := json.NewEncoder(w)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	id := 0
	for sc.Scan() {
		id++
		if id < *from || id > *to {
			continue
		}
		var s scenario
		fatal(json.NewDecoder(strings.NewReader(sc.Text())).Decode(&s))
		if *mode == "conc" {
			fatal(enc.Encode(concurrent(id, s)))
		} else {
			fatal(enc.Encode(sequential(id, s)))
		}
		fatal(w.Flush())
	}
	fatal(sc.Err())
	fatal(out.Close())
}
