package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/handler"
	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/rw"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type plan struct {
	M      string   `json:"m"`
	H      string   `json:"h"`
	PV     int      `json:"pv"`
	Code   int      `json:"code"`
	X      bodyDesc `json:"x"`
	BP     string   `json:"bp"`
	Push   []string `json:"push"`
	Perr   []string `json:"perr"`
	Pu     bool     `json:"pu"`
	Max    int      `json:"max"`
	Fancy  bool     `json:"fancy"`
	Flush  bool     `json:"flush"`
	Pon    string   `json:"pon"`
	Pre    string   `json:"pre"`
	Slow   bool     `json:"slow"`
	Sent   int      `json:"sent"`
	Before int      `json:"before"`
}

type outcome struct {
	Calls   []rw.Call `json:"calls"`
	Errs    int       `json:"errs"`
	Cerrs   int       `json:"cerrs"`
	Bpanic  bool      `json:"bpanic"`
	Escaped bool      `json:"escaped"`
	Inner   int       `json:"inner"`
	Outer   int       `json:"outer"`
	Why     string    `json:"why"`
}

type codeVal struct {
	C int `json:"c"`
	V int `json:"v"`
}

type metrics struct {
	Req       []codeVal `json:"req"`
	Sent      []codeVal `json:"sent"`
	Panics    int       `json:"panics"`
	Hlat      int       `json:"hlat"`
	Hrecv     int       `json:"hrecv"`
	Hsend     int       `json:"hsend"`
	Sum       int       `json:"sum"`
	Hsum      int       `json:"hsum"`
	Rsum      int       `json:"rsum"`
	Hrsum     int       `json:"hrsum"`
	LatCodes  []int     `json:"latcodes"`
	RecvCodes []int     `json:"recvcodes"`
	Lat       int       `json:"lat"`
}

type rawMetrics map[string]map[string]float64

func collect(c prometheus.Collector, m map[string]float64, what string) {
	ch := make(chan prometheus.Metric, 4096)
	c.Collect(ch)
	close(ch)
	for x := range ch {
		var d dto.Metric
		fatal(x.Write(&d))
		code := ""
		for _, l := range d.GetLabel() {
			code = l.GetValue()
		}
		switch {
		case d.Counter != nil:
			m[what+code] = d.Counter.GetValue()
		case d.Histogram != nil:
			m[what+".n"] = float64(d.Histogram.GetSampleCount())
			m[what+".sum"] = d.Histogram.GetSampleSum()
		}
	}
}

func readMetrics() map[string]float64 {
	m := map[string]float64{}
	collect(handler.PromPanicsTotal, m, "panics")
	collect(handler.PromRequestsTotal, m, "req:")
	collect(handler.PromLatencyTotal, m, "lat:")
	collect(handler.PromRecvBytesTotal, m, "recv:")
	collect(handler.PromSendBytesTotal, m, "send:")
	collect(handler.PromLatencyHist, m, "hlat")
	collect(handler.PromRecvBytesHist, m, "hrecv")
	collect(handler.PromSendBytesHist, m, "hsend")
	return m
}

func codeOf(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// since describes what changed from base to m; the latency is that of last to m.
func since(m, base, last map[string]float64, seen map[string]bool) metrics {
	r := metrics{Req: []codeVal{}, Sent: []codeVal{}, LatCodes: []int{}, RecvCodes: []int{}}
	i := func(x float64) int { return int(math.Round(x)) }
	keys := []string{}
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	lat := 0.0
	for _, k := range keys {
		v := m[k] - base[k]
		switch {
		case strings.HasPrefix(k, "req:") && v != 0:
			r.Req = append(r.Req, codeVal{codeOf(k[4:]), i(v)})
		case strings.HasPrefix(k, "send:") && v != 0:
			r.Sent = append(r.Sent, codeVal{codeOf(k[5:]), i(v)})
			r.Sum += i(v)
		case strings.HasPrefix(k, "recv:"):
			r.Rsum += i(v)
			_, old := base[k]
			if !old || v != 0 || m["req:"+k[5:]] != base["req:"+k[5:]] {
				r.RecvCodes = append(r.RecvCodes, codeOf(k[5:]))
			}
		case strings.HasPrefix(k, "lat:"):
			if v != 0 {
				r.LatCodes = append(r.LatCodes, codeOf(k[4:]))
			}
			lat += m[k] - last[k]
		}
	}
	r.Panics = i(m["panics"] - base["panics"])
	r.Hlat, r.Hrecv, r.Hsend = i(m["hlat.n"]-base["hlat.n"]), i(m["hrecv.n"]-base["hrecv.n"]), i(m["hsend.n"]-base["hsend.n"])
	r.Hsum, r.Hrsum = i(m["hsend.sum"]-base["hsend.sum"]), i(m["hrecv.sum"]-base["hrecv.sum"])
	r.Lat = i(lat * 1e6)
	return r
}

type ownErr struct{ id int }

func (e ownErr) Error() string { return fmt.Sprintf("handler %d failed", e.id) }

type ownVal struct{ id, x int }

// panicValue makes the value that is thrown; nil means: a run-time error.
func panicValue(pv, id int) interface{} {
	switch pv {
	case 1:
		return ownErr{id}
	case 2:
		return fmt.Errorf("request %d: %w", id, io.ErrUnexpectedEOF)
	case 3:
		return fmt.Sprintf("value %d", id)
	case 4:
		return 1000 + id
	case 5:
		return ownVal{id, 7}
	case 7:
		return http.ErrAbortHandler
	case 8:
		return error(&otherErr{fmt.Sprint(id)})
	}
	return nil
}

func throw(v interface{}) {
	if v == nil {
		var m map[string]int
		m["x"] = 1
	}
	panic(v)
}

// wildReader panics in Read after some bytes, or in Close.
type wildReader struct {
	r     io.Reader
	how   string
	left  int
	v     interface{}
	flag  *bool
	inner io.Closer
}

func (w *wildReader) Read(p []byte) (int, error) {
	if w.how == "read" {
		if w.left == 0 {
			*w.flag = true
			throw(w.v)
		}
		if len(p) > w.left {
			p = p[:w.left]
		}
		n, err := w.r.Read(p)
		w.left -= n
		return n, err
	}
	return w.r.Read(p)
}

func (w *wildReader) Close() error {
	if w.how == "close" {
		*w.flag = true
		throw(w.v)
	}
	return nil
}

func runAdaptor(id int, line []byte) interface{} {
	var s struct {
		Evs [][]plan `json:"evs"`
	}
	fatal(json.Unmarshal(line, &s))
	evs := []Event{}
	tr := map[string]interface{}{"id": id, "ev": evs}
	base := readMetrics()
	last := base
	for _, qs := range s.Evs {
		for i := range qs {
			if qs[i].M == "GET1" {
				qs[i].M = "GET"
			}
			qs[i].Sent, qs[i].Before = 202, 3
			if qs[i].Pon == "status" && qs[i].H != "ok" {
				qs[i].Pon = "none"
			}
			if qs[i].Pon == "status" {
				qs[i].Perr = []string{"nil", "notsup"}
			}
			if qs[i].BP != "no" || qs[i].Pre == "sent" {
				qs[i].Pon = "none"
			}
			if qs[i].Pre == "sent" && qs[i].M == "HEAD" {
				qs[i].M = "GET"
			}
			if qs[i].X.N > 1000 && len(qs) == 1 {
				qs[i].Slow = false
			}
		}
		ev := Event{"qs": qs, "race": false, "e": "nil"}
		if journalFile != nil {
			os := make([]*outcome, len(qs))
			for j := range os {
				os[j] = &outcome{Calls: []rw.Call{}, Escaped: true}
			}
			jev := Event{"qs": qs, "os": os, "race": false, "e": "crash", "reports": []Event{}, "metrics": since(base, base, base, nil)}
			fatal(json.NewEncoder(journalFile).Encode(map[string]interface{}{"id": id, "ev": append(append([]Event{}, evs...), jev)}))
		}
		requests(qs, ev, id*31+len(evs))
		m := readMetrics()
		ev["metrics"] = since(m, base, last, nil)
		last = m
		evs = append(evs, ev)
		if ev["e"] == "hang" {
			hangs++
			break
		}
	}
	tr["ev"] = evs
	return tr
}

func requests(qs []plan, ev Event, alt int) {
	n := len(qs)
	vals := make([]interface{}, n+1)
	for i, q := range qs {
		vals[i+1] = panicValue(q.PV, i+1)
	}
	var mu sync.Mutex
	reports := []Event{}
	handler.OnPanic = func(err error) {
		rep := Event{"id": 0, "cls": rw.Class(err)}
		for i := 1; i <= n; i++ {
			if vals[i] == nil || qs[i-1].PV == 7 {
				continue
			}
			if e, ok := vals[i].(error); ok && e == err {
				rep = Event{"id": i, "cls": "own"}
			}
			var pe handler.PanicError
			if errors.As(err, &pe) && pe.Value == vals[i] {
				rep = Event{"id": i, "cls": "wrapped"}
			}
		}
		var re runtime.Error
		if errors.As(err, &re) {
			rep = Event{"id": 0, "cls": "runtime"}
		}
		if err == http.ErrAbortHandler {
			rep = Event{"id": 0, "cls": "abort"}
		}
		if err == nil {
			rep = Event{"id": 0, "cls": "nil"}
		}
		mu.Lock()
		reports = append(reports, rep)
		mu.Unlock()
	}
	races := src.Races()
	outs := make([]*outcome, n)
	var wg sync.WaitGroup
	begin := make(chan struct{})
	for i := range qs {
		outs[i] = &outcome{Calls: []rw.Call{}, Escaped: true}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-begin
			outs[i] = oneRequest(qs[i], vals[i+1], alt+5*i)
		}(i)
	}
	close(begin)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		ev["e"] = "hang"
		fresh := make([]*outcome, n)
		for i := range fresh {
			fresh[i] = &outcome{Calls: []rw.Call{}, Escaped: true, Why: "hang"}
		}
		outs = fresh
	}
	mu.Lock()
	ev["reports"] = append([]Event{}, reports...)
	mu.Unlock()
	ev["os"] = outs
	ev["race"] = src.Races() > races
}

func oneRequest(q plan, val interface{}, alt int) *outcome {
	o := &outcome{}
	rec := rw.New(q.Max)
	rec.Alt = alt
	rec.Snapshot = false
	for _, k := range q.Perr {
		rec.PushErr = append(rec.PushErr, rw.PushError(k, rec.Alt))
	}
	if q.Pon != "none" {
		rec.PanicOn = q.Pon
		rec.Throw = func() { throw(val) }
	}
	w := rec.Writer(rw.Caps{Push: q.Pu, Flush: q.Fancy || q.Flush, Notify: q.Fancy, Hijack: q.Fancy, ReadFrom: q.Fancy, Unwrap: (q.Max+len(q.M))%2 == 0})
	req, err := http.NewRequest(q.M, "http://test/", nil)
	fatal(err)
	if q.Pre != "none" {
		ww := response.NewWriter(w, req)
		if q.Pre == "sent" {
			rec.Max = -1
			ww.WriteHeader(q.Sent)
			_, _ = ww.Write([]byte("abc"))
			rec.Max = q.Max
			rec.Got = 0
			rec.Take()
		}
		w = ww
	}
	var s *respWorld
	var inner time.Duration
	a := handler.Adaptor{Inner: handler.HandlerFunc(func(r *http.Request) response.Response {
		t0 := time.Now()
		defer func() { inner = time.Since(t0) }()
		if q.Slow {
			time.Sleep(2 * time.Millisecond)
		}
		switch q.H {
		case "panic":
			throw(val)
		case "zero":
			return response.Response{}
		}
		s = &respWorld{}
		b := response.NewBuilder().WithStatus(q.Code)
		if q.BP == "no" {
			b.WithBody(s.bodyFor(q.X))
		} else {
			wild := &wildReader{r: src.New(src.Env{Kind: "stream", N: q.X.N, L: -1, F: -1}).Reader(), how: q.BP, left: q.X.N / 2, v: val, flag: &o.Bpanic}
			x, err := body.FromReader(wild)
			fatal(err)
			b.WithBody(x)
		}
		for _, p := range q.Push {
			b.WithHeader("Push", p, true)
		}
		return *b.Build()
	})}
	t0 := time.Now()
	func() {
		defer func() {
			if x := recover(); x != nil {
				o.Escaped = true
				o.Why = fmt.Sprint(x)
			}
		}()
		a.ServeHTTP(w, req)
	}()
	o.Outer = int(time.Since(t0) / time.Microsecond)
	o.Inner = int(inner / time.Microsecond)
	o.Calls = rec.Take()
	if s != nil {
		for _, x := range s.srcs {
			c := x.Counts()
			o.Errs += int(c.Errs)
			if x.Env.Cerr {
				o.Cerrs += int(c.Closes)
			}
		}
	}
	return o
}
