package main

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"

	"github.com/chronos-tachyon/morehttp/response"
	"github.com/chronos-tachyon/morehttp/zz_verif/rw"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

type wEnv struct {
	Caps rw.Caps `json:"caps"`
	Head bool    `json:"head"`
	Max  int     `json:"max"`
	Kind string  `json:"kind"`
}

type wOp struct {
	Op   string `json:"op"`
	V    int    `json:"v"`
	K    int    `json:"k"`
	F    int    `json:"f"`
	Want string `json:"want"`
	Head bool   `json:"head"`
}

type wScn struct {
	Env   wEnv  `json:"env"`
	Ops   []wOp `json:"ops"`
	Scale int   `json:"scale"`
	Unit  int   `json:"unit"` // bytes per byte of the specification, not looked at
}

// hide offers nothing but Read.
type hide struct{ io.Reader }

type foreign struct{ response.Writer }

func request(head bool) *http.Request {
	m := http.MethodGet
	if head {
		m = http.MethodHead
	}
	r, err := http.NewRequest(m, "http://test/", nil)
	fatal(err)
	return r
}

// otherMethods are all handled like GET.
var otherMethods = []string{http.MethodPost, http.MethodPut, http.MethodDelete, http.MethodOptions, "head", "HEADER", ""}

func runWriter(id int, line []byte) interface{} {
	var s wScn
	fatal(json.Unmarshal(line, &s))
	scale := src.Max(1, s.Scale)
	if s.Unit > 0 {
		scale = 1
	}
	rec := rw.New(s.Env.Max * scale * src.Max(1, s.Unit))
	rec.Alt, rec.Unit = id, s.Unit
	if s.Env.Max < 0 {
		rec.Max = -1
	}
	s.Env.Caps.Unwrap = id%2 == 1
	next := rec.Writer(s.Env.Caps)
	req := request(s.Env.Head)
	if s.Env.Kind == "request" && !s.Env.Head {
		req.Method = otherMethods[id%len(otherMethods)]
	}
	evs := []Event{}
	tr := map[string]interface{}{"id": id, "env": s.Env, "made": false, "has": rw.Caps{}, "ev": evs}
	var ww response.Writer
	func() {
		defer func() { _ = recover() }()
		ww = response.NewWriter(next, req)
	}()
	if ww == nil {
		return tr
	}
	tr["made"] = true
	var has rw.Caps
	_, has.Flush = ww.(http.Flusher)
	_, has.Notify = ww.(http.CloseNotifier)
	_, has.Hijack = ww.(http.Hijacker)
	_, has.ReadFrom = ww.(io.ReaderFrom)
	_, has.Push = ww.(http.Pusher)
	tr["has"] = has
	off := 0
	for _, op := range s.Ops {
		op.K *= scale
		if op.F > 0 {
			op.F *= scale
		}
		ev := Event{"op": op.Op, "v": op.V, "k": op.K, "o": off, "f": op.F, "n": 0, "e": "nil", "s": "", "want": op.Want, "same": true}
		rec.Off = off
		if !doWriter(ww, rec, next, op, ev, off) {
			continue
		}
		ev["down"] = rec.Take()
		ev["status"] = ww.Status()
		ev["bytes"] = clip(rec.Units(ww.BytesWritten()))
		ev["saw"] = ww.SawError()
		off += op.K
		evs = append(evs, ev)
		if ev["e"] == "panic" && op.Op != "status" && op.Op != "maybe" {
			break
		}
	}
	tr["ev"] = evs
	return tr
}

// vast is what vast amounts of data are made of; it is never touched.
var vast []byte

// vastSource provides n bytes of no particular value, and then err.
type vastSource struct {
	n   int
	err error
}

func (s *vastSource) Read(p []byte) (int, error) {
	if s.n == 0 {
		return 0, s.err
	}
	n := src.Min(s.n, len(p))
	s.n -= n
	return n, nil
}

func clip(v int64) int64 {
	if v > 1<<30 || v < -1<<30 {
		return 1 << 30
	}
	return v
}

// doWriter makes one call; false: the writer does not offer it.
func doWriter(ww response.Writer, rec *rw.Rec, next http.ResponseWriter, op wOp, ev Event, off int) (done bool) {
	defer func() {
		if x := recover(); x != nil {
			ev["e"] = "panic"
			ev["why"] = fmt.Sprint(x)
			done = true
		}
	}()
	var data []byte
	if rec.Unit > 0 {
		if n := op.K * rec.Unit; op.Op == "write" && n > len(vast) {
			vast = make([]byte, n)
		}
		if op.Op == "write" {
			data = vast[:op.K*rec.Unit]
		}
	} else {
		data = src.Content(off + op.K)[off:]
	}
	source := func() io.Reader {
		if rec.Unit > 0 {
			if op.F >= 0 {
				return &vastSource{op.F * rec.Unit, src.ErrSource}
			}
			return &vastSource{op.K * rec.Unit, io.EOF}
		}
		s := src.New(src.Env{N: op.K, F: op.F, L: -1, Kind: "stream", Base: off, Chunk: 20000, Eofw: off%2 == 1, Errs: src.AlikeErrs + off})
		return hide{s.Reader()}
	}
	switch op.Op {
	case "status":
		ww.WriteHeader(op.V)
	case "maybe":
		ww.MaybeWriteHeader(op.V)
	case "write":
		n, err := ww.Write(data)
		ev["n"], ev["e"] = clip(rec.Units(int64(n))), rw.Class(err)
	case "readfrom":
		x, ok := ww.(io.ReaderFrom)
		if !ok {
			return false
		}
		n, err := x.ReadFrom(source())
		ev["n"], ev["e"] = clip(rec.Units(n)), rw.Class(err)
	case "copy":
		n, err := io.Copy(ww, source())
		ev["n"], ev["e"] = clip(rec.Units(n)), rw.Class(err)
	case "flush":
		x, ok := ww.(http.Flusher)
		if !ok {
			return false
		}
		x.Flush()
	case "hijack":
		x, ok := ww.(http.Hijacker)
		if !ok {
			return false
		}
		_, _, err := x.Hijack()
		ev["e"] = rw.Class(err)
	case "notify":
		x, ok := ww.(http.CloseNotifier)
		if !ok {
			return false
		}
		ev["same"] = x.CloseNotify() == rec.Notify()
	case "unwrap":
		ev["same"] = ww.Unwrap() == next
	case "rewrap":
		again := response.NewWriter(ww, request(op.Head))
		ev["same"] = again == ww
	case "foreign": // somebody else's implementation of the interface
		f := &foreign{ww}
		ev["same"] = response.NewWriter(f, request(op.Head)) == response.Writer(f)
	case "header":
		key := fmt.Sprintf("X-Test-%d", op.V)
		if op.V == 1 {
			ww.Header().Set(key, fmt.Sprint(off))
			ev["same"] = rec.Hdr.Get(key) == fmt.Sprint(off)
		} else {
			rec.Hdr.Set(key, fmt.Sprint(off))
			ev["same"] = ww.Header().Get(key) == fmt.Sprint(off)
		}
	case "push":
		opts := &http.PushOptions{Method: "HEAD"}
		rec.PushOpts = opts
		want := rw.PushError(op.Want, rec.Alt)
		rec.PushErr = []error{want}
		target := fmt.Sprintf("/p%d", off)
		err := ww.Push(target, opts)
		ev["s"], ev["e"], ev["want"] = target, rw.Class(err), rw.Class(want)
		ev["same"] = err == want || rw.Class(err) == "notsup"
		rec.PushErr = nil
	default:
		fatal(fmt.Errorf("unknown operation %q", op.Op))
	}
	return true
}
