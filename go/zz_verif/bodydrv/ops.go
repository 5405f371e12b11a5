package main

import (
	"errors"
	"fmt"
	"io"
	"io/fs"

	"github.com/chronos-tachyon/morehttp/body"
	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

// Op is one call of a scenario.
type Op struct {
	Op string `json:"op"`
	B  int    `json:"b"`
	C  int    `json:"c"`
	K  int    `json:"k"`
	O  int    `json:"o"`
	Wh int    `json:"wh"`
	M  int    `json:"m"`
	// Far is added to O (and subtracted from the value in the error that may
	// result): what is recorded is as much beyond the end, or before the
	// beginning, as what happens.
	Far int64 `json:"-"`
}

// Scenario is a generated scenario.
type Scenario struct {
	Env     src.Env `json:"env"`
	NB      int     `json:"nb"`
	Ops     []Op    `json:"ops"`
	Scale   int     `json:"scale"`
	Pre     []Op    `json:"pre"`     // concurrent scenarios: sequential prelude
	Threads [][]Op  `json:"threads"` // and the threads
	Post    []Op    `json:"post"`
}

// Event is one recorded call.
type Event map[string]interface{}

// Trace is one recorded execution.
type Trace struct {
	ID  int     `json:"id"`
	Env src.Env `json:"env"`
	NB  int     `json:"nb"`
	Ev  []Event `json:"ev"`
}

// Family is a set of bodies made from one source.
type Family struct {
	env    src.Env
	src    *src.Source
	reader io.Reader
	slots  []body.Body
}

func newFamily(env src.Env, nb int) (f *Family, err error) {
	f = &Family{env: env, slots: make([]body.Body, nb+1)}
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("panic: %v", x)
		}
	}()
	switch env.Ctor {
	case "bytes":
		f.slots[1] = body.FromBytes(src.Content(env.N))
	case "string":
		f.slots[1] = body.FromString(string(src.Content(env.N)))
	case "empty":
		f.slots[1] = body.Empty()
	case "closed":
		f.slots[1] = body.AlreadyClosed()
	default:
		f.src = src.New(env)
		f.reader = f.src.Reader()
		if env.How == "decl" {
			f.slots[1], err = body.FromReaderAndLength(f.reader, env.Lift+int64(env.L))
		} else {
			f.slots[1], err = body.FromReader(f.reader)
		}
	}
	if err == nil && env.Lifted() > 0 {
		s, ok := f.slots[1].(io.Seeker)
		if !ok {
			return f, errors.New("not a Seeker")
		}
		var off int64
		if off, err = s.Seek(env.Lifted(), io.SeekStart); err == nil && off != env.Lifted() {
			err = fmt.Errorf("Seek(%d, 0) = %d", env.Lifted(), off)
		}
	}
	return f, err
}

// classify names an error.  The errors that sources and writers fail with must
// come back as they are.
func (f *Family) classify(err error) string {
	switch {
	case err == nil:
		return "nil"
	case err == f.env.ReadError():
		return "src"
	case err == f.env.CloseError() && err != fs.ErrClosed:
		return "cerr"
	case err == f.env.WriteError():
		return "werr"
	}
	return classify(err)
}

func classify(err error) string {
	var e1 body.UnknownWhenceSeekError
	var e2 body.NegativeStartOffsetSeekError
	var e3 body.NegativeComputedOffsetSeekError
	switch {
	case err == nil:
		return "nil"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	case errors.Is(err, src.ErrSource):
		return "src"
	case errors.Is(err, src.ErrClose):
		return "cerr"
	case errors.Is(err, src.ErrWrite):
		return "werr"
	case errors.As(err, &e1):
		return "whence"
	case errors.As(err, &e2):
		return "negstart"
	case errors.As(err, &e3):
		return "negcomp"
	default:
		return "other"
	}
}

func errValue(err error) int64 {
	var e1 body.UnknownWhenceSeekError
	var e2 body.NegativeStartOffsetSeekError
	var e3 body.NegativeComputedOffsetSeekError
	switch {
	case errors.As(err, &e1):
		return int64(e1.Whence)
	case errors.As(err, &e2):
		return e2.Offset
	case errors.As(err, &e3):
		return e3.Offset
	}
	return 0
}

func clip(v int64) int64 {
	if v > 2000000000 {
		return 2000000000
	}
	if v < -2000000000 {
		return -2000000000
	}
	return v
}

// do performs one call and records it.
func (f *Family) do(op Op) (ev Event) {
	ev = Event{"op": op.Op, "b": op.B, "e": "nil", "n": 0}
	var c0 src.Counts
	if f.src != nil {
		c0 = f.src.Counts()
	}
	fill := func() {
		ev["cl"], ev["ac"], ev["se"] = 0, 0, false
		if f.src != nil {
			c1 := f.src.Counts()
			ev["cl"] = c1.Closes - c0.Closes
			ev["ac"] = c1.After - c0.After
			ev["se"] = c1.Errs > c0.Errs
		}
	}
	data := func(p []byte, n int) {
		if n < 0 || n > len(p) {
			n = 0
		}
		ev["d"], ev["loc"] = src.Project(p[:n])
	}
	b := f.slots[op.B]
	defer fill()
	defer func() {
		if x := recover(); x != nil {
			ev["e"] = "panic"
			ev["why"] = fmt.Sprint(x)
			for k, v := range map[string]interface{}{"d": []int{}, "loc": -1, "v": -99, "off": -99, "ev": 0,
				"w": 0, "caps": false, "u": "panic", "k": op.K, "o": op.O, "wh": op.Wh, "m": op.M, "c": op.C} {
				if _, ok := ev[k]; !ok {
					ev[k] = v
				}
			}
		}
	}()
	switch op.Op {
	case "read":
		ev["k"] = op.K
		p := make([]byte, op.K)
		n, err := b.Read(p)
		ev["n"], ev["e"] = n, f.classify(err)
		data(p, n)
	case "len":
		v := b.BytesRemaining()
		if v > 0 {
			v -= f.env.Lift - f.env.Lifted()
		}
		ev["v"] = clip(v)
	case "seek":
		ev["o"], ev["wh"] = op.O, op.Wh
		ev["off"], ev["ev"] = -1, 0
		s, ok := b.(io.Seeker)
		if !ok {
			ev["e"] = "unsupported"
			return
		}
		o := int64(op.O)
		if op.Wh == 0 && o >= 0 {
			o += f.env.Lifted()
		}
		off, err := s.Seek(o+op.Far, op.Wh)
		if err == nil {
			off -= f.env.Lifted()
		}
		ev["off"], ev["e"], ev["ev"] = clip(off), f.classify(err), clip(errValue(err))
		if ev["e"] == "negstart" || ev["e"] == "negcomp" {
			ev["ev"] = clip(errValue(err) - op.Far)
		}
	case "readat":
		ev["k"], ev["o"] = op.K, op.O
		ev["d"], ev["loc"] = []int{}, -1
		a, ok := b.(io.ReaderAt)
		if !ok {
			ev["e"] = "unsupported"
			return
		}
		p := make([]byte, op.K)
		o := int64(op.O)
		if o >= 0 {
			o += f.env.Lifted()
		}
		n, err := a.ReadAt(p, o+op.Far)
		ev["n"], ev["e"] = n, f.classify(err)
		data(p, n)
	case "writeto":
		ev["m"] = op.M
		ev["d"], ev["loc"], ev["w"] = []int{}, -1, 0
		t, ok := b.(io.WriterTo)
		if !ok {
			ev["e"] = "unsupported"
			return
		}
		w := &src.Writer{Max: op.M, Err: f.env.WriteError()}
		n, err := t.WriteTo(w)
		ev["n"], ev["e"], ev["w"] = n, f.classify(err), len(w.Got)
		if err != nil && err == f.env.WriteError() {
			ev["e"] = "werr" // some sources fail with the same error
		}
		data(w.Got, len(w.Got))
	case "iocopy":
		w := &src.Writer{Max: -1}
		n, err := io.Copy(w, b)
		ev["n"], ev["e"], ev["w"] = n, f.classify(err), len(w.Got)
		data(w.Got, len(w.Got))
	case "copy":
		ev["c"] = op.C
		dup, err := b.Copy()
		ev["e"], ev["caps"] = f.classify(err), false
		if err == nil {
			f.slots[op.C] = dup
			ev["caps"] = covers(dup, b)
		}
	case "close":
		err := b.Close()
		ev["e"] = f.classify(err)
		if err == fs.ErrClosed && err == f.env.CloseError() && f.src != nil && f.src.Counts().Closes > c0.Closes {
			ev["e"] = "cerr" // what the source said, not what a closed body says
		}
	case "unwrap":
		u := b.Unwrap()
		switch {
		case u == nil:
			ev["u"] = "nil"
		case f.reader != nil && u == f.reader:
			ev["u"] = "src"
		default:
			ev["u"] = "other"
		}
	default:
		fatal(fmt.Errorf("unknown op %q", op.Op))
	}
	return ev
}

// covers reports whether a offers every advanced interface that b offers.
func covers(a, b body.Body) bool {
	if _, ok := b.(io.Seeker); ok {
		if _, ok = a.(io.Seeker); !ok {
			return false
		}
	}
	if _, ok := b.(io.ReaderAt); ok {
		if _, ok = a.(io.ReaderAt); !ok {
			return false
		}
	}
	if _, ok := b.(io.WriterTo); ok {
		if _, ok = a.(io.WriterTo); !ok {
			return false
		}
	}
	return true
}
