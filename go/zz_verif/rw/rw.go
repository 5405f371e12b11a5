// Package rw provides the ResponseWriters that the drivers put under the code
// being checked; they record every call they receive.
package rw

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"net/http"
	"os"
	"sort"
	"sync"
	"syscall"

	"github.com/chronos-tachyon/morehttp/zz_verif/src"
)

// Caps lists the optional interfaces of a writer.
type Caps struct {
	Flush    bool `json:"fl"`
	Notify   bool `json:"cn"`
	Hijack   bool `json:"hj"`
	ReadFrom bool `json:"rf"`
	Push     bool `json:"pu"`
	Unwrap   bool `json:"uw"` // Unwrap, towards a writer that is to be left alone
}

// Call is one recorded call.
type Call struct {
	C    string `json:"c"`   // status write readfrom flush push hijack notify
	V    int    `json:"v"`   // status
	N    int    `json:"n"`   // bytes offered
	Acc  int    `json:"acc"` // bytes accepted
	E    string `json:"e"`   // error class returned
	D    []int  `json:"d"`   // the accepted bytes, see src.Project
	Loc  int    `json:"loc"`
	S    string `json:"s"`    // push target
	Same bool   `json:"same"` // the caller's own arguments arrived
	H    []Pair `json:"h"`    // headers, when the status was sent
}

// Pair is a header name with its values.
type Pair struct {
	K string   `json:"k"`
	V []string `json:"v"`
}

// Errors a writer may return.
var (
	ErrPush   = errors.New("push failed")
	ErrHijack = errors.New("hijack failed")
)

// Rec is a recording ResponseWriter.
type Rec struct {
	mu       sync.Mutex
	Hdr      http.Header
	Calls    []Call
	Max      int // accept that many body bytes, then fail (-1: all)
	Got      int // body bytes accepted
	Status   int // first status received
	PushErr  []error
	PushOpts *http.PushOptions
	PanicOn  string // panic in this kind of call
	Throw    func()
	OnStatus func(h http.Header)
	Gate     func(kind string)
	chClose  chan bool
	Snapshot bool // record headers with the status
	Failed   bool // an error was returned
	Keep     bool // keep the accepted bytes in Data
	Data     []byte
	decoy    *Rec
	Alt      int // which error it fails with
	// Unit > 0: bytes are counted in units, and not looked at; Off is the
	// position of the next one.
	Unit int
	Off  int
}

// Errors that writers are known to fail with.
var plainErrs = []error{
	io.ErrClosedPipe, io.ErrShortWrite, io.ErrUnexpectedEOF, syscall.EPIPE,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.ECONNRESET},
	&net.OpError{Op: "write", Net: "tcp", Err: os.NewSyscallError("write", syscall.EPIPE)},
	net.ErrClosed, http.ErrBodyNotAllowed, http.ErrHijacked, http.ErrContentLength, http.ErrHandlerTimeout,
	context.Canceled, context.DeadlineExceeded, os.ErrDeadlineExceeded,
	&fs.PathError{Op: "write", Path: "client", Err: fs.ErrClosed}, fmt.Errorf("write: %w", io.EOF),
}

func isOneOf(err error, errs []error) bool {
	for _, e := range errs {
		if e == err {
			return true
		}
	}
	return false
}

func (r *Rec) writeError() error {
	if i := r.Alt % 24; i < len(plainErrs) {
		return plainErrs[i]
	}
	return src.Env{Errs: src.AlikeErrs + r.Alt}.WriteError()
}

// units counts in units; what is no whole number of them becomes -1.
func (r *Rec) units(n int) int {
	if n%r.Unit != 0 {
		return -1
	}
	return n / r.Unit
}

// Units counts n bytes.
func (r *Rec) Units(n int64) int64 {
	if r.Unit == 0 {
		return n
	}
	return int64(r.units(int(n)))
}

// New makes a writer that accepts max bytes.
func New(max int) *Rec {
	return &Rec{Hdr: make(http.Header), Max: max, chClose: make(chan bool)}
}

// Take returns the calls recorded since the last Take.
func (r *Rec) Take() []Call {
	r.mu.Lock()
	defer r.mu.Unlock()
	c := r.Calls
	r.Calls = nil
	if c == nil {
		c = []Call{}
	}
	if r.Unit > 0 {
		for i := range c {
			if x := &c[i]; x.C == "write" || x.C == "readfrom" {
				x.N, x.Acc, x.D = r.units(x.N), r.units(x.Acc), []int{}
				for j := 0; j < x.Acc; j++ {
					x.D = append(x.D, int(src.Byte(r.Off)))
					r.Off++
				}
			}
		}
	}
	if r.decoy != nil {
		for _, x := range r.decoy.Take() {
			x.C = "bypass-" + x.C
			c = append(c, x)
		}
	}
	return c
}

func (r *Rec) enter(kind string, v int) {
	if r.Gate != nil {
		r.Gate(kind)
	}
	if r.PanicOn == kind {
		r.log(Call{C: kind, V: v, E: "panic", Loc: -1})
		r.Throw()
	}
}

func (r *Rec) log(c Call) {
	if c.D == nil {
		c.D = []int{}
	}
	if c.H == nil {
		c.H = []Pair{}
	}
	r.mu.Lock()
	r.Calls = append(r.Calls, c)
	r.mu.Unlock()
}

func (r *Rec) writeHeader(v int) {
	r.enter("status", v)
	c := Call{C: "status", V: v, Loc: -1}
	if r.Snapshot {
		c.H = Clone(r.Hdr)
	}
	if r.OnStatus != nil {
		r.OnStatus(r.Hdr)
	}
	if r.Status == 0 {
		r.Status = v
	}
	r.log(c)
}

// Abstract gives the names under which header names are recorded.
var Abstract map[string]string


// Clone makes a snapshot of headers that shares nothing, sorted by name.
func Clone(h http.Header) []Pair {
	m := make([]Pair, 0, len(h))
	for k, v := range h {
		if a, ok := Abstract[k]; ok {
			k = a
		}
		m = append(m, Pair{k, append([]string{}, v...)})
	}
	sort.Slice(m, func(i, j int) bool { return m[i].K < m[j].K })
	return m
}

func (r *Rec) accept(p []byte) (int, error) {
	n := len(p)
	var err error
	if r.Max >= 0 && r.Got+n > r.Max {
		n = src.Max(0, r.Max-r.Got)
		err = r.writeError()
		r.Failed = true
	}
	r.Got += n
	if r.Keep {
		r.Data = append(r.Data, p[:n]...)
	}
	return n, err
}

func (r *Rec) write(p []byte) (int, error) {
	r.enter("write", 0)
	n, err := r.accept(p)
	if r.Unit > 0 {
		if i := len(r.Calls) - 1; i >= 0 && r.Calls[i].C == "write" && r.Calls[i].E == "nil" {
			r.Calls[i].N += len(p)
			r.Calls[i].Acc += n
			r.Calls[i].E = class(err)
		} else {
			r.log(Call{C: "write", N: len(p), Acc: n, E: class(err), Loc: -1})
		}
		return n, err
	}
	d, loc := src.Project(p[:n])
	r.log(Call{C: "write", N: len(p), Acc: n, E: class(err), D: d, Loc: loc})
	return n, err
}

func (r *Rec) readFrom(rd io.Reader) (int64, error) {
	r.enter("readfrom", 0)
	var all []byte
	sum := 0
	p := make([]byte, 16384)
	var err error
	for err == nil {
		var n int
		n, err = rd.Read(p)
		if n > 0 {
			m, werr := r.accept(p[:n])
			sum += m
			if r.Unit == 0 {
				all = append(all, p[:m]...)
			}
			if werr != nil {
				err = werr
			}
		}
	}
	if err == io.EOF {
		err = nil
	}
	d, loc := src.Project(all)
	r.log(Call{C: "readfrom", N: sum, Acc: sum, E: class(err), D: d, Loc: loc})
	return int64(sum), err
}

func (r *Rec) push(url string, opts *http.PushOptions) error {
	r.enter("push", 0)
	var err error
	r.mu.Lock()
	if len(r.PushErr) > 0 {
		err = r.PushErr[0]
		r.PushErr = r.PushErr[1:]
	}
	r.mu.Unlock()
	r.log(Call{C: "push", S: url, E: class(err), Same: opts == r.PushOpts, Loc: -1})
	return err
}

func class(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, src.ErrWrite), isOneOf(err, plainErrs):
		return "werr"
	case errors.Is(err, src.ErrSource):
		return "src"
	case errors.Is(err, src.ErrClose):
		return "cerr"
	case errors.Is(err, http.ErrNotSupported):
		return "notsup"
	case isOneOf(err, pushErrs):
		return "push"
	case errors.Is(err, ErrHijack):
		return "hijack"
	case err == io.EOF:
		return "eof"
	case errors.Is(err, fs.ErrClosed):
		return "closed"
	}
	return "other"
}

// Class names an error.
func Class(err error) string { return class(err) }

// Errors that pushing fails with: none of them says that it is not supported.
var pushErrs = []error{ErrPush, errors.New("feature not supported"), &http.ProtocolError{ErrorString: "feature not supported"},
	errors.ErrUnsupported, fmt.Errorf("push: %w", errors.ErrUnsupported), fmt.Errorf("push: %w", io.EOF),
	&fs.PathError{Op: "push", Path: "/p", Err: fs.ErrClosed}, fmt.Errorf("push: %w", http.ErrAbortHandler),
	fmt.Errorf("push: %w", context.Canceled), http.ErrNotMultipart, http.ErrSkipAltProtocol}

// PushError makes the error that a push attempt is to return, one of several
// of this kind.
func PushError(kind string, alt int) error {
	switch kind {
	case "notsup":
		return http.ErrNotSupported
	case "wrapped":
		return fmt.Errorf("push: %w", http.ErrNotSupported)
	case "push":
		return pushErrs[alt%len(pushErrs)]
	}
	return nil
}

type (
	base        struct{ r *Rec }
	capFlush    struct{ r *Rec }
	capNotify   struct{ r *Rec }
	capHijack   struct{ r *Rec }
	capReadFrom struct{ r *Rec }
	capPush     struct{ r *Rec }
	capUnwrap   struct{ r *Rec }
)

// Unwrap hands out a writer that can do everything and that nobody is to use.
func (c capUnwrap) Unwrap() http.ResponseWriter {
	if c.r.decoy == nil {
		c.r.decoy = New(-1)
	}
	return c.r.decoy.Writer(Caps{Flush: true, Notify: true, Hijack: true, ReadFrom: true, Push: true})
}

func (b base) Header() http.Header         { return b.r.Hdr }
func (b base) Write(p []byte) (int, error) { return b.r.write(p) }
func (b base) WriteHeader(v int)           { b.r.writeHeader(v) }

func (c capFlush) Flush() {
	c.r.enter("flush", 0)
	c.r.log(Call{C: "flush", Loc: -1})
}

func (c capNotify) CloseNotify() <-chan bool {
	c.r.log(Call{C: "notify", Loc: -1})
	return c.r.chClose
}

// Notify returns the channel CloseNotify hands out.
func (r *Rec) Notify() <-chan bool { return r.chClose }

func (c capHijack) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	c.r.log(Call{C: "hijack", Loc: -1})
	return nil, nil, ErrHijack
}

func (c capReadFrom) ReadFrom(rd io.Reader) (int64, error) { return c.r.readFrom(rd) }

func (c capPush) Push(url string, opts *http.PushOptions) error { return c.r.push(url, opts) }
