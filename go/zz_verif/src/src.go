// Package src provides the scripted sources and writers that the drivers put
// under the code being checked.
package src

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/chronos-tachyon/morehttp/zz_verif/vsync"
)

// Byte is byte i of every source; BodyCore.tla has the same formula (Src).
func Byte(i int) byte {
	x := ((i%40009)*3571 + 11) % 40009
	y := (x * x) % 40009
	return byte(((x*y)%65521/16 + (i/40009)*17) % 256)
}

var (
	contentMu    sync.Mutex
	content      []byte
	contentLimit = 700000 // how far Project looks
)

// Content returns the first n bytes of the source.
func Content(n int) []byte {
	contentMu.Lock()
	defer contentMu.Unlock()
	if n > contentLimit {
		contentLimit = n
	}
	for len(content) < n {
		m := len(content)
		grow := make([]byte, n+4096)
		copy(grow, content)
		for i := m; i < len(grow); i++ {
			grow[i] = Byte(i)
		}
		content = grow
	}
	return content[:n:n]
}

// Project records transferred bytes the way BodyCore!DataOK reads them.
func Project(p []byte) (d []int, loc int) {
	d = []int{}
	if len(p) <= 8 {
		for _, ch := range p {
			d = append(d, int(ch))
		}
		return d, -1
	}
	c := Content(contentLimit)
	i := bytes.Index(c, p)
	if i < 0 {
		return d, -2
	}
	return d, i
}

// Env describes a source, as generated by the specification.
type Env struct {
	Kind   string `json:"kind"`
	N      int    `json:"N"`
	L      int    `json:"L"`
	F      int    `json:"F"`
	Closer bool   `json:"closer"`
	Cerr   bool   `json:"cerr"`
	Ctor   string `json:"ctor"`
	How    string `json:"how"`
	Cs     bool   `json:"cs"`
	Ct     bool   `json:"ct"`
	Ca     bool   `json:"ca"`
	Chunk  int    `json:"chunk"`
	Eofw   bool   `json:"eofw"`
	Trans  bool   `json:"trans"`
	Fw     bool   `json:"fw"`   // the failure is reported together with the bytes before it
	Base   int    `json:"base"` // where in the common content this source starts
	// Position p of the specification is position Lift+p of this source.
	Lift int64 `json:"lift,string"`
	Low  bool  `json:"low"` // ... no: Lift zeros follow the part that is used
	Lazy bool  `json:"lazy"` // between any two Reads, Idle+1 return 0, nil
	Idle int   `json:"idle"`
	Errs int   `json:"errs"` // which errors it fails with
	// Irr > 0: an fs.File that is not a regular file.  What Stat says of its
	// size means nothing, and Seek and ReadAt fail.
	Irr int `json:"irr"`
}

// Errors produced by sources and writers.
var (
	ErrSource = errors.New("source failed")
	ErrClose  = errors.New("close failed")
	ErrWrite  = errors.New("writer failed")
	ErrStat   = errors.New("stat failed")
	ErrSeek   = errors.New("seek failed")
)

// Kinds of errors: the plain one, and ones that resemble, or wrap, errors that
// mean something to the code that uses the source.
var (
	srcErrs = []error{ErrSource, fmt.Errorf("source: %w", io.EOF), io.ErrUnexpectedEOF,
		&fs.PathError{Op: "read", Path: "source", Err: fs.ErrClosed}, io.ErrNoProgress, io.ErrShortBuffer,
		&fs.PathError{Op: "read", Path: "source", Err: io.EOF}, fs.ErrInvalid}
	closeErrs = []error{ErrClose, &fs.PathError{Op: "close", Path: "source", Err: fs.ErrClosed},
		fmt.Errorf("close: %w", io.EOF), io.ErrClosedPipe, fs.ErrClosed}
	writeErrs = []error{ErrWrite, io.ErrShortWrite, fmt.Errorf("write: %w", io.EOF),
		&fs.PathError{Op: "write", Path: "sink", Err: fs.ErrClosed}, io.ErrUnexpectedEOF}
)

// Alike is an error that counts as each of several others (errors.Is).
type Alike []error

func (a *Alike) Error() string { return fmt.Sprintf("%v (like %v)", (*a)[0], (*a)[1]) }

// Is tells what it counts as.
func (a *Alike) Is(target error) bool {
	for _, err := range *a {
		if err == target {
			return true
		}
	}
	return false
}

func alikes(err error) []error {
	return []error{err, &Alike{err, io.EOF}, &Alike{err, io.ErrUnexpectedEOF}, &Alike{err, fs.ErrClosed},
		&Alike{err, http.ErrNotSupported}, &Alike{err, http.ErrAbortHandler}, &Alike{err, context.Canceled}}
}

var readAlikes, closeAlikes, writeAlikes = alikes(ErrSource), alikes(ErrClose), alikes(ErrWrite)

// AlikeErrs is the smallest Env.Errs that stands for errors that count as
// ErrSource, ErrClose and ErrWrite.
const AlikeErrs = 100

// ReadError is the error the source fails with.
func (e Env) ReadError() error {
	if e.Errs >= AlikeErrs {
		return readAlikes[e.Errs%len(readAlikes)]
	}
	return srcErrs[e.Errs%len(srcErrs)]
}

// CloseError is what closing the source fails with.
func (e Env) CloseError() error {
	if e.Errs >= AlikeErrs {
		return closeAlikes[e.Errs%len(closeAlikes)]
	}
	return closeErrs[e.Errs%len(closeErrs)]
}

// WriteError is what writers used with this source fail with.
func (e Env) WriteError() error {
	if e.Errs >= AlikeErrs {
		return writeAlikes[e.Errs%len(writeAlikes)]
	}
	return writeErrs[e.Errs%len(writeErrs)]
}

// Source is a scripted source.  It obeys the contracts of the io interfaces.
type Source struct {
	mu       sync.Mutex
	Unsync   bool // no locks and no counters: conflicting uses are data races
	PerG     bool // attribute counters to the calling goroutine
	perG     map[int64]*Counts
	Env      Env
	data     []byte
	cur      int
	endless  bool // zeros follow the data
	idle     int
	armed    bool
	closed   bool
	Calls    int32
	Jitter   func() // called inside every call, to invite interleavings
	StatErr  bool
	SeekErr  int // fail the n-th Seek call (1-based)
	seekNum  int
	FailSeek bool // the armed failure hits Seek calls instead of reads
	StatSize int64 // what Stat reports
}

// Counts is what a source saw.
type Counts struct{ Closes, After, Errs int32 }

// Counts returns what the source saw so far (from the calling goroutine, if
// PerG is set).
func (s *Source) Counts() Counts {
	if s.Unsync {
		return Counts{}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return *s.counts()
}

func (s *Source) counts() *Counts {
	g := int64(0)
	if s.PerG {
		g = vsync.GID()
	}
	if s.perG == nil {
		s.perG = make(map[int64]*Counts)
	}
	c := s.perG[g]
	if c == nil {
		c = new(Counts)
		s.perG[g] = c
	}
	return c
}

func (s *Source) lock() {
	if !s.Unsync {
		s.mu.Lock()
	}
}

func (s *Source) unlock() {
	if !s.Unsync {
		s.mu.Unlock()
	}
}

// New makes the source described by env.
func New(env Env) *Source {
	s := &Source{Env: env, data: Content(env.Base + env.N)[env.Base:], armed: true}
	s.StatSize = env.Lift + int64(env.L)
	if env.Irr > 0 {
		s.StatSize = []int64{0, 0, 1, 4096}[env.Errs%4]
	}
	if env.Lifted() < env.Lift {
		s.endless = true
	} else {
		s.cur = int(-env.Lift)
	}
	return s
}

// Lifted is the position in the source of what the specification calls 0.
func (e Env) Lifted() int64 {
	if e.Low || e.Kind == "stream" {
		return 0
	}
	return e.Lift
}

func (s *Source) enter() {
	if !s.Unsync {
		atomic.AddInt32(&s.Calls, 1)
	}
	if s.Jitter != nil {
		s.Jitter()
	}
}

func (s *Source) usedAfterClose() bool {
	if s.closed {
		if !s.Unsync {
			s.counts().After++
		}
		return true
	}
	return false
}

func (s *Source) fail() error {
	if !s.Unsync {
		s.counts().Errs++
	}
	// (ReadAt may be called in parallel: it has to keep to reading if it takes no lock)
	if s.Env.Trans && s.Env.Kind != "stream" && !(s.Unsync && s.Env.Ca) {
		s.armed = false
	}
	if s.Env.Trans && s.Env.Kind == "stream" && s.Env.Fw {
		// said once; afterwards the source claims to be at its end
		s.armed = false
		s.data = s.data[:s.cur]
	}
	return s.Env.ReadError()
}

func (s *Source) read(p []byte) (int, error) {
	s.enter()
	s.lock()
	defer s.unlock()
	if s.usedAfterClose() {
		return 0, fs.ErrClosed
	}
	if s.Env.Lazy && len(p) > 0 {
		if s.idle <= s.Env.Idle {
			s.idle++
			return 0, nil
		}
		s.idle = 0
	}
	n := len(p)
	if s.Env.Chunk > 0 && n > s.Env.Chunk {
		n = s.Env.Chunk
	}
	avail := len(s.data) - s.cur
	if avail < 0 {
		avail = 0
	}
	if s.endless {
		for i := range p[:n] {
			p[i] = 0
		}
		if avail > 0 {
			copy(p[:n], s.data[s.cur:])
		}
		s.cur += n
		return n, nil
	}
	if s.cur < 0 {
		return 0, errors.New("read before the lifted part of the source")
	}
	if s.armed && s.Env.F >= 0 && s.Env.F >= s.cur && (s.Env.F-s.cur < Max(n, 1) || s.Env.Fw && n > 0 && s.Env.F-s.cur == n) &&
		len(p) > 0 && (s.Env.F < len(s.data) || s.Env.Kind == "stream" || s.Env.Fw) {
		n = s.Env.F - s.cur
		if n > 0 && !s.Env.Eofw && !s.Env.Fw && s.Env.Kind == "stream" && s.Env.Trans {
			// data first, the error with the next call
			copy(p, s.data[s.cur:s.cur+n])
			s.cur += n
			return n, nil
		}
		copy(p, s.data[s.cur:s.cur+n])
		s.cur += n
		return n, s.fail()
	}
	if avail == 0 {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	var err error
	if n >= avail {
		n = avail
		if s.Env.Eofw {
			err = io.EOF
		}
	}
	copy(p, s.data[s.cur:s.cur+n])
	s.cur += n
	return n, err
}

func (s *Source) seek(offset int64, whence int) (int64, error) {
	s.enter()
	s.lock()
	defer s.unlock()
	if s.usedAfterClose() {
		return 0, fs.ErrClosed
	}
	if s.Env.Irr > 0 {
		return 0, errIllegal
	}
	s.seekNum++
	if s.SeekErr > 0 && s.seekNum == s.SeekErr {
		return 0, ErrSeek
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(s.cur)
	case io.SeekEnd:
		offset += int64(len(s.data))
		if s.endless {
			offset += s.Env.Lift
		}
	default:
		offset -= s.Env.Lifted()
	}
	if offset+s.Env.Lifted() < 0 {
		return 0, errors.New("negative position")
	}
	s.cur = int(offset)
	return offset + s.Env.Lifted(), nil
}

func (s *Source) readAt(p []byte, offset int64) (int, error) {
	s.enter()
	s.lock()
	defer s.unlock()
	if s.usedAfterClose() {
		return 0, fs.ErrClosed
	}
	if s.Env.Irr > 0 {
		return 0, errIllegal
	}
	off := int(offset - s.Env.Lifted())
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	n := len(p)
	if s.endless {
		for i := range p {
			p[i] = 0
		}
		if off < len(s.data) {
			copy(p, s.data[off:])
		}
		return n, nil
	}
	avail := len(s.data) - off
	if avail < 0 {
		avail = 0
	}
	if s.armed && s.Env.F >= 0 && s.Env.F >= off && n > 0 &&
		(s.Env.F < off+n && s.Env.F < len(s.data) || s.Env.Fw && s.Env.F <= len(s.data) && s.Env.F == off+n) {
		n = s.Env.F - off
		copy(p, s.data[off:off+n])
		return n, s.fail()
	}
	var err error
	if n > avail {
		n = avail
		err = io.EOF
	} else if n == avail && s.Env.Eofw && n > 0 {
		err = io.EOF
	}
	copy(p, s.data[Min(off, len(s.data)):Min(off+n, len(s.data))])
	return n, err
}

func (s *Source) stat() (fs.FileInfo, error) {
	s.enter()
	s.lock()
	defer s.unlock()
	if s.usedAfterClose() {
		return nil, fs.ErrClosed
	}
	if s.StatErr {
		return nil, ErrStat
	}
	return info{s.StatSize, s.Env.Irr}, nil
}

func (s *Source) close() error {
	s.enter()
	s.lock()
	defer s.unlock()
	if !s.Unsync {
		s.counts().Closes++
		if s.closed {
			s.counts().After++
		}
	}
	s.closed = true
	if s.Env.Cerr {
		return s.Env.CloseError()
	}
	return nil
}

// SetCur sets the source's own cursor.
func (s *Source) SetCur(n int) { s.cur = n }

type info struct {
	size int64
	irr  int
}

var errIllegal = &fs.PathError{Op: "seek", Path: "source", Err: syscall.ESPIPE}

var modes = []fs.FileMode{0444, fs.ModeNamedPipe | 0600, fs.ModeDevice | fs.ModeCharDevice | 0666, fs.ModeSocket | 0755, fs.ModeIrregular | 0444,
	fs.ModeDevice | 0660}

// Modes is the number of values that Env.Irr may have.
const Modes = 6

func (i info) Name() string       { return "source" }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return modes[i.irr%len(modes)] }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// Capabilities, one type each.
type (
	capR struct{ s *Source }
	capC struct{ s *Source }
	capT struct{ s *Source }
	capS struct{ s *Source }
	capA struct{ s *Source }
)

func (c capR) Read(p []byte) (int, error)            { return c.s.read(p) }
func (c capC) Close() error                          { return c.s.close() }
func (c capT) Stat() (fs.FileInfo, error)            { return c.s.stat() }
func (c capS) Seek(o int64, w int) (int64, error)    { return c.s.seek(o, w) }
func (c capA) ReadAt(p []byte, o int64) (int, error) { return c.s.readAt(p, o) }

// Reader returns the source as an io.Reader that offers exactly the interfaces
// its Env asks for.
func (s *Source) Reader() io.Reader {
	r, c, t, k, a := capR{s}, capC{s}, capT{s}, capS{s}, capA{s}
	e := s.Env
	b := 0
	if e.Ct || e.Closer {
		b |= 1
	}
	if e.Ct {
		b |= 2
	}
	if e.Cs {
		b |= 4
	}
	if e.Ca {
		b |= 8
	}
	switch b {
	case 0:
		return &struct{ capR }{r}
	case 1:
		return &struct {
			capR
			capC
		}{r, c}
	case 3:
		return &struct {
			capR
			capC
			capT
		}{r, c, t}
	case 4:
		return &struct {
			capR
			capS
		}{r, k}
	case 5:
		return &struct {
			capR
			capC
			capS
		}{r, c, k}
	case 7:
		return &struct {
			capR
			capC
			capT
			capS
		}{r, c, t, k}
	case 8:
		return &struct {
			capR
			capA
		}{r, a}
	case 9:
		return &struct {
			capR
			capC
			capA
		}{r, c, a}
	case 11:
		return &struct {
			capR
			capC
			capT
			capA
		}{r, c, t, a}
	case 12:
		return &struct {
			capR
			capS
			capA
		}{r, k, a}
	case 13:
		return &struct {
			capR
			capC
			capS
			capA
		}{r, c, k, a}
	default:
		return &struct {
			capR
			capC
			capT
			capS
			capA
		}{r, c, t, k, a}
	}
}

// Writer accepts Max bytes (all if negative), then fails.
type Writer struct {
	Max int
	Err error // ErrWrite, if nil
	Got []byte
}

func (w *Writer) Write(p []byte) (int, error) {
	n := len(p)
	if w.Max >= 0 && len(w.Got)+n > w.Max {
		n = w.Max - len(w.Got)
		w.Got = append(w.Got, p[:n]...)
		if w.Err != nil {
			return n, w.Err
		}
		return n, ErrWrite
	}
	w.Got = append(w.Got, p...)
	return n, nil
}

// Yield is a Jitter that invites the scheduler to switch.
func Yield() { runtime.Gosched() }

// Min returns the smaller number.
func Min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Max returns the larger number.
func Max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// Seeks counts the Seek calls.
func (s *Source) Seeks() int { return s.seekNum }
