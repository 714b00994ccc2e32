// This file is the child-side half of the simulator: it turns blocking
// operations of the standard library (files, network, signals) into requests
// to the simulator and parks the goroutine until the simulator answers.
package testlog

import (
	"runtime"
	"unsafe"
)

//go:linkname runtime_post
func runtime_post(p unsafe.Pointer, n int)
//go:linkname runtime_flush
func runtime_flush()
//go:linkname runtime_wait
func runtime_wait() []byte
//go:linkname runtime_rand64
func runtime_rand64() uint64
//go:linkname runtime_now
func runtime_now() int64
//go:linkname runtime_root
func runtime_root() string
//go:linkname runtime_exit
func runtime_exit(code int32)

const (
	opFile        = 1
	opDial        = 2
	opConnWrite   = 3
	opConnClose   = 4
	opListen      = 5
	opListenClose = 6
	opSignal      = 7
	opExit        = 8
	opTrace       = 9

	evDone   = 1
	evData   = 2
	evEOF    = 3
	evReset  = 4
	evAccept = 5
	evSignal = 6
)

// File operation codes.
const (
	FOpen = iota + 1
	FRead
	FWrite
	FSync
	FClose
	FRename
	FRemove
	FMkdir
	FReadDir
	FChtimes
	FTruncate
	FLink
	FStat
)

type waiter struct {
	c    chan struct{}
	body []byte
}

var (
	root    string
	nextID  uint64
	waiters map[uint64]*waiter
	conns   map[uint64]*Conn
	lns     map[uint64]*Listener
	sigCh   chan uint32
	sigOn   [65]bool
)

func init() {
	root = runtime_root()
	waiters = map[uint64]*waiter{}
	conns = map[uint64]*Conn{}
	lns = map[uint64]*Listener{}
	sigCh = make(chan uint32, 64)
	go pump()
}

func pump() {
	for n := 1; ; n++ {
		in := runtime_wait()
		if n%4096 == 0 {
			// The collector runs here, when nothing else does, and not
			// when the heap says so: that would depend on threads.
			runtime.GC()
		}
		buf := make([]byte, len(in))
		copy(buf, in)
		for len(buf) >= 16 {
			kind := get32(buf)
			n := int(get32(buf[4:]))
			id := get64(buf[8:])
			body := buf[16 : 16+n]
			buf = buf[16+n:]
			dispatch(kind, id, body)
		}
	}
}

func dispatch(kind uint32, id uint64, body []byte) {
	switch kind {
	case evDone:
		w := waiters[id]
		delete(waiters, id)
		if w != nil {
			w.body = body
			close(w.c)
		}
	case evData:
		if c := conns[id]; c != nil && c.err == 0 {
			c.buf = append(c.buf, body...)
			c.wake()
		}
	case evEOF:
		if c := conns[id]; c != nil {
			c.eof = true
			c.wake()
		}
	case evReset:
		if c := conns[id]; c != nil {
			c.err = int(get32(body))
			c.buf = nil
			c.wake()
		}
	case evAccept:
		if l := lns[id]; l != nil {
			c := newConn(get64(body), string(body[8:]))
			l.queue = append(l.queue, c)
			select {
			case l.ready <- struct{}{}:
			default:
			}
		}
	case evSignal:
		if id < 65 && sigOn[id] {
			select {
			case sigCh <- uint32(id):
			default:
			}
		} else {
			runtime_flush()
			runtime_exit(int32(128 + id))
		}
	}
}

func put32(b []byte, v uint32) {
	b[0], b[1], b[2], b[3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
}
func put64(b []byte, v uint64) { put32(b, uint32(v)); put32(b[4:], uint32(v>>32)) }
func get32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func get64(b []byte) uint64 { return uint64(get32(b)) | uint64(get32(b[4:]))<<32 }

func post(kind uint32, id uint64, body []byte) {
	b := make([]byte, 16+len(body))
	put32(b, kind)
	put32(b[4:], uint32(len(body)))
	put64(b[8:], id)
	copy(b[16:], body)
	runtime_post(unsafe.Pointer(&b[0]), len(b))
}

func call(kind uint32, body []byte) []byte {
	nextID++
	id := nextID
	w := &waiter{c: make(chan struct{})}
	waiters[id] = w
	post(kind, id, body)
	<-w.c
	return w.body
}

// Now is the wall clock of this machine in nanoseconds since 1970.
func Now() int64 { return runtime_now() }

func Rand64() uint64 { return runtime_rand64() }

// Read fills b with seeded random bytes.
func Read(b []byte) {
	for i := range b {
		b[i] = byte(runtime_rand64() >> 24)
	}
}

// Hooked reports whether a path lies under the simulated file system.
func Hooked(path string) bool {
	return len(root) > 0 && len(path) >= len(root) && path[:len(root)] == root
}

// FileOp asks the simulator for permission to perform a file operation.
// errno != 0: fail with that error after having transferred n bytes.
// die: perform it for n bytes and then die.
func FileOp(op int, path, path2 string, flag int, size int) (n int, errno int, die bool) {
	b := make([]byte, 28+len(path)+len(path2))
	put32(b, uint32(op))
	put32(b[4:], uint32(flag))
	put64(b[8:], uint64(size))
	put32(b[16:], uint32(len(path)))
	put32(b[20:], uint32(len(path2)))
	copy(b[24:], path)
	copy(b[24+len(path):], path2)
	r := call(opFile, b)
	return int(int64(get64(r))), int(get32(r[8:])), get32(r[12:]) != 0
}

// Die ends the process as an abrupt kill would.
func Die() {
	for {
		runtime_exit(137)
	}
}

// Exit tells the simulator about an orderly exit.
func Exit(code int) {
	var b [8]byte
	put64(b[0:], uint64(int64(code)))
	post(opExit, 0, b[:])
	runtime_flush()
}

func SignalEnable(sig uint32) {
	if sig < 65 {
		sigOn[sig] = true
	}
}

func SignalDisable(sig uint32) {
	if sig < 65 {
		sigOn[sig] = false
	}
}

func SignalRecv() uint32 { return <-sigCh }

// Conn is one end of a simulated byte stream.
type Conn struct {
	ID     uint64
	Remote string
	buf    []byte
	eof    bool
	err    int
	closed bool
	ready  chan struct{}
}

func newConn(id uint64, remote string) *Conn {
	c := &Conn{ID: id, Remote: remote, ready: make(chan struct{}, 1)}
	conns[id] = c
	return c
}

func (c *Conn) wake() {
	select {
	case c.ready <- struct{}{}:
	default:
	}
}

// Dial opens a stream. done is closed over by the caller's context handling.
func Dial(addr string) (c *Conn, wait <-chan struct{}, result func() int) {
	nextID++
	c = newConn(nextID|1<<40, addr)
	nextID++
	id := nextID
	w := &waiter{c: make(chan struct{})}
	waiters[id] = w
	b := make([]byte, 8+len(addr))
	put64(b, c.ID)
	copy(b[8:], addr)
	post(opDial, id, b)
	return c, w.c, func() int { return int(get32(w.body)) }
}

// TryRead returns what is available: n > 0, or eof, or errno, or none.
func (c *Conn) TryRead(p []byte) (n int, eof bool, errno int) {
	if len(c.buf) > 0 {
		n = copy(p, c.buf)
		c.buf = c.buf[n:]
		if len(c.buf) > 0 || c.eof || c.err != 0 {
			c.wake()
		}
		return n, false, 0
	}
	if c.err != 0 {
		c.wake()
		return 0, false, c.err
	}
	if c.eof {
		c.wake()
		return 0, true, 0
	}
	return 0, false, 0
}

func (c *Conn) Ready() <-chan struct{} { return c.ready }

func (c *Conn) Write(p []byte) (errno int) {
	if c.err != 0 {
		return c.err
	}
	for len(p) > 0 {
		q := p
		if len(q) > 1<<20 {
			q = q[:1<<20]
		}
		post(opConnWrite, c.ID, q)
		p = p[len(q):]
	}
	return 0
}

func (c *Conn) Close() {
	if c.closed {
		return
	}
	c.closed = true
	delete(conns, c.ID)
	post(opConnClose, c.ID, nil)
}

type Listener struct {
	ID    uint64
	Addr  string
	queue []*Conn
	ready chan struct{}
}

func Listen(addr string) (*Listener, int) {
	nextID++
	l := &Listener{ID: nextID | 2<<40, Addr: addr, ready: make(chan struct{}, 1)}
	b := make([]byte, 8+len(addr))
	put64(b, l.ID)
	copy(b[8:], addr)
	lns[l.ID] = l
	r := call(opListen, b)
	if e := int(get32(r)); e != 0 {
		delete(lns, l.ID)
		return nil, e
	}
	return l, 0
}

func (l *Listener) Ready() <-chan struct{} { return l.ready }

func (l *Listener) TryAccept() *Conn {
	if len(l.queue) == 0 {
		return nil
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	if len(l.queue) > 0 {
		select {
		case l.ready <- struct{}{}:
		default:
		}
	}
	return c
}

func (l *Listener) Close() {
	delete(lns, l.ID)
	post(opListenClose, l.ID, nil)
}

// Trace records a line in the simulator's event log.
func Trace(s string) { post(opTrace, 0, []byte(s)) }

