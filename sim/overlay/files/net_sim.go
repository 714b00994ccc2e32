package net

import (
	"context"
	"internal/nettrace"
	sim "internal/testlog"
	"io"
	"os"
	"sync"
	"syscall"
	"time"
)

type simConn struct {
	c         *sim.Conn
	local     Addr
	remote    Addr
	rd, wd    pipeDeadline
	done      chan struct{}
	closeOnce sync.Once
	rmu       sync.Mutex
}

func simAddr(address string) *TCPAddr {
	host, port, err := SplitHostPort(address)
	if err != nil {
		host, port = address, "0"
	}
	p := 0
	for _, ch := range port {
		if ch >= '0' && ch <= '9' {
			p = p*10 + int(ch-'0')
		}
	}
	return &TCPAddr{IP: simIP(host), Port: p}
}

func simIP(host string) IP {
	if ip := ParseIP(host); ip != nil {
		return ip
	}
	h := uint32(2166136261)
	for i := 0; i < len(host); i++ {
		h = (h ^ uint32(host[i])) * 16777619
	}
	return IPv4(10, byte(h>>16), byte(h>>8), byte(h))
}

func newSimConn(c *sim.Conn, remote Addr) *simConn {
	return &simConn{c: c, local: &TCPAddr{IP: IPv4(10, 0, 0, 1), Port: 40000}, remote: remote,
		rd: makePipeDeadline(), wd: makePipeDeadline(), done: make(chan struct{})}
}

func simDial(ctx context.Context, network, address string) (Conn, error) {
	remote := simAddr(address)
	trace, _ := ctx.Value(nettrace.TraceKey{}).(*nettrace.Trace)
	host, _, _ := SplitHostPort(address)
	if trace != nil && trace.DNSStart != nil {
		trace.DNSStart(host)
	}
	fail := func(e error) error {
		return &OpError{Op: "dial", Net: network, Source: nil, Addr: remote, Err: e}
	}
	if err := ctx.Err(); err != nil {
		return nil, fail(mapErr(err))
	}
	c, wait, result := sim.Dial(address)
	select {
	case <-wait:
	case <-ctx.Done():
		c.Close()
		return nil, fail(mapErr(ctx.Err()))
	}
	e := result()
	if e == 4096 { // no such host
		c.Close()
		derr := &DNSError{Err: "no such host", Name: host, IsNotFound: true}
		if trace != nil && trace.DNSDone != nil {
			trace.DNSDone(nil, false, derr)
		}
		return nil, fail(derr)
	}
	if trace != nil && trace.DNSDone != nil {
		trace.DNSDone([]any{IPAddr{IP: remote.IP}}, false, nil)
	}
	if trace != nil && trace.ConnectStart != nil {
		trace.ConnectStart(network, remote.String())
	}
	var err error
	if e != 0 {
		c.Close()
		err = fail(os.NewSyscallError("connect", syscall.Errno(e)))
	}
	if trace != nil && trace.ConnectDone != nil {
		trace.ConnectDone(network, remote.String(), err)
	}
	if err != nil {
		return nil, err
	}
	return newSimConn(c, remote), nil
}

func (s *simConn) opErr(op string, e error) error {
	return &OpError{Op: op, Net: "tcp", Source: s.local, Addr: s.remote, Err: e}
}

func (s *simConn) Read(p []byte) (int, error) {
	s.rmu.Lock()
	defer s.rmu.Unlock()
	if isClosedChan(s.done) {
		return 0, s.opErr("read", ErrClosed)
	}
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if isClosedChan(s.rd.wait()) {
			return 0, s.opErr("read", os.ErrDeadlineExceeded)
		}
		n, eof, errno := s.c.TryRead(p)
		if n > 0 {
			return n, nil
		}
		if errno != 0 {
			return 0, s.opErr("read", os.NewSyscallError("read", syscall.Errno(errno)))
		}
		if eof {
			return 0, io.EOF
		}
		select {
		case <-s.done:
			return 0, s.opErr("read", ErrClosed)
		case <-s.rd.wait():
			return 0, s.opErr("read", os.ErrDeadlineExceeded)
		case <-s.c.Ready():
		}
	}
}

func (s *simConn) Write(p []byte) (int, error) {
	if isClosedChan(s.done) {
		return 0, s.opErr("write", ErrClosed)
	}
	if isClosedChan(s.wd.wait()) {
		return 0, s.opErr("write", os.ErrDeadlineExceeded)
	}
	if e := s.c.Write(p); e != 0 {
		return 0, s.opErr("write", os.NewSyscallError("write", syscall.EPIPE))
	}
	return len(p), nil
}

func (s *simConn) Close() error {
	first := false
	s.closeOnce.Do(func() { first = true; close(s.done); s.c.Close() })
	if !first {
		return s.opErr("close", ErrClosed)
	}
	return nil
}

func (s *simConn) LocalAddr() Addr  { return s.local }
func (s *simConn) RemoteAddr() Addr { return s.remote }
func (s *simConn) SetDeadline(t time.Time) error {
	s.rd.set(t)
	s.wd.set(t)
	return nil
}
func (s *simConn) SetReadDeadline(t time.Time) error  { s.rd.set(t); return nil }
func (s *simConn) SetWriteDeadline(t time.Time) error { s.wd.set(t); return nil }

type simListener struct {
	l    *sim.Listener
	addr Addr
	done chan struct{}
	once sync.Once
}

func simListen(network, address string) (Listener, error) {
	l, e := sim.Listen(address)
	if e != 0 {
		return nil, &OpError{Op: "listen", Net: network, Addr: simAddr(address), Err: os.NewSyscallError("bind", syscall.Errno(e))}
	}
	return &simListener{l: l, addr: simAddr(address), done: make(chan struct{})}, nil
}

func (l *simListener) Accept() (Conn, error) {
	for {
		if isClosedChan(l.done) {
			return nil, &OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: ErrClosed}
		}
		if c := l.l.TryAccept(); c != nil {
			return newSimConn(c, simAddr(c.Remote)), nil
		}
		select {
		case <-l.done:
		case <-l.l.Ready():
		}
	}
}

func (l *simListener) Close() error {
	err := error(&OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: ErrClosed})
	l.once.Do(func() { close(l.done); l.l.Close(); err = nil })
	return err
}

func (l *simListener) Addr() Addr { return l.addr }
