package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"syscall"
)

// Host is a simulated machine listening on one address.
type Host struct {
	Name    string // short name used in fault kinds
	Addr    string
	Accept  func(c *Conn)
	Down    bool
	Hole    bool // partition: packets vanish
	open    []*Conn
	BaseLat int64
	Note    func(r *HTTPReq, resp *HTTPResp, outcome string) // what became of each answer
}

// Conn is a byte stream between a simulated process and the world.
type Conn struct {
	s        *Sim
	p        *Proc
	id       uint64 // in the process
	key      uint64
	host     *Host
	lat      int64
	lastIn   int64 // FIFO towards the world
	lastOut  int64 // FIFO towards the process
	closed   bool
	procDone bool
	dead     bool
	OnData   func(b []byte)
	OnClose  func()
}

func (p *Proc) connKey(id uint64) uint64 { return uint64(p.ID)<<48 ^ id }

func (s *Sim) AddHost(h *Host) {
	if h.BaseLat == 0 {
		h.BaseLat = s.rnd.Range(100*usec, 20*msec)
	}
	s.hosts[h.Addr] = h
}

func (p *Proc) dial(op uint64, connID uint64, addr string) {
	s := p.s
	h := s.hosts[addr]
	if h != nil {
		p.dialAt[h.Name] = s.Now
		if s.OnDial != nil {
			s.OnDial(p, h)
		}
	}
	done := func(errno int) {
		if !p.alive {
			return
		}
		var r [4]byte
		binary.LittleEndian.PutUint32(r[:], uint32(errno))
		p.send(frame(1, op, r[:]))
	}
	if h == nil {
		s.Log("dial %s#%d %s: no such host", p.Name, p.ID, addr)
		s.After(5*msec, func() { done(4096) })
		return
	}
	lat := h.BaseLat + s.rnd.Range(0, h.BaseLat)
	c := &Conn{s: s, p: p, id: connID, key: p.connKey(connID), host: h, lat: lat}
	s.conns[c.key] = c
	p.conns = append(p.conns, c)
	if h.Hole {
		return // SYN lost
	}
	if _, ok := s.Fault("net.hole." + h.Name); ok {
		return
	}
	if _, ok := s.Fault("net.refuse." + h.Name); ok {
		s.After(lat, func() { done(int(syscall.ECONNREFUSED)) })
		return
	}
	if _, ok := s.Fault("net.dns." + h.Name); ok {
		s.After(lat, func() { done(4096) })
		return
	}
	s.After(2*lat, func() {
		if !p.alive || c.procDone {
			return
		}
		if h.Down {
			c.dead = true
			done(int(syscall.ECONNREFUSED))
			return
		}
		h.open = append(h.open, c)
		h.Accept(c)
		done(0)
	})
}

// fromProc: the process wrote b.
func (c *Conn) fromProc(b []byte) {
	if c.dead || c.closed {
		return
	}
	s := c.s
	at := s.Now + c.lat
	if at < c.lastIn {
		at = c.lastIn
	}
	c.lastIn = at
	s.At(at, func() {
		if c.dead || c.closed || c.host != nil && c.host.Hole {
			return
		}
		if c.OnData != nil {
			c.OnData(b)
		}
	})
}

func (c *Conn) procClosed() {
	if c.procDone {
		return
	}
	c.procDone = true
	delete(c.s.conns, c.key)
	c.lateClose()
}

func (c *Conn) lateClose() {
	s := c.s
	at := s.Now + c.lat
	if at < c.lastIn {
		at = c.lastIn
	}
	s.At(at, func() {
		if !c.dead {
			c.dead = true
			c.forget()
			if c.OnClose != nil {
				c.OnClose()
			}
		}
	})
}

func (c *Conn) forget() {
	if c.host == nil {
		return
	}
	for i, x := range c.host.open {
		if x == c {
			c.host.open = append(c.host.open[:i:i], c.host.open[i+1:]...)
			return
		}
	}
}

func (c *Conn) procGone() {
	if !c.procDone {
		c.procDone = true
		delete(c.s.conns, c.key)
		c.lateClose()
	}
}

func (c *Conn) outAt(delay int64) int64 {
	at := c.s.Now + delay
	if at < c.lastOut {
		at = c.lastOut
	}
	c.lastOut = at
	return at
}

// Send delivers b to the process after delay (plus latency).
func (c *Conn) Send(b []byte, delay int64) {
	at := c.outAt(c.lat + delay)
	c.s.At(at, func() {
		if c.procDone || c.dead || !c.p.alive || c.host != nil && c.host.Hole {
			return
		}
		c.p.send(frame(2, c.id, b))
	})
}

// EOF half-closes towards the process.
func (c *Conn) EOF(delay int64) {
	at := c.outAt(c.lat + delay)
	c.closed = true
	c.s.At(at, func() {
		if c.procDone || c.dead || !c.p.alive {
			return
		}
		c.p.send(frame(3, c.id, nil))
	})
}

// Reset breaks the connection in both directions.
func (c *Conn) Reset(delay int64) {
	if c.dead {
		return
	}
	c.closed = true
	at := c.s.Now + delay
	c.s.At(at, func() {
		if c.dead {
			return
		}
		c.dead = true
		c.forget()
		if c.procDone || !c.p.alive {
			return
		}
		var r [4]byte
		binary.LittleEndian.PutUint32(r[:], uint32(syscall.ECONNRESET))
		c.p.send(frame(4, c.id, r[:]))
	})
}

// SetDown stops or restarts a host; connections to a host that goes down break.
func (h *Host) SetDown(s *Sim, down bool) {
	if h.Down == down {
		return
	}
	h.Down = down
	s.Log("host %s down=%v", h.Name, down)
	if down {
		for _, c := range append([]*Conn(nil), h.open...) {
			c.Reset(0)
		}
	}
}

func (p *Proc) listenOp(op uint64, ln uint64, addr string) {
	s := p.s
	errno := 0
	if _, ok := s.Fault("net.listen"); ok {
		errno = int(syscall.EADDRINUSE)
	} else {
		p.listen[addr] = ln
	}
	s.After(10*usec, func() {
		if !p.alive {
			return
		}
		var r [4]byte
		binary.LittleEndian.PutUint32(r[:], uint32(errno))
		p.send(frame(1, op, r[:]))
	})
}

// Connect opens a stream from the world to a listener of the process.
func (p *Proc) Connect(addr string, onData func(b []byte), onClose func()) *Conn {
	ln, ok := p.listen[addr]
	if !ok || !p.alive {
		return nil
	}
	s := p.s
	s.nextConn++
	c := &Conn{s: s, p: p, id: 3<<40 | s.nextConn, lat: s.rnd.Range(50*usec, 5*msec), OnData: onData, OnClose: onClose}
	c.key = p.connKey(c.id)
	s.conns[c.key] = c
	p.conns = append(p.conns, c)
	body := make([]byte, 8)
	binary.LittleEndian.PutUint64(body, c.id)
	body = append(body, fmt.Sprintf("10.9.9.9:%d", 20000+s.nextConn%20000)...)
	s.At(c.outAt(c.lat), func() {
		if p.alive {
			p.send(frame(5, ln, body))
		}
	})
	return c
}

// ---- HTTP ----

type HTTPReq struct {
	Method, Path, Host string
	Header             map[string]string
	Body               []byte
	c                  *Conn
}

type HTTPResp struct {
	Status int
	Header [][2]string
	Body   []byte
	Delay  int64
	Sent   func() // called when the whole answer is on its way
	Cuts   []int  // where a cut of the body does the most harm
}

func (r *HTTPResp) cut(fr *Rng) []byte {
	if len(r.Cuts) > 0 && fr.P(600) {
		return r.Body[:r.Cuts[fr.N(len(r.Cuts))]]
	}
	return r.Body[:fr.N(len(r.Body))]
}

type httpServer struct {
	s       *Sim
	h       *Host
	handler func(r *HTTPReq) *HTTPResp
}

// HTTPHost serves HTTP on addr. Faults are drawn per request under the host's name.
func (s *Sim) HTTPHost(name, addr string, handler func(r *HTTPReq) *HTTPResp) *Host {
	h := &Host{Name: name, Addr: addr}
	srv := &httpServer{s, h, handler}
	h.Accept = func(c *Conn) {
		var buf []byte
		c.OnData = func(b []byte) {
			buf = append(buf, b...)
			for {
				r, rest, ok := parseReq(buf)
				if !ok {
					return
				}
				buf = rest
				r.c = c
				srv.serve(c, r)
			}
		}
	}
	s.AddHost(h)
	return h
}

func parseReq(b []byte) (*HTTPReq, []byte, bool) {
	i := bytes.Index(b, []byte("\r\n\r\n"))
	if i < 0 {
		return nil, b, false
	}
	lines := strings.Split(string(b[:i]), "\r\n")
	f := strings.SplitN(lines[0], " ", 3)
	if len(f) < 3 {
		return nil, b, false
	}
	r := &HTTPReq{Method: f[0], Path: f[1], Header: map[string]string{}}
	for _, l := range lines[1:] {
		k, v, _ := strings.Cut(l, ":")
		r.Header[strings.ToLower(k)] = strings.TrimSpace(v)
	}
	r.Host = r.Header["host"]
	n, _ := strconv.Atoi(r.Header["content-length"])
	if len(b) < i+4+n {
		return nil, b, false
	}
	r.Body = append([]byte(nil), b[i+4:i+4+n]...)
	return r, b[i+4+n:], true
}

func (v *httpServer) serve(c *Conn, r *HTTPReq) {
	s := v.s
	n := v.h.Name
	note := func(resp *HTTPResp, outcome string) {
		if v.h.Note != nil {
			v.h.Note(r, resp, outcome)
		}
	}
	if _, ok := s.Fault("http.reset." + n); ok {
		note(nil, "lost")
		c.Reset(c.lat)
		return
	}
	if _, ok := s.Fault("http.hole." + n); ok {
		note(nil, "hole")
		return // the request or its answer is lost
	}
	var resp *HTTPResp
	bad := true
	if fr, ok := s.Fault("http.5xx." + n); ok {
		resp = &HTTPResp{Status: pick(fr, 500, 502, 503, 504), Body: []byte("error"), Header: [][2]string{{"Content-Type", "text/plain"}}}
	} else if fr, ok := s.Fault("http.429." + n); ok {
		resp = &HTTPResp{Status: 429, Body: []byte("slow down")}
		if fr.P(500) {
			resp.Header = [][2]string{{"Retry-After", strconv.Itoa(1 + fr.N(60))}}
		}
	} else if fr, ok := s.Fault("http.4xx." + n); ok {
		resp = &HTTPResp{Status: pick(fr, 400, 403, 404, 410), Body: []byte("no")}
	} else {
		resp = v.handler(r)
		bad = false
	}
	if resp == nil {
		return
	}
	s.Log("http %s %s %s -> %d (%d bytes)", n, r.Method, r.Path, resp.Status, len(resp.Body))
	delay := resp.Delay + s.rnd.Range(0, 5*msec)
	if fr, ok := s.Fault("http.slow." + n); ok {
		delay += fr.Range(1*sec, 90*sec)
	}
	var hb bytes.Buffer
	fmt.Fprintf(&hb, "HTTP/1.1 %d X\r\n", resp.Status)
	has := false
	for _, kv := range resp.Header {
		fmt.Fprintf(&hb, "%s: %s\r\n", kv[0], kv[1])
		has = has || strings.EqualFold(kv[0], "Content-Type")
	}
	if !has {
		fmt.Fprintf(&hb, "Content-Type: application/octet-stream\r\n")
	}
	body := resp.Body
	if fr, ok := s.Fault("http.truncclose." + n); ok && r.Method != "HEAD" && len(body) > 0 && !strings.Contains(r.Path, "/issuer/") {
		// a body delimited by the end of the connection, cut short
		fmt.Fprintf(&hb, "Connection: close\r\n\r\n")
		note(resp, "cut")
		c.Send(append(hb.Bytes(), resp.cut(fr)...), delay)
		c.EOF(delay)
		return
	}
	fmt.Fprintf(&hb, "Content-Length: %d\r\n\r\n", len(body))
	if r.Method == "HEAD" {
		note(resp, "whole")
		c.Send(hb.Bytes(), delay)
		return
	}
	if fr, ok := s.Fault("http.trunc." + n); ok && len(body) > 0 {
		note(resp, "lost")
		c.Send(append(hb.Bytes(), resp.cut(fr)...), delay)
		if fr.P(500) {
			c.EOF(delay)
		} else {
			c.Reset(delay + c.lat + 1)
		}
		return
	}
	if bad {
		note(resp, "error")
	} else {
		note(resp, "whole")
	}
	if fr, ok := s.Fault("http.drip." + n); ok && len(body) > 4 {
		k := 1 + fr.N(len(body)-1)
		c.Send(append(hb.Bytes(), body[:k]...), delay)
		c.Send(body[k:], delay+fr.Range(1*sec, 40*sec))
		return
	}
	c.Send(append(hb.Bytes(), body...), delay)
	if resp.Sent != nil && delay < 4*sec { // the client waits 10 s for an answer
		s.After(c.lat+delay, resp.Sent)
	}
}

// Get performs a GET against a listener of the process; done receives the
// status (0: connection failed) and body.
func (p *Proc) Get(addr, path string, done func(status int, body string)) {
	var buf []byte
	fin := false
	finish := func(st int, b string) {
		if !fin {
			fin = true
			done(st, b)
		}
	}
	var c *Conn
	c = p.Connect(addr, func(b []byte) {
		buf = append(buf, b...)
		i := bytes.Index(buf, []byte("\r\n\r\n"))
		if i < 0 {
			return
		}
		head := strings.Split(string(buf[:i]), "\r\n")
		f := strings.SplitN(head[0], " ", 3)
		st, _ := strconv.Atoi(f[1])
		n := 0
		for _, l := range head[1:] {
			k, v, _ := strings.Cut(l, ":")
			if strings.EqualFold(k, "content-length") {
				n, _ = strconv.Atoi(strings.TrimSpace(v))
			}
		}
		if len(buf)-i-4 >= n {
			finish(st, string(buf[i+4:i+4+n]))
			c.EOF(0)
		}
	}, func() { finish(0, "") })
	if c == nil {
		finish(0, "")
		return
	}
	c.Send([]byte("GET "+path+" HTTP/1.1\r\nHost: x\r\nConnection: close\r\n\r\n"), 0)
}

func sortStrings(x []string) []string { sort.Strings(x); return x }
