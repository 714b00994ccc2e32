package main

import (
	"container/heap"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

const (
	usec = int64(1000)
	msec = 1000 * usec
	sec  = 1000 * msec
	min_ = 60 * sec
	hour = 60 * min_
	day  = 24 * hour
)

// Rng is a small seeded generator; every choice of a run comes from one.
type Rng struct{ s uint64 }

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func NewRng(parts ...any) *Rng {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	return &Rng{mix(h.Sum64())}
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) Range(lo, hi int64) int64 {
	if hi <= lo {
		return lo
	}
	return lo + int64(r.U64()%uint64(hi-lo+1))
}
func (r *Rng) P(permille int) bool { return r.N(1000) < permille }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.U64() >> 33)
	}
	return b
}
func pick[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }
func (r *Rng) Fork(parts ...any) *Rng {
	return NewRng(append([]any{r.U64()}, parts...)...)
}

type event struct {
	at  int64
	seq uint64
	run func()
}
type eventHeap []*event

func (h eventHeap) Len() int { return len(h) }
func (h eventHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h eventHeap) Swap(i, j int) { h[i], h[j] = h[j], h[i] }
func (h *eventHeap) Push(x any)   { *h = append(*h, x.(*event)) }
func (h *eventHeap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

// Violation is one observed breach of a property.
type Violation struct {
	Property string `json:"property"`
	Class    string `json:"class"` // stable across replays and minimisation
	Detail   string `json:"detail"`
	At       int64  `json:"at_ns"`
}

// errBudget ends a run that used up its event budget; it is no verdict.
var errBudget = errors.New("event budget used up")

// errStopped ends a run that has shown the violation it is watched for.
var errStopped = errors.New("stopped at the violation")

// harnessError is trouble of the simulator itself, never a violation.
type harnessError struct{ msg string }

func (e harnessError) Error() string { return e.msg }

func harness(format string, a ...any) { panic(harnessError{fmt.Sprintf(format, a...)}) }

// Sim is one simulated world.
// staleProps are the properties that break when a process that was stalled
// goes on with a commit after its lock expired or was lost (a known finding).
var staleProps = map[string]bool{"C01": true, "C03": true, "C04": true, "C09": true, "C10": true, "C11": true, "C13": true}

type Sim struct {
	stale     bool // a stalled process went on with a commit although it had lost the lock
	Plan      *Plan
	Now       int64
	Start     int64
	q         eventHeap
	seq       uint64
	nev       int
	maxEv     int
	Root      string // scratch directory of this run
	Bin       string
	rnd       *Rng // latencies and other incidental choices
	procs     []*Proc
	nextPid   int
	hosts     map[string]*Host
	digest    uint64
	traceW    *os.File
	faultsOn  bool
	fcount    map[string]int
	Fired     []string
	allow     map[string]bool
	Viol      []Violation
	Probes    map[string]int
	schedH    uint64
	yields    uint64
	tail      []string
	tgt       *target // the violation that ends the run
	stopped   bool
	onViolate func(v Violation)
	conns     map[uint64]*Conn
	nextConn  uint64
	lastFault map[string]int64 // kind group ("", redis, disk, http, ...) -> last time
	OnDial    func(p *Proc, h *Host)
	fsHooks   []func(p *Proc, op *FileOp) // called when a file operation is granted
	kernel    []func(p *Proc)             // called whenever a process has run
}

func NewSim(plan *Plan, root, bin string) *Sim {
	s := &Sim{Plan: plan, Root: root, Bin: bin, hosts: map[string]*Host{}, fcount: map[string]int{}, Probes: map[string]int{}, conns: map[uint64]*Conn{}}
	s.rnd = NewRng(plan.Seed, "sim")
	s.maxEv = 600000
	if plan.Allow != nil {
		s.allow = map[string]bool{}
		for _, a := range *plan.Allow {
			s.allow[a] = true
		}
	}
	s.Start = plan.Start
	s.Now = s.Start
	return s
}

func (s *Sim) Log(format string, a ...any) {
	line := fmt.Sprintf("%12.6f ", float64(s.Now-s.Start)/1e9) + fmt.Sprintf(format, a...)
	h := fnv.New64a()
	h.Write([]byte(line))
	s.digest = mix(s.digest*31 + h.Sum64())
	if s.traceW != nil {
		fmt.Fprintln(s.traceW, line)
	}
	s.tail = append(s.tail, line)
	if len(s.tail) > 400 {
		s.tail = append([]string(nil), s.tail[200:]...)
	}
}

func (s *Sim) Probe(name string) { s.Probes[name]++ }

func (s *Sim) Violate(prop, class, format string, a ...any) {
	d := fmt.Sprintf(format, a...)
	if s.stale && staleProps[prop] && !strings.Contains(class, "lost-by-wipe") {
		d = class + ": " + d
		class = "stale-holder"
	}
	for _, v := range s.Viol {
		if v.Property == prop && v.Class == class {
			return
		}
	}
	s.Log("VIOLATION %s/%s: %s", prop, class, d)
	v := Violation{prop, class, d, s.Now - s.Start}
	s.Viol = append(s.Viol, v)
	if s.tgt.match(&v) {
		s.stopped = true
	}
	if s.onViolate != nil {
		s.onViolate(v)
	}
}

func (s *Sim) At(t int64, f func()) {
	if t < s.Now {
		t = s.Now
	}
	s.seq++
	heap.Push(&s.q, &event{t, s.seq, f})
}
func (s *Sim) After(d int64, f func()) { s.At(s.Now+d, f) }

// Fault decides whether the fault `kind` happens here. Each decision is keyed
// by kind and occurrence so that a replay can pin exactly the ones that did.
func (s *Sim) Fault(kind string) (*Rng, bool) {
	if !s.faultsOn {
		return nil, false
	}
	rate := s.Plan.Rates[kind]
	if rate == 0 {
		return nil, false
	}
	i := s.fcount[kind]
	s.fcount[kind] = i + 1
	r := NewRng(s.Plan.Seed, kind, i)
	hit := r.N(100000) < rate
	key := fmt.Sprintf("%s#%d", kind, i)
	if s.allow != nil {
		hit = s.allow[key]
	}
	if hit {
		s.Trouble(kind[:strings.IndexByte(kind, '.')])
		s.Fired = append(s.Fired, key)
		s.Log("FAULT %s", key)
	}
	return r, hit
}

// Trouble notes that something of the given group went wrong now.
func (s *Sim) Trouble(group string) { s.TroubleUntil(group, s.Now) }

func (s *Sim) TroubleUntil(group string, t int64) {
	if s.lastFault == nil {
		s.lastFault = map[string]int64{}
	}
	for _, g := range []string{"", group} {
		if t >= s.lastFault[g] {
			s.lastFault[g] = t
		}
	}
}

// TroubledSince: did trouble of one of the groups touch [t, now]?
func (s *Sim) TroubledSince(t int64, groups ...string) bool {
	for _, g := range groups {
		if at, ok := s.lastFault[g]; ok && at >= t {
			return true
		}
	}
	return false
}

// Run processes events until `until` or until stop reports true.
func (s *Sim) Run(until int64, stop func() bool) error {
	for {
		if s.stopped {
			return errStopped
		}
		if stop != nil && stop() {
			return nil
		}
		if len(s.q) == 0 || s.q[0].at > until {
			if until > s.Now {
				s.Now = until
			}
			return nil
		}
		e := heap.Pop(&s.q).(*event)
		s.Now = e.at
		s.nev++
		if s.nev > s.maxEv {
			return errBudget
		}
		e.run()
	}
}

// ---- processes ----

// Proc is one incarnation of a simulated program.
type Proc struct {
	s        *Sim
	Name     string
	ID       int
	cmd      *exec.Cmd
	sock     *os.File
	alive    bool
	ExitCode int
	Started  int64
	Ended    int64
	onExit   func()
	wakeGen  uint64
	stalled  int64
	backlog  []byte
	dieAfter bool
	listen   map[string]uint64
	conns    []*Conn
	nFileOps int
	nRedis   int
	Killed   bool
	Host     string
	stderr   string
	cfg      ProcCfg
	schedH   uint64
	yields   uint64
	tokens   map[string]bool  // commit lock tokens this process has taken
	sthN     map[string]int   // log -> tree heads asked for
	sthAt    map[string]int64 // log -> when it last asked for one
	dialAt   map[string]int64 // host -> last connection attempt
	savedN   map[string]int   // log -> log states saved
	busyAt   int64            // when it was last seen to do anything about a log
	roundAt  int64            // when it last certainly completed a round
	getAt    map[string]int64 // log -> when it last loaded the log's state
	termAt   int64            // when it was asked to stop
	offAt    map[string]int64 // log -> when this process learned it is not enrolled
	stallN   int
	lockOpen bool // took the commit lock and has not released it
	lockAt   int  // stallN when it took the lock
}

type ProcCfg struct {
	Bin     string
	Args    []string
	Env     []string
	WallOff int64
	OnStart func(p *Proc)
	OnExit  func(p *Proc)
	Stdout  string
}

const simMagic = 0x63726c73696d3031

func (s *Sim) Spawn(name string, cfg ProcCfg) *Proc {
	s.nextPid++
	p := &Proc{s: s, Name: name, ID: s.nextPid, alive: true, Started: s.Now, listen: map[string]uint64{}, sthN: map[string]int{}, sthAt: map[string]int64{}, dialAt: map[string]int64{}, savedN: map[string]int{}, offAt: map[string]int64{}, getAt: map[string]int64{}, cfg: cfg, Host: name}
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		harness("socketpair: %v", err)
	}
	syscall.SetsockoptInt(fds[0], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 4<<20)
	syscall.SetsockoptInt(fds[1], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 4<<20)
	p.sock = os.NewFile(uintptr(fds[0]), "sim")
	child := os.NewFile(uintptr(fds[1]), "child")
	p.stderr = filepath.Join(s.Root, fmt.Sprintf("log.%02d.%s", p.ID, name))
	errf, err := os.Create(p.stderr)
	if err != nil {
		harness("%v", err)
	}
	cmd := exec.Command(filepath.Join(s.Bin, cfg.Bin), cfg.Args...)
	cmd.Env = append([]string{"HOME=" + filepath.Join(s.Root, "home"), "TMPDIR=" + s.TmpDir(), "GOGC=off", "GOMEMLIMIT=2GiB", "GODEBUG=gcstoptheworld=2", "GOTRACEBACK=all", "TZ=UTC", "PATH=/usr/bin:/bin"}, cfg.Env...)
	cmd.Dir = s.Root
	cmd.ExtraFiles = []*os.File{child}
	cmd.Stdout = errf
	cmd.Stderr = errf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		harness("start %s: %v", cfg.Bin, err)
	}
	child.Close()
	errf.Close()
	p.cmd = cmd
	root := s.Root + "/fs"
	var h [56]byte
	seed := NewRng(s.Plan.Seed, "proc", p.ID, name).U64()
	for i, v := range []uint64{simMagic, uint64(s.Now), seed, uint64(s.Plan.PickRnd), uint64(s.Plan.YieldPr), uint64(len(root)), uint64(cfg.WallOff)} {
		binary.LittleEndian.PutUint64(h[8*i:], v)
	}
	s.procs = append(s.procs, p)
	if cfg.OnStart != nil {
		cfg.OnStart(p)
	}
	s.Log("start %s#%d %s", name, p.ID, strings.ReplaceAll(strings.Join(cfg.Args, " "), s.Root, "$ROOT"))
	if _, err := p.sock.Write(append(h[:], root...)); err != nil {
		harness("hello: %v", err)
	}
	p.pump()
	return p
}

// TmpDir is where programs put temporary files: a file system of its own, or
// the one persistent storage is on.
func (s *Sim) TmpDir() string {
	d := filepath.Join(s.Root, "tmp")
	if s.Plan.Cfg.TmpOnDisk {
		d = filepath.Join(s.Root, "fs", "tmp")
	}
	os.MkdirAll(d, 0755)
	return d
}

func (p *Proc) Alive() bool { return p.alive }

func (p *Proc) Stderr() string {
	b, _ := os.ReadFile(p.stderr)
	return string(b)
}

// send hands events to the process and lets it run until it is idle again.
func (p *Proc) send(ev []byte) {
	if !p.alive {
		return
	}
	if p.stalled > p.s.Now {
		p.backlog = append(p.backlog, ev...)
		return
	}
	if len(p.backlog) > 0 {
		ev = append(p.backlog, ev...)
		p.backlog = nil
	}
	var h [16]byte
	binary.LittleEndian.PutUint64(h[:], uint64(len(ev)))
	binary.LittleEndian.PutUint64(h[8:], uint64(p.s.Now))
	if _, err := p.sock.Write(append(h[:], ev...)); err != nil {
		p.reap()
		return
	}
	p.pump()
}

// Stall freezes the process (a paused VM, a swapped-out host) for d.
func (p *Proc) Stall(d int64) {
	if !p.alive {
		return
	}
	p.stalled = p.s.Now + d
	p.stallN++
	p.s.TroubleUntil("stall", p.stalled)
	p.s.At(p.stalled, func() {
		if p.alive && p.stalled <= p.s.Now {
			p.send(nil)
		}
	})
}

// Resume ends a stall.
func (p *Proc) Resume() {
	if p.alive && p.stalled > p.s.Now {
		p.stalled = p.s.Now
		p.s.After(0, func() { p.send(nil) })
	}
}

func (p *Proc) readFull(b []byte) bool {
	p.sock.SetReadDeadline(time.Now().Add(60 * time.Second))
	n := 0
	for n < len(b) {
		k, err := p.sock.Read(b[n:])
		if k > 0 {
			n += k
		}
		if err != nil {
			if errors.Is(err, os.ErrDeadlineExceeded) {
				harness("process %s#%d used 60 s of real time in one step", p.Name, p.ID)
			}
			return false
		}
	}
	return true
}

func (p *Proc) pump() {
	var h [40]byte
	for {
		if !p.readFull(h[:]) {
			p.reap()
			return
		}
		n := binary.LittleEndian.Uint64(h[:])
		kind := binary.LittleEndian.Uint64(h[8:])
		poll := int64(binary.LittleEndian.Uint64(h[16:]))
		p.schedH = binary.LittleEndian.Uint64(h[24:])
		p.yields = binary.LittleEndian.Uint64(h[32:])
		body := make([]byte, n)
		if n > 0 && !p.readFull(body) {
			p.reap()
			return
		}
		p.ops(body)
		if kind == 1 {
			p.wakeGen++
			gen := p.wakeGen
			if poll > 0 {
				p.s.At(poll, func() {
					if p.alive && p.wakeGen == gen {
						p.send(nil)
					}
				})
			}
			for _, f := range p.s.kernel {
				f(p)
			}
			return
		}
	}
}

func (p *Proc) reap() {
	if !p.alive {
		return
	}
	p.alive = false
	p.Ended = p.s.Now
	p.sock.Close()
	err := p.cmd.Wait()
	p.ExitCode = 0
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			ws := ee.Sys().(syscall.WaitStatus)
			if ws.Signaled() {
				p.ExitCode = 128 + int(ws.Signal())
			} else {
				p.ExitCode = ws.ExitStatus()
			}
		} else {
			harness("wait: %v", err)
		}
	}
	if p.ExitCode >= 120 && p.ExitCode <= 126 {
		harness("process %s#%d: simulator runtime error %d", p.Name, p.ID, p.ExitCode)
	}
	if p.ExitCode == 137 {
		p.Killed = true
	}
	p.s.schedH = mix(p.s.schedH ^ p.schedH)
	p.s.yields += p.yields
	p.s.Log("exit %s#%d code=%d sched=%x", p.Name, p.ID, p.ExitCode, p.schedH)
	for _, c := range p.conns {
		c.procGone()
	}
	for _, f := range p.s.kernel {
		f(p)
	}
	if p.cfg.OnExit != nil {
		p.cfg.OnExit(p)
	}
}

// Kill ends the process abruptly.
func (p *Proc) Kill() {
	if !p.alive {
		return
	}
	p.s.Log("kill %s#%d", p.Name, p.ID)
	p.s.Trouble("crash")
	p.cmd.Process.Signal(syscall.SIGKILL)
	p.reap()
}

// Signal delivers a catchable signal.
func (p *Proc) Signal(sig int) {
	if !p.alive {
		return
	}
	p.termAt = p.s.Now
	p.s.Log("signal %d -> %s#%d", sig, p.Name, p.ID)
	p.send(frame(6, uint64(sig), nil))
}

func frame(kind uint32, id uint64, body []byte) []byte {
	b := make([]byte, 16, 16+len(body))
	binary.LittleEndian.PutUint32(b, kind)
	binary.LittleEndian.PutUint32(b[4:], uint32(len(body)))
	binary.LittleEndian.PutUint64(b[8:], id)
	return append(b, body...)
}

func (p *Proc) ops(body []byte) {
	for len(body) >= 16 {
		kind := binary.LittleEndian.Uint32(body)
		n := binary.LittleEndian.Uint32(body[4:])
		id := binary.LittleEndian.Uint64(body[8:])
		b := body[16 : 16+n]
		body = body[16+n:]
		switch kind {
		case 1:
			p.fileOp(id, b)
		case 2:
			p.dial(id, binary.LittleEndian.Uint64(b), string(b[8:]))
		case 3:
			if c := p.s.conns[p.connKey(id)]; c != nil {
				c.fromProc(append([]byte(nil), b...))
			}
		case 4:
			if c := p.s.conns[p.connKey(id)]; c != nil {
				c.procClosed()
			}
		case 5:
			p.listenOp(id, binary.LittleEndian.Uint64(b), string(b[8:]))
		case 6:
			for a, l := range p.listen {
				if l == id {
					delete(p.listen, a)
				}
			}
		case 8:
			p.s.Log("%s#%d calls exit(%d)", p.Name, p.ID, int64(binary.LittleEndian.Uint64(b)))
		case 9:
			p.s.Log("%s#%d trace %s", p.Name, p.ID, b)
		default:
			harness("unknown op %d", kind)
		}
	}
}

func (s *Sim) KillAll() {
	for _, p := range s.procs {
		if p.alive {
			p.cfg.OnExit = nil
			p.Kill()
		}
	}
}

// ---- file operations ----

const (
	FOpen = iota + 1
	FRead
	FWrite
	FSync
	FClose
	FRename
	FRemove
	FMkdir
	FReadDir
	FChtimes
	FTruncate
	FLink
	FStat
)

var fopName = []string{"", "open", "read", "write", "fsync", "close", "rename", "remove", "mkdir", "readdir", "chtimes", "truncate", "link", "stat"}

type FileOp struct {
	Op    int
	Flag  int
	Size  int
	Path  string
	Path2 string
}

func (o *FileOp) Mutates() bool {
	switch o.Op {
	case FWrite, FRename, FRemove, FMkdir, FChtimes, FTruncate, FLink, FSync:
		return true
	case FOpen:
		return o.Flag&(syscall.O_CREAT|syscall.O_TRUNC) != 0
	}
	return false
}

func (p *Proc) fileOp(id uint64, b []byte) {
	s := p.s
	op := &FileOp{Op: int(binary.LittleEndian.Uint32(b)), Flag: int(binary.LittleEndian.Uint32(b[4:])), Size: int(binary.LittleEndian.Uint64(b[8:]))}
	n1 := binary.LittleEndian.Uint32(b[16:])
	n2 := binary.LittleEndian.Uint32(b[20:])
	op.Path = string(b[24 : 24+n1])
	op.Path2 = string(b[24+n1 : 24+n1+n2])
	d := s.rnd.Range(5*usec, 120*usec)
	if s.rnd.N(64) == 0 {
		d = s.rnd.Range(1*msec, 60*msec)
	}
	if r, ok := s.Fault("disk.slow"); ok {
		d = r.Range(1*sec, 30*sec)
	}
	s.After(d, func() {
		if !p.alive {
			return
		}
		p.nFileOps++
		n, errno, die := s.verdict(p, op)
		if op.Op != FRead && op.Op != FClose || errno != 0 || die {
			s.Log("fs %s#%d %s %s %s size=%d -> n=%d errno=%d die=%v", p.Name, p.ID, fopName[op.Op], s.rel(op.Path), s.rel(op.Path2), op.Size, n, errno, die)
		}
		if errno == 0 {
			for _, f := range s.fsHooks {
				f(p, op)
			}
		}
		var r [16]byte
		binary.LittleEndian.PutUint64(r[:], uint64(n))
		binary.LittleEndian.PutUint32(r[8:], uint32(errno))
		if die {
			r[12] = 1
		}
		p.send(frame(1, id, r[:]))
	})
}

func (s *Sim) rel(path string) string {
	if strings.HasPrefix(path, s.Root) {
		return path[len(s.Root)+3:]
	}
	return path
}

// verdict decides what happens to a file operation.
func (s *Sim) verdict(p *Proc, op *FileOp) (n, errno int, die bool) {
	n = op.Size
	if op.Op == FRename && !strings.HasPrefix(op.Path, s.Root+"/fs/") {
		// the directory for temporary files is another file system
		return 0, int(syscall.EXDEV), false
	}
	if op.Mutates() {
		if r, ok := s.Fault("crash.fs." + p.Name); ok {
			// die before, in the middle of, or right after the operation
			switch op.Op {
			case FWrite:
				return r.N(op.Size + 1), 0, true
			default:
				return r.N(2), 0, true
			}
		}
	}
	switch op.Op {
	case FWrite:
		if r, ok := s.Fault("disk.enospc"); ok {
			return r.N(op.Size + 1), int(syscall.ENOSPC), false
		}
		if r, ok := s.Fault("disk.eio.write"); ok {
			return r.N(op.Size + 1), int(syscall.EIO), false
		}
	case FOpen:
		if op.Flag&syscall.O_CREAT != 0 {
			if _, ok := s.Fault("disk.enospc.create"); ok {
				return 0, int(syscall.ENOSPC), false
			}
		} else if r, ok := s.Fault("disk.eopen"); ok {
			return 0, int(pick(r, syscall.EIO, syscall.EMFILE)), false
		}
	case FRead:
		if _, ok := s.Fault("disk.eio.read"); ok {
			return 0, int(syscall.EIO), false
		}
		if r, ok := s.Fault("disk.shortread"); ok && op.Size > 1 {
			return 1 + r.N(op.Size-1), 0, false
		}
	case FSync, FClose:
		if r, ok := s.Fault("disk.eio.sync"); ok {
			return 0, int(pick(r, syscall.EIO, syscall.ENOSPC)), false
		}
	case FRename, FLink, FMkdir:
		if r, ok := s.Fault("disk.eio.rename"); ok {
			return 0, int(pick(r, syscall.EIO, syscall.ENOSPC)), false
		}
	case FRemove:
		if r, ok := s.Fault("disk.eio.remove"); ok {
			return 0, int(pick(r, syscall.EIO, syscall.EROFS)), false
		}
	case FChtimes:
		if _, ok := s.Fault("disk.eio.chtimes"); ok {
			return 0, int(syscall.EIO), false
		}
	}
	return n, 0, false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
