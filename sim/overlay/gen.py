#!/usr/bin/env python3
"""Generate the build overlay that puts the Go standard library of a simulated
program behind the simulator's seams. Usage: gen.py GOROOT OUTDIR"""
import json, os, sys

goroot, out = sys.argv[1], sys.argv[2]
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'files')
src = os.path.join(goroot, 'src')
os.makedirs(out, exist_ok=True)
repl = {}


def patch(path, *edits):
    full = os.path.join(src, path)
    s = open(full).read()
    for old, new in edits:
        if s.count(old) != 1:
            sys.exit(f'overlay: {path}: {s.count(old)} matches for {old!r}')
        s = s.replace(old, new)
    dst = os.path.join(out, path.replace('/', '__'))
    if not os.path.exists(dst) or open(dst).read() != s:
        open(dst, 'w').write(s)
    repl[full] = dst


def add(path, name):
    repl[os.path.join(src, path)] = os.path.join(here, name)


add('runtime/runtime_sim.go', 'runtime_sim.go')
add('runtime/time_fake.go', 'time_fake.go')
add('internal/testlog/sim.go', 'sim.go')
add('net/net_sim.go', 'net_sim.go')
add('os/os_sim.go', 'os_sim.go')

patch('syscall/time_fake.go', ('const faketime = true', 'const faketime = false'))
patch('runtime/lock_futex.go', ('''func beforeIdle(int64, int64) (*g, bool) {
	return nil, false
}
''', ''))
patch('runtime/os_linux.go', ('	ncpu = getproccount()\n', '	ncpu = 1\n'))
patch('runtime/rand.go',
      ('	if len(startupRand) >= 16 &&', '''	if true {
		for i := range seed {
			seed[i] = byte(i) * 7
		}
	} else if len(startupRand) >= 16 &&'''),
      ('''func rand() uint64 {
''', '''func rand() uint64 {
	if simOn {
		return simMix(&simRandom)
	}
'''),
      # New threads appear at moments the simulator does not decide: they must
      # not draw from its streams. Nor may the runtime's own sampling.
      ('	mp.cheaprand = rand()\n', '	mp.cheaprand = 1\n'))
patch('runtime/mgcscavenge.go', ('''	c <- 1
	scavenger.park()
''', '''	c <- 1
	for simOn { // its pace depends on real time
		gopark(nil, nil, waitReasonGCScavengeWait, traceBlockSystemGoroutine, 2)
	}
	scavenger.park()
'''))
patch('runtime/sema.go', ('	s.ticket = cheaprand() | 1\n', '	s.ticket = simCheap() | 1\n'))
patch('runtime/proc.go',
      ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false'),
      ('''	// Record when the world started.
	// Must be before doInit for tracing init.
''', '''	simInit()

	// Record when the world started.
	// Must be before doInit for tracing init.
'''),
      ('''	// Make racy client program work: if panicking on
''', '''	simFinal()

	// Make racy client program work: if panicking on
'''),
      ('''	// local runq
	if gp, inheritTime := runqget(pp); gp != nil {
		return gp, inheritTime, false
''', '''	// One queue for everything that can run, so that one draw decides.
	for simOn && sched.runqsize != 0 && pp.runqtail-pp.runqhead < uint32(len(pp.runq)) {
		lock(&sched.lock)
		gp := sched.runq.pop()
		sched.runqsize--
		unlock(&sched.lock)
		runqput(pp, gp, false)
	}
	if simOn {
		simPick(pp)
	}

	// local runq
	if gp, inheritTime := runqget(pp); gp != nil {
		return gp, inheritTime, false
'''),
      ('	if pp.schedtick%61 == 0 && sched.runqsize > 0 {', '	if !simOn && pp.schedtick%61 == 0 && sched.runqsize > 0 {'))
patch('runtime/select.go', ('		j := cheaprandn(uint32(norder + 1))\n', '		j := simCheap() % uint32(norder+1)\n'), ('''	gp := getg()
	if debugSelect {
		print("select: cas0=", cas0, "\\n")
''', '''	simYield()
	gp := getg()
	if debugSelect {
		print("select: cas0=", cas0, "\\n")
'''))
patch('runtime/chan.go',
      ('	chansend(c, elem, true, sys.GetCallerPC())\n', '	simYield()\n	chansend(c, elem, true, sys.GetCallerPC())\n'),
      ('	chanrecv(c, elem, true)\n}', '	simYield()\n	chanrecv(c, elem, true)\n}'),
      ('	_, received = chanrecv(c, elem, true)\n', '	simYield()\n	_, received = chanrecv(c, elem, true)\n'))
patch('internal/sync/runtime.go', ('//go:linkname throw\n', '//go:linkname runtime_simYield\nfunc runtime_simYield()\n\n//go:linkname throw\n'))
patch('internal/sync/mutex.go',
      ('''func (m *Mutex) Lock() {
''', '''func (m *Mutex) Lock() {
	runtime_simYield()
'''),
      ('''	new := atomic.AddInt32(&m.state, -mutexLocked)
	if new != 0 {
		// Outlined slow path to allow inlining the fast path.
		// To hide unlockSlow during tracing we skip one extra frame when tracing GoUnblock.
		m.unlockSlow(new)
	}
''', '''	new := atomic.AddInt32(&m.state, -mutexLocked)
	if new != 0 {
		// Outlined slow path to allow inlining the fast path.
		// To hide unlockSlow during tracing we skip one extra frame when tracing GoUnblock.
		m.unlockSlow(new)
	}
	runtime_simYield()
'''))
patch('crypto/internal/sysrand/rand.go',
      ('	"os"\n', '	sim "internal/testlog"\n	"os"\n'),
      ('func Read(b []byte) {\n', 'func Read(b []byte) {\n	if b != nil {\n		sim.Read(b)\n		return\n	}\n'))
patch('os/signal/signal_unix.go',
      ('import (\n', 'import (\n	sim "internal/testlog"\n'),
      ('process(syscall.Signal(signal_recv()))', 'process(syscall.Signal(sim.SignalRecv()))'),
      ('	signal_enable(uint32(sig))\n', '	sim.SignalEnable(uint32(sig))\n'),
      ('	signal_disable(uint32(sig))\n', '	sim.SignalDisable(uint32(sig))\n'))
patch('os/signal/signal.go', ('	signalWaitUntilIdle()\n', ''))
patch('os/exec.go', ('func Getpid() int { return syscall.Getpid() }', 'func Getpid() int { return 4242 }'))
patch('os/sys.go', ('	return hostname()\n', '	return "sim", nil\n'))
patch('net/dial.go',
      ('''	// Shadow the nettrace (if any) during resolve so Connect events don't fire for DNS lookups.
	resolveCtx := ctx
''', '''	if true {
		return simDial(ctx, network, address)
	}

	// Shadow the nettrace (if any) during resolve so Connect events don't fire for DNS lookups.
	resolveCtx := ctx
'''),
      ('''	addrs, err := DefaultResolver.resolveAddrList(ctx, "listen", network, address, nil)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: nil, Err: err}
	}
	sl := &sysListener{
		ListenConfig: *lc,
		network:      network,
		address:      address,
	}
	var l Listener
''', '''	if true {
		return simListen(network, address)
	}
	addrs, err := DefaultResolver.resolveAddrList(ctx, "listen", network, address, nil)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: nil, Err: err}
	}
	sl := &sysListener{
		ListenConfig: *lc,
		network:      network,
		address:      address,
	}
	var l Listener
'''))
patch('net/http/transport.go', ('''		if cm.scheme() == "https" {
			var firstTLSHost string
''', '''		if false && cm.scheme() == "https" {
			var firstTLSHost string
'''))
patch('os/proc.go',
      ('import (\n', 'import (\n	sim "internal/testlog"\n'),
      ('	runtime_beforeExit(code)\n', '	sim.Exit(code)\n	runtime_beforeExit(code)\n'))
patch('os/file.go',
      ('import (\n', 'import (\n	sim "internal/testlog"\n'),
      ('''	n, e := f.read(b)
	return n, f.wrapErr("read", e)
''', '''	if len(b) > 0 && sim.Hooked(f.name) {
		n, e, die := simOp(sim.FRead, f.name, "", 0, len(b))
		simDie(die)
		if e != nil {
			return 0, f.wrapErr("read", e)
		}
		b = b[:n]
	}
	n, e := f.read(b)
	return n, f.wrapErr("read", e)
'''),
      ('''	n, e := f.write(b)
	if n < 0 {
''', '''	if sim.Hooked(f.name) {
		k, serr, die := simOp(sim.FWrite, f.name, "", 0, len(b))
		if k < len(b) || serr != nil || die {
			n, e := f.write(b[:k])
			simStamp(int(f.pfd.Sysfd), f.name)
			simDie(die)
			if e == nil {
				e = serr
			}
			return n, f.wrapErr("write", e)
		}
		defer simStamp(int(f.pfd.Sysfd), f.name)
	}
	n, e := f.write(b)
	if n < 0 {
'''),
      ('''		m, e := f.pread(b, off)
''', '''		if sim.Hooked(f.name) {
			_, e, die := simOp(sim.FRead, f.name, "", 0, len(b))
			simDie(die)
			if e != nil {
				err = f.wrapErr("read", e)
				break
			}
		}
		m, e := f.pread(b, off)
'''),
      ('''		m, e := f.pwrite(b, off)
''', '''		if sim.Hooked(f.name) {
			k, serr, die := simOp(sim.FWrite, f.name, "", 0, len(b))
			if k < len(b) || serr != nil || die {
				m, e := f.pwrite(b[:k], off)
				simDie(die)
				if e == nil {
					e = serr
				}
				n += m
				err = f.wrapErr("write", e)
				break
			}
		}
		m, e := f.pwrite(b, off)
'''),
      ('	n, handled, e := f.readFrom(r)\n	if !handled {', '	n, handled, e := f.readFrom(nil)\n	if !handled {'),
      ('	n, handled, e := f.writeTo(w)\n	if handled {', '	n, handled, e := f.writeTo(nil)\n	if handled {'),
      ('''	longName := fixLongPath(name)
	e := ignoringEINTR(func() error {
		return syscall.Mkdir(longName, syscallMode(perm))
	})
''', '''	_, serr, die := simOp(sim.FMkdir, name, "", 0, 1)
	if serr != nil {
		return &PathError{Op: "mkdir", Path: name, Err: serr}
	}
	longName := fixLongPath(name)
	e := ignoringEINTR(func() error {
		return syscall.Mkdir(longName, syscallMode(perm))
	})
	simDie(die)
'''),
      ('	f, err := openFileNolog(name, flag, perm)\n	if err != nil {', '''	f, err := simOpen(name, flag, func() (*File, error) { return openFileNolog(name, flag, perm) })
	if err != nil {'''),
      ('	return openDirNolog(name)\n', '	return simOpen(name, O_RDONLY, func() (*File, error) { return openDirNolog(name) })\n'),
      ('	return rename(oldpath, newpath)\n', '''	_, serr, die := simOp(sim.FRename, oldpath, newpath, 0, 1)
	if serr != nil {
		return &LinkError{"rename", oldpath, newpath, serr}
	}
	e := rename(oldpath, newpath)
	simDie(die)
	return e
'''))
patch('os/file_unix.go',
      ('import (\n', 'import (\n	sim "internal/testlog"\n'),
      ('''func Truncate(name string, size int64) error {
	e := ignoringEINTR(func() error {
		return syscall.Truncate(name, size)
	})
''', '''func Truncate(name string, size int64) error {
	_, serr, die := simOp(sim.FTruncate, name, "", 0, 1)
	if serr != nil {
		return &PathError{Op: "truncate", Path: name, Err: serr}
	}
	e := ignoringEINTR(func() error {
		return syscall.Truncate(name, size)
	})
	simStampPath(name)
	simDie(die)
'''),
      ('''	// System call interface forces us to know
	// whether name is a file or directory.
''', '''	_, serr, die := simOp(sim.FRemove, name, "", 0, 1)
	if serr != nil {
		return &PathError{Op: "remove", Path: name, Err: serr}
	}
	if die {
		defer sim.Die()
	}
	// System call interface forces us to know
	// whether name is a file or directory.
'''),
      ('''func Link(oldname, newname string) error {
''', '''func Link(oldname, newname string) error {
	_, serr, die := simOp(sim.FLink, newname, oldname, 0, 1)
	if serr != nil {
		return &LinkError{"link", oldname, newname, serr}
	}
	if die {
		defer sim.Die()
	}
'''),
      ('''func Symlink(oldname, newname string) error {
''', '''func Symlink(oldname, newname string) error {
	_, serr, die := simOp(sim.FLink, newname, oldname, 1, 1)
	if serr != nil {
		return &LinkError{"symlink", oldname, newname, serr}
	}
	if die {
		defer sim.Die()
	}
'''))
patch('os/file_posix.go',
      ('import (\n', 'import (\n	sim "internal/testlog"\n'),
      ('	return f.file.close()\n', '''	if f.file != nil && sim.Hooked(f.name) {
		_, serr, die := simOp(sim.FClose, f.name, "", 0, 1)
		simDie(die)
		if serr != nil {
			f.file.close()
			return &PathError{Op: "close", Path: f.name, Err: serr}
		}
	}
	return f.file.close()
'''),
      ('	if e := f.pfd.Fsync(); e != nil {\n', '''	if sim.Hooked(f.name) {
		_, serr, die := simOp(sim.FSync, f.name, "", 0, 1)
		simDie(die)
		if serr != nil {
			return f.wrapErr("sync", serr)
		}
		return nil
	}
	if e := f.pfd.Fsync(); e != nil {
'''),
      ('	if e := f.pfd.Ftruncate(size); e != nil {\n', '''	if sim.Hooked(f.name) {
		_, serr, die := simOp(sim.FTruncate, f.name, "", 0, 1)
		if serr != nil {
			return f.wrapErr("truncate", serr)
		}
		defer simDie(die)
		defer simStamp(int(f.pfd.Sysfd), f.name)
	}
	if e := f.pfd.Ftruncate(size); e != nil {
'''),
      ('	if e := syscall.UtimesNano(fixLongPath(name), utimes[0:]); e != nil {\n', '''	_, serr, die := simOp(sim.FChtimes, name, "", 0, 1)
	if serr != nil {
		return &PathError{Op: "chtimes", Path: name, Err: serr}
	}
	defer simDie(die)
	if e := syscall.UtimesNano(fixLongPath(name), utimes[0:]); e != nil {
'''))
ov = os.path.join(out, 'overlay.json')
json.dump({'Replace': repl}, open(ov, 'w'), indent=1, sort_keys=True)
print(ov)
