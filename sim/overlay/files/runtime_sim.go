// Deterministic-simulation support added to package runtime by overlay.
// Nothing here is part of the shipped program: these files exist only in the
// binaries that /verif builds for the simulator.

package runtime

import (
	"internal/runtime/math"
	"unsafe"
)

const (
	simBufSize = 8 << 20
	simFD      = 3
)

var (
	simOn     bool
	simReady  bool // the event pump is parked and may be resumed
	simPumpG  *g
	simOutBuf *[simBufSize]byte
	simInBuf  *[simBufSize]byte
	simOutLen int
	simInLen  int

	simSched    uint64 // PRNG for scheduling decisions
	simRandom   uint64 // PRNG for everything the program may observe
	simPickRnd  uint32 // /1024: probability of picking a runnable goroutine at random
	simYieldPr  uint32 // /1024: probability of yielding at a synchronisation point
	simInYield  bool
	simRootLen  int
	simRootBuf  [512]byte
	simPicks    uint64
	simRndPicks uint64
	simYields   uint64
	simHash     uint64 // digest of the sequence of scheduling decisions
	simWallOff  int64  // wall clock minus simulated time on this machine
)

var simHello [56]byte

const simHdr = 40

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0xa0761d6478bd642f
	hi, lo := math.Mul64(*s, *s^0xe7037ed1a0b428db)
	x := hi ^ lo
	x ^= x >> 29
	return x
}

// simCheap replaces the runtime's own randomness where it decides what the
// program does: the order of a select's cases and of a semaphore's waiters.
//
//go:nosplit
func simCheap() uint32 {
	if simOn {
		return uint32(simMix(&simSched) >> 32)
	}
	return cheaprand()
}

func simReadFull(p unsafe.Pointer, n int) {
	for n > 0 {
		r := read(simFD, p, int32(n))
		if r == -4 { // EINTR
			continue
		}
		if r <= 0 {
			exit(120)
		}
		p = add(p, uintptr(r))
		n -= int(r)
	}
}

func simWriteFull(p unsafe.Pointer, n int) {
	for n > 0 {
		r := write1(simFD, p, int32(n))
		if r == -4 {
			continue
		}
		if r <= 0 {
			exit(121)
		}
		p = add(p, uintptr(r))
		n -= int(r)
	}
}

// simInit runs first thing on the main goroutine: it reads the hello message.
func simInit() {
	simReadFull(unsafe.Pointer(&simHello[0]), 56)
	rd := func(o int) uint64 {
		return *(*uint64)(unsafe.Pointer(&simHello[o]))
	}
	if rd(0) != 0x63726c73696d3031 {
		exit(122)
	}
	faketime = int64(rd(8))
	simSched = rd(16) ^ 0x9e3779b97f4a7c15
	simRandom = rd(16)*0xbf58476d1ce4e5b9 + 12345
	simPickRnd = uint32(rd(24))
	simYieldPr = uint32(rd(32))
	simRootLen = int(rd(40))
	simWallOff = int64(rd(48))
	if simRootLen > len(simRootBuf) {
		exit(123)
	}
	if simRootLen > 0 {
		simReadFull(unsafe.Pointer(&simRootBuf[0]), simRootLen)
	}
	simOutBuf = (*[simBufSize]byte)(sysAlloc(simBufSize, &memstats.other_sys))
	simInBuf = (*[simBufSize]byte)(sysAlloc(simBufSize, &memstats.other_sys))
	simOutLen = simHdr
	simOn = true
}

// simFlush sends the pending output. kind 1: idle, wants a reply. 2: no reply.
//
//go:nosplit
func simFlush(kind uint64, pollUntil int64) {
	b := unsafe.Pointer(simOutBuf)
	*(*uint64)(b) = uint64(simOutLen - simHdr)
	*(*uint64)(add(b, 8)) = kind
	*(*int64)(add(b, 16)) = pollUntil
	*(*uint64)(add(b, 24)) = simHash
	*(*uint64)(add(b, 32)) = simYields
	n := simOutLen
	simOutLen = simHdr
	systemstack(func() { simWriteFull(b, n) })
}

// beforeIdle is called by the scheduler when no goroutine can run: hand
// control to the simulator and continue when it says so.
func beforeIdle(now, pollUntil int64) (*g, bool) {
	if !simOn {
		return nil, false
	}
	if pollUntil != 0 && pollUntil <= faketime {
		return nil, true
	}
	simFlush(1, pollUntil)
	b := unsafe.Pointer(simInBuf)
	simReadFull(b, 16)
	n := int(*(*uint64)(b))
	t := *(*int64)(add(b, 8))
	if n > simBufSize-16 {
		exit(124)
	}
	if n > 0 {
		simReadFull(b, n)
	}
	if t > faketime {
		faketime = t
	}
	simInLen = n
	if n > 0 {
		if !simReady {
			exit(125)
		}
		gp := simPumpG
		simReady = false
		return gp, false
	}
	return nil, true
}

//go:linkname sim_post internal/testlog.runtime_post
func sim_post(p unsafe.Pointer, n int) {
	if simOutBuf == nil {
		return
	}
	if n+simHdr > simBufSize {
		exit(126)
	}
	if simOutLen+n > simBufSize {
		simFlush(2, 0)
	}
	memmove(add(unsafe.Pointer(simOutBuf), uintptr(simOutLen)), p, uintptr(n))
	simOutLen += n
}

//go:linkname sim_flush internal/testlog.runtime_flush
func sim_flush() {
	if simOutBuf != nil && simOutLen > simHdr {
		simFlush(2, 0)
	}
}

// sim_wait parks the pump until the simulator delivers events.
//
//go:linkname sim_wait internal/testlog.runtime_wait
func sim_wait() []byte {
	simPumpG = getg()
	simReady = true
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
	return unsafe.Slice((*byte)(unsafe.Pointer(simInBuf)), simInLen)
}

//go:linkname sim_rand internal/testlog.runtime_rand64
func sim_rand() uint64 { return simMix(&simRandom) }

//go:linkname sim_now internal/testlog.runtime_now
func sim_now() int64 { return faketime + simWallOff }

//go:linkname sim_root internal/testlog.runtime_root
func sim_root() string { return string(simRootBuf[:simRootLen]) }

//go:linkname sim_exit internal/testlog.runtime_exit
func sim_exit(code int32) { exit(code) }

// simYield is called at synchronisation points of ordinary goroutines.
func simYield() {
	if !simOn || simYieldPr == 0 {
		return
	}
	gp := getg()
	mp := gp.m
	if gp == mp.g0 || gp == mp.gsignal || mp.locks != 0 || mp.preemptoff != "" || mp.mallocing != 0 || gp.lockedm != 0 || panicking.Load() != 0 || gp == simPumpG {
		return
	}
	if uint32(simMix(&simSched)>>32)&1023 >= simYieldPr {
		return
	}
	simYields++
	Gosched()
}

//go:linkname sim_yield internal/sync.runtime_simYield
func sim_yield() { simYield() }

// simFinal is called when main.main returns.
func simFinal() {
	if simOn && simOutLen > simHdr {
		simFlush(2, 0)
	}
}

// simPick moves the goroutine that is to run next to the head of the queue.
func simPick(pp *p) {
	h := pp.runqhead
	n := pp.runqtail - h
	if n < 2 {
		return
	}
	simPicks++
	if simPickRnd == 0 {
		return
	}
	r := simMix(&simSched)
	if uint32(r>>40)&1023 >= simPickRnd {
		return
	}
	simRndPicks++
	k := uint32(r) % n
	simHash = (simHash ^ (simPicks<<8 + uint64(k))) * 0x100000001b3
	gp := pp.runq[(h+k)%uint32(len(pp.runq))]
	for ; k > 0; k-- {
		pp.runq[(h+k)%uint32(len(pp.runq))] = pp.runq[(h+k-1)%uint32(len(pp.runq))]
	}
	pp.runq[h%uint32(len(pp.runq))] = gp
}
