package os

import (
	sim "internal/testlog"
	"syscall"
)

// simOp asks the simulator to schedule a file operation on a path of the
// simulated file system. It returns how many bytes to transfer (or, for
// operations without a size, 1 to perform and 0 to skip it), the error to
// report, and whether the process dies after that.
func simOp(op int, path, path2 string, flag, size int) (n int, err error, die bool) {
	if !sim.Hooked(path) && (op != sim.FRename || !sim.Hooked(path2)) {
		return size, nil, false
	}
	n, e, die := sim.FileOp(op, path, path2, flag, size)
	if e != 0 {
		err = syscall.Errno(e)
	}
	if die && n == 0 {
		sim.Die()
	}
	if n > size {
		n = size
	}
	return n, err, die
}

func simDie(die bool) {
	if die {
		sim.Die()
	}
}

func simStamp(fd int, path string) {
	if !sim.Hooked(path) {
		return
	}
	t := sim.Now()
	ts := []syscall.Timeval{syscall.NsecToTimeval(t), syscall.NsecToTimeval(t)}
	syscall.Futimes(fd, ts)
}

func simStampPath(path string) {
	if !sim.Hooked(path) {
		return
	}
	t := sim.Now()
	ts := []syscall.Timespec{syscall.NsecToTimespec(t), syscall.NsecToTimespec(t)}
	syscall.UtimesNano(path, ts)
}

// simOpen wraps the opening of a file.
func simOpen(name string, flag int, do func() (*File, error)) (*File, error) {
	_, err, die := simOp(sim.FOpen, name, "", flag, 1)
	if err != nil {
		return nil, &PathError{Op: "open", Path: name, Err: err}
	}
	fresh := false
	if flag&O_CREATE != 0 {
		_, e := Lstat(name)
		fresh = e != nil
	}
	f, e := do()
	if e == nil && (fresh || flag&O_TRUNC != 0) {
		simStamp(int(f.pfd.Sysfd), name)
	}
	simDie(die)
	return f, e
}
