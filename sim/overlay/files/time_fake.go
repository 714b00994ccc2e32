//go:build faketime && !windows

package runtime

import "unsafe"

var faketime int64 = 1257894000000000000

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return faketime
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	w := faketime + simWallOff
	return w / 1e9, int32(w % 1e9), faketime
}

//go:nowritebarrierrec
func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	return write1(fd, p, n)
}
