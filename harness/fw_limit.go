package main

import (
	"syscall"
	"unsafe"
)

// setLimit bounds the address space of a child, so that an allocation out of
// proportion ends that process and not the sandbox.
func setLimit(pid int) {
	type rlim struct{ cur, max uint64 }
	l := rlim{6 << 30, 6 << 30}
	syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), 9 /* RLIMIT_AS */, uintptr(unsafe.Pointer(&l)), 0, 0, 0)
}
