//go:build linux

package main

import (
	"os"
	"syscall"
	"time"
)

// processCPU is the CPU time this process has used.
func processCPU() time.Duration {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// limitMemory turns runaway allocation into a crash of this process.
func limitMemory() {
	if raceEnabled || asanEnabled || os.Getenv("VERIF_NOLIMIT") != "" {
		return
	}
	n := uint64(5 << 30)
	if ^uint(0)>>32 == 0 {
		n = 3 << 30
	}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: 24 << 30})
}

// bigZeros maps n zero bytes, which take up no memory until written to. The
// function returned unmaps them. From now on this process may use more memory,
// since the code under test may copy them.
func bigZeros(n int) ([]byte, func()) {
	var l syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_AS, &l)
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: l.Max, Max: l.Max})
	b, err := syscall.Mmap(-1, 0, n, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, func() {}
	}
	return b, func() { _ = syscall.Munmap(b) }
}
