//go:build linux

package main

import "syscall"

// guarded copies b into memory of its own which ends right before (or, with
// atStart, starts right after) an inaccessible page, and which is read-only
// itself. Any access beyond it, and any write, is fatal.
func guarded(b []byte, atStart bool) (view []byte, free func()) {
	const page = 4096
	n := (len(b) + page - 1) / page * page
	if n == 0 {
		n = page
	}
	m, err := syscall.Mmap(-1, 0, n+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		return append([]byte(nil), b...), func() {}
	}
	off := page + n - len(b)
	if atStart {
		off = page
	}
	copy(m[off:], b)
	_ = syscall.Mprotect(m[:page], syscall.PROT_NONE)
	_ = syscall.Mprotect(m[page:page+n], syscall.PROT_READ)
	_ = syscall.Mprotect(m[page+n:], syscall.PROT_NONE)
	return m[off : off+len(b) : off+len(b)], func() { _ = syscall.Munmap(m) }
}
