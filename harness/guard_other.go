//go:build !linux

package main

func guarded(b []byte, atStart bool) (view []byte, free func()) {
	return append([]byte(nil), b...), func() {}
}
