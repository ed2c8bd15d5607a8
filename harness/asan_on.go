//go:build asan

package main

const asanEnabled = true
