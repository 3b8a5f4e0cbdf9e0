//go:build !amd64

package main

// getg identifies the current goroutine while it lives.
func getg() uintptr { return uintptr(goid()) }
