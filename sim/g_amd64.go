package main

// getg identifies the current goroutine while it lives.
func getg() uintptr
