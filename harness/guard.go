package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"
)

// region is a run of writable pages between two inaccessible ones.
type region struct {
	mem  []byte // the whole mapping
	data []byte // the accessible pages
	ro   bool
	off  int // where the current operand starts
	n    int // its size in bytes
}

var pageSize = os.Getpagesize()

func newRegion(size int) *region {
	pages := (size+pageSize-1)/pageSize + 1
	mem, err := syscall.Mmap(-1, 0, (pages+2)*pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	for _, g := range [][]byte{mem[:pageSize], mem[len(mem)-pageSize:]} {
		if err := syscall.Mprotect(g, syscall.PROT_NONE); err != nil {
			panic(err)
		}
	}
	return &region{mem: mem, data: mem[pageSize : len(mem)-pageSize]}
}

func (r *region) protect(ro bool) {
	if ro == r.ro {
		return
	}
	p := syscall.PROT_READ | syscall.PROT_WRITE
	if ro {
		p = syscall.PROT_READ
	}
	if err := syscall.Mprotect(r.data, p); err != nil {
		panic(err)
	}
	r.ro = ro
}

const canary = 0xA5
const canaryBytes = 128

// place reserves n bytes: flush against the upper guard page ("end"), against
// the lower one ("start"), or shift bytes above the lower one.
func (r *region) place(n int, where string, shift int) []byte {
	r.protect(false)
	switch where {
	case "end":
		r.off = len(r.data) - n
	case "start":
		r.off = 0
	default:
		r.off = min(shift, len(r.data)-n)
	}
	r.n = n
	for i := max(0, r.off-canaryBytes); i < r.off; i++ {
		r.data[i] = canary
	}
	for i := r.off + n; i < min(len(r.data), r.off+n+canaryBytes); i++ {
		r.data[i] = canary
	}
	return r.data[r.off : r.off+n]
}

// intact reports the first canary byte overwritten, relative to the operand.
func (r *region) intact() (int, bool) {
	for i := max(0, r.off-canaryBytes); i < r.off; i++ {
		if r.data[i] != canary {
			return i - r.off, false
		}
	}
	for i := r.off + r.n; i < min(len(r.data), r.off+r.n+canaryBytes); i++ {
		if r.data[i] != canary {
			return i - r.off, false
		}
	}
	return 0, true
}

// where describes an address relative to the operand.
func (r *region) where(addr uintptr) string {
	base := uintptr(unsafe.Pointer(&r.mem[0]))
	if addr < base || addr >= base+uintptr(len(r.mem)) {
		return ""
	}
	d := int(addr-base) - pageSize - r.off
	switch {
	case d < 0:
		return fmt.Sprintf("%d bytes before an operand of %d bytes", -d, r.n)
	case d >= r.n:
		return fmt.Sprintf("%d bytes after the end of an operand of %d bytes", d-r.n, r.n)
	}
	return fmt.Sprintf("write at byte %d of a read-only operand of %d bytes", d, r.n)
}

func sliceOf[T any](b []byte) []T {
	var z T
	n := len(b) / int(unsafe.Sizeof(z))
	if n == 0 {
		return []T{}
	}
	return unsafe.Slice((*T)(unsafe.Pointer(unsafe.SliceData(b))), n)
}

var faultSeen bool

// noGC keeps the garbage collector out of the way: collecting after a memory
// fault in an assembly function was seen to hang. tidy collects between cases
// as long as there was no fault.
func noGC() { debug.SetGCPercent(-1) }
func tidy() {
	if !faultSeen {
		runtime.GC()
	}
}

// faults runs f and reports a memory fault or another panic.
func faults(f func()) (addr uintptr, fault bool, other any) {
	old := debug.SetPanicOnFault(true)
	defer debug.SetPanicOnFault(old)
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(interface{ Addr() uintptr }); ok {
				if _, rt := e.(runtime.Error); rt {
					addr, fault, faultSeen = a.Addr(), true, true
					return
				}
			}
			other = e
		}
	}()
	f()
	return
}
