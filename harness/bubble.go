package main

import (
	"fmt"
	"hash/fnv"
	"runtime"
	"testing/synctest"
	_ "unsafe" // For linkname
)

// synctestRun is what testing/synctest's Test is made of. It runs f and what f
// starts with a clock of their own, which advances when all of them wait.
//
//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// virtual runs a part of the case with a clock of its own: hours pass at once, and
// nothing depends on how fast the machine is. All goroutines must end in it. Only
// scripted connections may be used.
func (c *C) virtual(f func()) {
	var thrown any
	depth := 0
	normal := false
	stuck := func() (r any) {
		defer func() { r = recover() }()
		synctestRun(func() {
			defer func() {
				if !normal {
					thrown = recover()
					if fmt.Sprintf("%T", thrown) != "rapid.invalidData" {
						depth = 1 + whence()
					}
				}
			}()
			f()
			normal = true
		})
		return nil
	}()
	switch {
	case thrown != nil:
		rethrow(thrown, depth)
	case stuck != nil:
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		c.Fail("something waits forever: %v\n%s", stuck, quoteLong(string(buf)))
	case !normal:
		panic("the case did not end")
	}
}

// rethrow panics depth levels down, as rapid tells failures apart by the stack.
func rethrow(r any, depth int) {
	if depth > 0 {
		rethrow(r, depth-1)
	}
	panic(r)
}

// whence is a number for the place of the panic that is being recovered from.
func whence() int {
	pcs := make([]uintptr, 40)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(3, pcs)])
	h := fnv.New32a()
	for {
		f, more := frames.Next()
		fmt.Fprintf(h, "%s %d;", f.Function, f.Line)
		if !more {
			return int(h.Sum32() % 15)
		}
	}
}

// settle waits until everybody else waits, for messages or for time to pass.
func settle() { synctest.Wait() }

func quoteLong(s string) string { return fmt.Sprintf("%.3000s", s) }
