package main

import (
	"fmt"
	"os"
	"path/filepath"
	"syscall"
	"unsafe"
)

// Files in memory can be sealed: what they refuse from then on fails like it
// does on a full or failing disk, whoever asks for it.
const (
	sealShrink = 2
	sealGrow   = 4
	sealWrite  = 8
)

// memfile replaces the file at path by a link to a file in memory with data.
func memfile(path string, data []byte) *os.File {
	name := []byte("vp\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 2|1, 0) // memfd_create, may be sealed
	if e != 0 {
		harnessError("memfd_create: %v", e)
	}
	f := os.NewFile(fd, "memfd")
	if _, e := f.WriteAt(data, 0); e != nil {
		harnessError("%v", e)
	}
	if e := os.MkdirAll(filepath.Dir(path), 0o755); e != nil {
		harnessError("%v", e)
	}
	_ = os.Remove(path)
	if e := os.Symlink(fmt.Sprintf("/proc/%d/fd/%d", os.Getpid(), fd), path); e != nil {
		harnessError("%v", e)
	}
	return f
}

func seal(f *os.File, what uintptr) {
	if _, _, e := syscall.Syscall(syscall.SYS_FCNTL, f.Fd(), 1033, what); e != 0 {
		harnessError("seals: %v", e)
	}
}
