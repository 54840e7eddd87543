package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/json"
	"fmt"
	stdio "io"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gotor/torrent"
	"gotor/torrent/fileio"
)

func init() {
	register(&Prop{
		ID: "P38",
		Rule: "The real program is killed while it prepares files in generated states, or the client's storage while it stores pieces, at a generated one of the system calls that change files, before it or in the middle of it, and started again; " +
			"non-trivial: it was killed at such a call (distinct by torrent, state and call).",
		Init: startTracker,
		Subs: []Sub{
			{"prepare", 1200, 12000, p38Prepare},
			{"store", 2400, 24000, p38Store},
		},
	})
}

// ============================================================================
// Killing at a system call ===================================================

// killAt tells when a process is killed: at the n-th call (from 1) that changes
// files, or never if n is 0.
type killAt struct {
	n    int
	torn int // The last call is a write of that many percent of its data, if below 100 and above 0
}

// fate is what became of a process.
type fate struct {
	calls  int  // that change files
	killed bool // at the n-th
	call   string
	code   int
	traced bool
}

const (
	wnothread = 0x20000000
	wall      = 0x40000000
	enosys    = ^uint64(37)
)

// changesFiles tells whether a system call may.
func changesFiles(r *syscall.PtraceRegs) string {
	switch r.Orig_rax {
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV, 296, 328: // pwritev, pwritev2
		if int64(r.Rdi) > 2 {
			return "write"
		}
	case syscall.SYS_OPENAT:
		if r.Rdx&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			return "open"
		}
	case syscall.SYS_OPEN:
		if r.Rsi&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			return "open"
		}
	case syscall.SYS_CREAT, syscall.SYS_TRUNCATE, syscall.SYS_FTRUNCATE:
		return "truncate"
	case syscall.SYS_RENAME, syscall.SYS_RENAMEAT, 316:
		return "rename"
	case syscall.SYS_UNLINK, syscall.SYS_UNLINKAT, syscall.SYS_RMDIR:
		return "remove"
	case syscall.SYS_MKDIR, syscall.SYS_MKDIRAT, syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_SYMLINK, syscall.SYS_SYMLINKAT:
		return "create"
	case syscall.SYS_FALLOCATE, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, 326: // copy_file_range
		return "copy"
	}
	return ""
}

// runUntil runs a program and kills it as told. The program may be ended earlier
// by whoever gets its process id.
func runUntil(k killAt, dir string, env []string, stdout *os.File, stderr *os.File, started func(pid int), path string, args ...string) fate {
	var f fate
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		// Who traces is a thread
		runtime.LockOSThread()
		f = traceUntil(k, dir, env, stdout, stderr, started, path, args...)
		// No UnlockOSThread: the thread ends with this goroutine
	}()
	wg.Wait()
	return f
}

func traceUntil(k killAt, dir string, env []string, stdout *os.File, stderr *os.File, started func(pid int), path string, args ...string) fate {
	f := fate{traced: true}
	attr := &syscall.ProcAttr{
		Dir:   dir,
		Env:   append(os.Environ(), env...),
		Files: []uintptr{0, stdout.Fd(), stderr.Fd()},
		Sys:   &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL},
	}
	pid, e := syscall.ForkExec(path, append([]string{path}, args...), attr)
	if e != nil {
		// Tracing is not allowed here: any moment will do
		attr.Sys = nil
		pid, e = syscall.ForkExec(path, append([]string{path}, args...), attr)
		if e != nil {
			harnessError("%v", e)
		}
		started(pid)
		var timer *time.Timer
		if k.n > 0 {
			timer = time.AfterFunc(time.Duration(k.n)*300*time.Microsecond, func() { _ = syscall.Kill(pid, syscall.SIGKILL) })
		}
		var ws syscall.WaitStatus
		for {
			_, e = syscall.Wait4(pid, &ws, 0, nil)
			if e != syscall.EINTR {
				break
			}
		}
		if timer != nil {
			timer.Stop()
		}
		return fate{code: ws.ExitStatus(), killed: ws.Signaled(), call: "some call"}
	}
	var ws syscall.WaitStatus
	for {
		if _, e = syscall.Wait4(pid, &ws, wall|wnothread, nil); e != syscall.EINTR {
			break
		}
	}
	if e != nil || !ws.Stopped() {
		harnessError("%s did not stop: %v %v", path, e, ws)
	}
	const opts = syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | syscall.PTRACE_O_TRACEFORK | syscall.PTRACE_O_TRACEVFORK | 0x100000 // EXITKILL
	if e := syscall.PtraceSetOptions(pid, opts); e != nil {
		harnessError("%v", e)
	}
	started(pid)
	_ = syscall.PtraceSyscall(pid, 0)
	seen := map[int]bool{pid: true}
	last := 0 // The thread whose call is the last one
	kill := func() {
		f.killed = true
		_ = syscall.Kill(pid, syscall.SIGKILL)
	}
	for {
		tid, e := syscall.Wait4(-1, &ws, wall|wnothread, nil)
		if e == syscall.EINTR {
			continue
		}
		if e != nil { // Nobody left
			return f
		}
		switch {
		case ws.Exited() || ws.Signaled():
			if tid == pid {
				f.code = ws.ExitStatus()
			}
			continue
		case !ws.Stopped():
			continue
		}
		sig := ws.StopSignal()
		deliver := 0
		switch {
		case sig == syscall.SIGTRAP|0x80:
			var r syscall.PtraceRegs
			if f.killed || syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			entry := r.Rax == enosys
			if tid == last && !entry {
				// The torn write is done
				kill()
				break
			}
			if last != 0 && entry {
				if what := changesFiles(&r); what != "" {
					// Not any more: it is held here until the other one is done
					continue
				}
			}
			if !entry || last != 0 {
				break
			}
			what := changesFiles(&r)
			if what == "" {
				break
			}
			f.calls++
			if f.calls != k.n {
				break
			}
			f.call = what
			if what == "write" && (r.Orig_rax == syscall.SYS_WRITE || r.Orig_rax == syscall.SYS_PWRITE64) && k.torn > 0 && k.torn < 100 && r.Rdx > 1 {
				part := max(1, r.Rdx*uint64(k.torn)/100)
				f.call = fmt.Sprintf("write of %d of %d bytes", part, r.Rdx)
				r.Rdx = part
				if syscall.PtraceSetRegs(tid, &r) == nil {
					last = tid
					break
				}
			}
			kill()
		case sig == syscall.SIGTRAP && ws>>16 != 0: // A new thread, or so
		case sig == syscall.SIGSTOP && !seen[tid]:
			seen[tid] = true
		case sig == syscall.SIGTRAP:
		default:
			deliver = int(sig)
		}
		_ = syscall.PtraceSyscall(tid, deliver)
	}
}

// drawKill draws where a process is killed.
func (c *C) drawKill(most int) killAt {
	k := killAt{n: c.intn(1, pick(c, "calls", 4, 12, most), "call")}
	if c.bool("torn") {
		k.torn = c.intn(1, 99, "percent")
	}
	return k
}

// ============================================================================
// P38 ========================================================================

// ownedOf tells which pieces of a disk are intact.
func (t *tor) ownedOf(disk []byte) []bool {
	owned := make([]bool, t.npieces())
	for i := range owned {
		p := disk[int64(i)*t.pieceLen : int64(i)*t.pieceLen+t.plen(int64(i))]
		h := sha1.Sum(p)
		owned[i] = string(h[:]) == t.hashes[20*i:20*i+20]
	}
	return owned
}

// startAgain starts the program on what is in its directory, which must then hold
// exactly what disk says.
func (c *C) startAgain(dir string, t *tor, disk []byte, ctx string) {
	owned := t.ownedOf(disk)
	p := c.startThere(freePort(), dir, t, owned, disk, answer(1800, []byte{}))
	defer p.kill()
	left := int64(0)
	for i, have := range owned {
		if !have {
			left += t.plen(int64(i))
		}
	}
	reqs := theTracker.requests()
	if len(reqs) != 1 {
		c.Fail("%d announces\n%s", len(reqs), ctx)
	}
	if got, _ := queryOf(reqs[0].URL.RawQuery, "left"); got != strconv.FormatInt(left, 10) {
		c.Fail("left is announced as %q instead of %d\n%s", got, left, ctx)
	}
	p.visit(ctx) // It states what is owned
	c.checkDisk(t, filepath.Join(dir, "wd"), disk, "after all\n"+ctx)
}

// crashTor is a torrent, sometimes a large one.
func (c *C) crashTor() *tor {
	if c.chance(6, "large") {
		return c.sessTor(1<<20, 5<<20)
	}
	return c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 60000))
}

func p38Prepare(c *C) {
	t := c.crashTor()
	dir, done := tempDir()
	defer done()
	wd := filepath.Join(dir, "wd")
	model := c.diskState(t, wd)
	mustWrite(filepath.Join(wd, "unrelated"), []byte("stay"))
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	before := snapshot(wd)

	hist := []string{t.String()}
	atCall := false
	for k := c.intn(1, 3, "kills"); k > 0; k-- {
		kill := c.drawKill(4 + 3*len(t.files))
		f := c.killedStart(dir, t, kill)
		hist = append(hist, fmt.Sprintf("killed %v at call %d that changes files (%s)", f.killed, f.calls, f.call))
		if !f.killed && f.code > 0 {
			c.Fail("the program ended with exit code %d\n%s", f.code, strings.Join(hist, "\n"))
		}
		atCall = atCall || f.killed
		c.Label("killed %v, traced %v", f.killed, f.traced)
		// What was there within the wanted length still is
		off := int64(0)
		for i, file := range t.files {
			old, was := before[filepath.Clean(t.path(i))]
			keep := model[off : off+min(int64(len(old)), file.length)]
			off += file.length
			if !was {
				continue
			}
			got, e := os.ReadFile(filepath.Join(wd, t.path(i)))
			if e != nil {
				c.Fail("file %q of %d bytes is gone: %v\n%s", t.path(i), len(old), e, strings.Join(hist, "\n"))
			}
			if !bytes.HasPrefix(got, keep) {
				at := 0
				for at < len(got) && at < len(keep) && got[at] == keep[at] {
					at++
				}
				c.Fail("file %q had %d bytes and should have %d; it has %d, and lost what it had from byte %d on\n%s", t.path(i), len(old), file.length, len(got), at, strings.Join(hist, "\n"))
			}
		}
	}
	ctx := strings.Join(hist, "\n")
	c.startAgain(dir, t, model, ctx)
	if b, e := os.ReadFile(filepath.Join(wd, "unrelated")); e != nil || string(b) != "stay" {
		c.Fail("another file is now %s (%v)\n%s", quote(b), e, ctx)
	}
	if atCall {
		c.NonTrivial("prepare", t.hashes, hist)
		c.Sample("%s", ctx)
	}
}

// killedStart starts the program and kills it as told, or once it has announced.
func (c *C) killedStart(dir string, t *tor, kill killAt) fate {
	t.announce = theTracker.base + "/announce"
	theTracker.set(refEncode(answer(1800, []byte{})), false, false)
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	log, e := os.Create(filepath.Join(dir, "stderr"))
	if e != nil {
		harnessError("%v", e)
	}
	defer log.Close()
	var wg sync.WaitGroup
	over := make(chan bool)
	f := runUntil(kill, dir, []string{"GOMAXPROCS=2"}, log, log, func(pid int) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for end := time.Now().Add(2 * patience); time.Now().Before(end) && len(theTracker.requests()) == 0; {
				select {
				case <-over:
					return
				case <-time.After(time.Millisecond):
				}
			}
			_ = syscall.Kill(pid, syscall.SIGKILL)
		}()
	}, job.Gotor, "-i", filepath.Join(dir, "t.torrent"), "-w", filepath.Join(dir, "wd"), "-p", strconv.Itoa(freePort()))
	close(over)
	wg.Wait()
	return f
}

// storePlan is what the process that stores pieces is told.
type storePlan struct {
	Torrent, Dir string
	Pieces       []int64
	Data         []string // The pieces' data, below Dir/.., or empty to read the piece
}

// childStore is the process that stores pieces, and says so after each.
func childStore() {
	var plan storePlan
	if e := json.Unmarshal([]byte(os.Getenv("VP_PLAN")), &plan); e != nil {
		fmt.Println(e)
		os.Exit(3)
	}
	tor, e := torrent.FromTorrentFile(plan.Torrent, plan.Dir)
	if e != nil {
		fmt.Println(e)
		os.Exit(3)
	}
	fio := fileio.NewFileIO(tor.Info())
	if e := fio.OCATAll(tor.Info().Files()); e != nil {
		fmt.Println(e)
		os.Exit(3)
	}
	for i, piece := range plan.Pieces {
		if plan.Data[i] == "" {
			buf := make([]byte, tor.Info().MaxPieceLen())
			if n, e := fio.ReadPiece(piece, buf); e == nil {
				fmt.Printf("read %d %x\n", i, sha1.Sum(buf[:n]))
			} else {
				fmt.Printf("refused %d\n", i)
			}
			continue
		}
		data, e := os.ReadFile(plan.Data[i])
		if e != nil {
			fmt.Println(e)
			os.Exit(3)
		}
		if _, e = fio.WritePiece(piece, data); e == nil {
			fmt.Printf("stored %d\n", i)
		} else {
			fmt.Printf("refused %d\n", i)
		}
	}
	if fio.CloseAll() == nil {
		fmt.Println("closed")
	}
}

func p38Store(c *C) {
	t := c.crashTor()
	t.announce = theTracker.base + "/announce"
	dir, done := tempDir()
	defer done()
	wd := filepath.Join(dir, "wd")
	if e := os.MkdirAll(wd, 0o755); e != nil {
		harnessError("%v", e)
	}
	old := c.diskState(t, wd)
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	np := int(t.npieces())

	plan := storePlan{Torrent: filepath.Join(dir, "t.torrent"), Dir: wd}
	var bad []bool
	bound := func(i int) (int64, int64) { return int64(i) * t.pieceLen, int64(i)*t.pieceLen + t.plen(int64(i)) }
	for k := c.intn(1, 12, "pieces"); k > 0; k-- {
		i := c.intn(0, np-1, "piece")
		from, to := bound(i)
		data := append([]byte(nil), t.content[from:to]...)
		wrong := c.chance(5, "wrong")
		if wrong {
			data[c.intn(0, len(data)-1, "where")] ^= 1 << uint(c.intn(0, 7, "bit"))
		}
		name := filepath.Join(dir, fmt.Sprintf("piece%d", len(bad)))
		mustWrite(name, data)
		plan.Pieces = append(plan.Pieces, int64(i))
		plan.Data = append(plan.Data, name)
		bad = append(bad, wrong)
	}
	// Preparing is over before the first piece is stored
	kill := c.drawKill(2*len(t.files) + 2*len(bad) + 2)
	if c.bool("prepared") {
		off := int64(0)
		for i, f := range t.files {
			mustWrite(filepath.Join(wd, t.path(i)), old[off:off+f.length])
			off += f.length
		}
	}
	js, _ := json.Marshal(plan)
	r, w, e := os.Pipe()
	if e != nil {
		harnessError("%v", e)
	}
	defer r.Close()
	errs, e := os.Create(filepath.Join(dir, "stderr"))
	if e != nil {
		harnessError("%v", e)
	}
	defer errs.Close()
	self, e := os.Executable()
	if e != nil {
		harnessError("%v", e)
	}
	f := runUntil(kill, dir, []string{"VP_CHILD=store", "VP_PLAN=" + string(js)}, w, errs, func(int) { _ = w.Close() }, self)
	out, _ := stdio.ReadAll(r)

	hist := []string{t.String(), fmt.Sprintf("storing pieces %v, bad ones %v", plan.Pieces, bad), fmt.Sprintf("killed %v at call %d that changes files (%s)", f.killed, f.calls, f.call)}
	var said []string
	for s := bufio.NewScanner(bytes.NewReader(out)); s.Scan(); {
		said = append(said, s.Text())
	}
	ctx := strings.Join(append(hist, fmt.Sprintf("it said %q", said)), "\n")
	if !f.killed && f.code != 0 {
		b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
		c.Fail("storing ended with exit code %d: %s\n%s", f.code, quote(b[:min(len(b), 2000)]), ctx)
	}
	if !f.killed && (len(said) != len(bad)+1 || said[len(bad)] != "closed") {
		c.Fail("not everything was tried\n%s", ctx)
	}
	// What may be stored
	maybe := append([]byte(nil), old...)
	for n, line := range said {
		if n == len(bad) {
			break
		}
		want := fmt.Sprintf("stored %d", n)
		if bad[n] {
			want = fmt.Sprintf("refused %d", n)
		}
		if line != want {
			c.Fail("it said %q instead of %q\n%s", line, want, ctx)
		}
		if !bad[n] {
			from, to := bound(int(plan.Pieces[n]))
			copy(old[from:to], t.content[from:to])
			copy(maybe[from:to], t.content[from:to])
		}
	}
	if n := len(said); n < len(bad) && !bad[n] {
		from, to := bound(int(plan.Pieces[n]))
		copy(maybe[from:to], t.content[from:to])
	}
	// What is there
	disk := make([]byte, 0, t.total)
	for i, file := range t.files {
		b, _ := os.ReadFile(filepath.Join(wd, t.path(i)))
		if int64(len(b)) != file.length && len(said) > 0 {
			c.Fail("file %q has %d bytes instead of %d\n%s", t.path(i), len(b), file.length, ctx)
		}
		part := make([]byte, file.length)
		copy(part, b)
		disk = append(disk, part...)
	}
	for i := range disk {
		if disk[i] != old[i] && disk[i] != maybe[i] {
			c.Fail("byte %d (piece %d) is neither what was there before nor what was stored\n%s", i, int64(i)/t.pieceLen, ctx)
		}
	}
	c.startAgain(dir, t, disk, ctx)
	if f.killed {
		c.NonTrivial("store", t.hashes, hist)
		c.Sample("%s", ctx)
	}
	c.Label("killed %v, traced %v", f.killed, f.traced)
	c.Label("%d and more pieces stored before", len(said)/3*3)
}
