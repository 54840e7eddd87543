package main

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	stdio "io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register(&Prop{
		ID: "P40",
		Rule: "The real program starts on files in generated states, serves peers, or the client's storage stores and reads pieces, while a generated one of the system calls on its files (open, stat, seek, read, write, truncate, mkdir, close) fails with a generated error, is cut short, or all of that kind fail from then on; afterwards it is started again without failures; " +
			"non-trivial: a call did fail or was cut short (distinct by torrent, state and call).",
		Init: startTracker,
		Subs: []Sub{
			{"start", 1500, 15000, p40Start},
			{"store", 2000, 20000, p40Store},
			{"serve", 500, 5000, p40Serve},
		},
	})
}

// ============================================================================
// Failing system calls =======================================================

// fault tells which calls on files fail.
type fault struct {
	kind  string // Only these count, unless empty
	n     int    // The n-th (from 1)
	errno syscall.Errno
	short int  // It is cut to that many percent instead, and the next one fails if there is an errno
	ever  bool // All of its kind from then on
}

func (f fault) String() string {
	s := fmt.Sprintf("call %d", f.n)
	if f.kind != "" {
		s = fmt.Sprintf("%s %d", f.kind, f.n)
	}
	if f.short > 0 {
		s += fmt.Sprintf(" cut to %d%%", f.short)
	}
	if f.errno != 0 {
		s += " fails: " + f.errno.Error()
	}
	if f.ever {
		s += ", from then on"
	}
	return s
}

// faulty is a process some calls of which fail.
type faulty struct {
	pid   int
	armed atomic.Bool // Calls count
	hits  []string    // The calls that failed, once it is over
	code  int
	over  chan struct{}
}

// drawFault draws what fails.
func (c *C) drawFault(most int, kinds ...string) fault {
	f := fault{n: c.intn(1, pick(c, "calls", 3, 8, most), "call")}
	if len(kinds) > 0 && c.bool("of a kind") {
		f.kind = pick(c, "kind", kinds...)
	}
	if c.chance(3, "short") {
		f.short = c.intn(1, 99, "percent")
	}
	if f.short == 0 || !c.chance(4, "no error") {
		f.errno = pick(c, "error", syscall.EIO, syscall.ENOSPC, syscall.EMFILE, syscall.EACCES, syscall.ENFILE, syscall.ENOMEM)
		f.ever = c.chance(4, "ever")
	}
	return f
}

// tracedPath reads a path from a traced thread.
func tracedPath(pid, tid int, dirfd uint64, addr uint64) string {
	var out []byte
	buf := make([]byte, 128)
	for len(out) < 4096 {
		n, e := syscall.PtracePeekData(tid, uintptr(addr)+uintptr(len(out)), buf)
		if i := bytes.IndexByte(buf[:max(n, 0)], 0); i >= 0 {
			out = append(out, buf[:i]...)
			break
		}
		if e != nil || n <= 0 {
			return ""
		}
		out = append(out, buf[:n]...)
	}
	path := string(out)
	if !strings.HasPrefix(path, "/") {
		base, e := os.Readlink(fmt.Sprintf("/proc/%d/cwd", pid))
		if int32(dirfd) >= 0 {
			base, e = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, dirfd))
		}
		if e != nil {
			return ""
		}
		path = filepath.Join(base, path)
	}
	return path
}

// onFiles tells what a call does to files below root, if anything.
func onFiles(pid, tid int, r *syscall.PtraceRegs, root string) string {
	const cwd = uint64(0xffffff9c)
	kind, path := "", ""
	fd := func(k string) {
		if int64(r.Rdi) > 2 {
			kind = k
			path, _ = os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, r.Rdi))
		}
	}
	at := func(k string, dirfd, addr uint64) {
		kind, path = k, tracedPath(pid, tid, dirfd, addr)
	}
	switch r.Orig_rax {
	case syscall.SYS_OPENAT:
		at("open", r.Rdi, r.Rsi)
	case syscall.SYS_OPEN, syscall.SYS_CREAT:
		at("open", cwd, r.Rdi)
	case syscall.SYS_MKDIR:
		at("mkdir", cwd, r.Rdi)
	case syscall.SYS_MKDIRAT:
		at("mkdir", r.Rdi, r.Rsi)
	case syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_ACCESS:
		at("stat", cwd, r.Rdi)
	case syscall.SYS_NEWFSTATAT, 332: // statx
		at("stat", r.Rdi, r.Rsi)
	case syscall.SYS_TRUNCATE:
		at("truncate", cwd, r.Rdi)
	case syscall.SYS_RENAME:
		at("rename", cwd, r.Rdi)
	case syscall.SYS_RENAMEAT, 316:
		at("rename", r.Rdi, r.Rsi)
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		at("remove", cwd, r.Rdi)
	case syscall.SYS_UNLINKAT:
		at("remove", r.Rdi, r.Rsi)
	case syscall.SYS_FSTAT:
		fd("stat")
	case syscall.SYS_LSEEK:
		fd("seek")
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_READV, syscall.SYS_PREADV:
		fd("read")
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64, syscall.SYS_WRITEV, 296, 328:
		fd("write")
	case syscall.SYS_FTRUNCATE, syscall.SYS_FALLOCATE:
		fd("truncate")
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		fd("sync")
	case syscall.SYS_CLOSE:
		fd("close")
	}
	if kind == "" || path != root && !strings.HasPrefix(path, root+"/") {
		return ""
	}
	return kind
}

// runFaulty starts a program some calls of which fail. It is over when the
// process is.
func (c *C) runFaulty(f fault, armed bool, root, dir string, env []string, stdout, stderr *os.File, path string, args ...string) *faulty {
	p := &faulty{over: make(chan struct{})}
	p.armed.Store(armed)
	up := make(chan error)
	go func() {
		defer close(p.over)
		// Who traces is a thread, which ends with this goroutine
		runtime.LockOSThread()
		pid, e := syscall.ForkExec(path, append([]string{path}, args...), &syscall.ProcAttr{
			Dir:   dir,
			Env:   append(os.Environ(), env...),
			Files: []uintptr{0, stdout.Fd(), stderr.Fd()},
			Sys:   &syscall.SysProcAttr{Ptrace: true, Pdeathsig: syscall.SIGKILL},
		})
		if e != nil {
			up <- e
			return
		}
		p.pid = pid
		var ws syscall.WaitStatus
		for {
			if _, e = syscall.Wait4(pid, &ws, wall|wnothread, nil); e != syscall.EINTR {
				break
			}
		}
		if e == nil && !ws.Stopped() {
			e = fmt.Errorf("%s did not stop: %v", path, ws)
		}
		if e == nil {
			const opts = syscall.PTRACE_O_TRACESYSGOOD | syscall.PTRACE_O_TRACECLONE | syscall.PTRACE_O_TRACEFORK | syscall.PTRACE_O_TRACEVFORK | 0x100000 // EXITKILL
			e = syscall.PtraceSetOptions(pid, opts)
		}
		up <- e
		if e != nil {
			_ = syscall.Kill(pid, syscall.SIGKILL)
		}
		p.follow(f, root)
	}()
	if e := <-up; e != nil {
		c.Discard("tracing is not allowed: " + e.Error())
	}
	return p
}

// follow has calls fail until the process is over.
func (p *faulty) follow(f fault, root string) {
	_ = syscall.PtraceSyscall(p.pid, 0)
	seen := map[int]bool{p.pid: true}
	inside := map[int]bool{}          // Threads in calls
	result := map[int]syscall.Errno{} // of those that fail
	calls, again := 0, false          // again: the next call like it fails
	ever := ""                        // All of this kind fail
	var ws syscall.WaitStatus
	for {
		tid, e := syscall.Wait4(-1, &ws, wall|wnothread, nil)
		if e == syscall.EINTR {
			continue
		}
		if e != nil {
			return
		}
		switch {
		case ws.Exited() || ws.Signaled():
			if tid == p.pid {
				p.code = ws.ExitStatus()
			}
			continue
		case !ws.Stopped():
			continue
		}
		sig := ws.StopSignal()
		deliver := 0
		switch {
		case sig == syscall.SIGTRAP|0x80:
			var r syscall.PtraceRegs
			if syscall.PtraceGetRegs(tid, &r) != nil {
				break
			}
			if inside[tid] {
				inside[tid] = false
				if errno, ok := result[tid]; ok {
					delete(result, tid)
					r.Rax = -uint64(errno)
					_ = syscall.PtraceSetRegs(tid, &r)
				}
				break
			}
			inside[tid] = true
			if !p.armed.Load() {
				break
			}
			kind := onFiles(p.pid, tid, &r, root)
			if kind == "" || f.kind != "" && f.kind != kind {
				break
			}
			calls++
			fail := again && (kind == "write" || kind == "read") || ever == kind
			if calls == f.n {
				if f.short > 0 && (kind == "write" || kind == "read") && r.Rdx > 1 && (r.Orig_rax == syscall.SYS_READ || r.Orig_rax == syscall.SYS_PREAD64 || r.Orig_rax == syscall.SYS_WRITE || r.Orig_rax == syscall.SYS_PWRITE64) {
					part := max(1, r.Rdx*uint64(f.short)/100)
					p.hits = append(p.hits, fmt.Sprintf("%s of %d of %d bytes", kind, part, r.Rdx))
					r.Rdx = part
					_ = syscall.PtraceSetRegs(tid, &r)
					again = f.errno != 0
					break
				}
				if fail = f.errno != 0; fail && f.ever {
					ever = kind
				}
			}
			if !fail {
				break
			}
			again = false
			p.hits = append(p.hits, kind)
			result[tid] = f.errno
			if kind != "close" { // It closes all the same
				r.Orig_rax = ^uint64(0)
				_ = syscall.PtraceSetRegs(tid, &r)
			}
		case sig == syscall.SIGTRAP && ws>>16 != 0: // A new thread, or so
		case sig == syscall.SIGSTOP && !seen[tid]:
			seen[tid] = true
		case sig == syscall.SIGTRAP:
		default:
			deliver = int(sig)
		}
		_ = syscall.PtraceSyscall(tid, deliver)
	}
}

func (p *faulty) kill() {
	_ = syscall.Kill(p.pid, syscall.SIGKILL)
	<-p.over
}

func (p *faulty) ended() bool {
	select {
	case <-p.over:
		return true
	default:
		return false
	}
}

func (p *faulty) hit(kind string) bool {
	for _, h := range p.hits {
		if h == kind || strings.HasPrefix(h, kind+" ") {
			return true
		}
	}
	return false
}

// crashed tells whether what a program said last is that of a crash.
func crashed(dir string) string {
	b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
	for _, mark := range []string{"panic: ", "fatal error: ", "unexpected fault"} {
		if i := bytes.Index(b, []byte(mark)); i >= 0 {
			return string(b[i:min(len(b), i+1500)])
		}
	}
	return ""
}

// ============================================================================
// P40 ========================================================================

// faultTor is a torrent, often with a file that takes several writes to fill.
func (c *C) faultTor() *tor {
	t := c.crashTor()
	if c.chance(4, "large") {
		k := c.intn(0, len(t.files)-1, "which")
		t.files[k].length = int64(1+c.index%4)<<20 + int64(c.intn(-2, 2000, "more"))
		t.pieceLen = max(t.pieceLen, 100000)
		t.total = 0
		for _, f := range t.files {
			t.total += f.length
		}
		t.makeContent(c.seed("content"))
	}
	return t
}

func p40Start(c *C) {
	t := c.faultTor()
	dir, done := tempDir()
	defer done()
	wd := filepath.Join(dir, "wd")
	model := c.diskState(t, wd)
	mustWrite(filepath.Join(wd, "unrelated"), []byte("stay"))
	t.announce = theTracker.base + "/announce"
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	before := snapshot(wd)
	left := int64(0)
	for i, have := range t.ownedOf(model) {
		if !have {
			left += t.plen(int64(i))
		}
	}

	hist := []string{t.String()}
	failed := false
	for k := c.intn(1, 2, "starts"); k > 0; k-- {
		f := c.drawFault(5+6*len(t.files), "open", "read", "write", "write", "truncate", "stat", "mkdir")
		log, e := os.Create(filepath.Join(dir, "stderr"))
		if e != nil {
			harnessError("%v", e)
		}
		theTracker.set(refEncode(answer(1800, []byte{})), false, false)
		p := c.runFaulty(f, true, wd, dir, []string{"GOMAXPROCS=2"}, log, log, job.Gotor, "-i", filepath.Join(dir, "t.torrent"), "-w", wd, "-p", strconv.Itoa(freePort()))
		_ = log.Close()
		for end := time.Now().Add(2 * patience); time.Now().Before(end) && len(theTracker.requests()) == 0 && !p.ended(); {
			time.Sleep(time.Millisecond)
		}
		over := p.ended()
		p.kill()
		reqs := theTracker.requests()
		hist = append(hist, fmt.Sprintf("%v, %v did; it announced %d times, ended %v with exit code %d", f, p.hits, len(reqs), over, p.code))
		ctx := strings.Join(hist, "\n")
		if msg := crashed(dir); msg != "" {
			c.Fail("the program crashed: %s\n%s", msg, ctx)
		}
		failed = failed || len(p.hits) > 0
		switch {
		case len(reqs) > 0:
			// It says that all is well
			got, _ := queryOf(reqs[0].URL.RawQuery, "left")
			if n, e := strconv.ParseInt(got, 10, 64); e != nil || n < left || n > left && !p.hit("read") {
				c.Fail("left is announced as %q instead of %d\n%s", got, left, ctx)
			}
			c.checkDisk(t, wd, model, "when it announces\n"+ctx)
		case over && len(p.hits) == 0:
			c.Fail("the program ended\n%s", ctx)
		case over && p.code <= 0:
			c.Fail("the program ended with exit code %d\n%s", p.code, ctx)
		case !over:
			c.FailTiming("the program neither ends nor announces\n%s", ctx)
		}
		// What was there within the wanted length still is
		off := int64(0)
		for i, file := range t.files {
			old, was := before[filepath.Clean(t.path(i))]
			keep := model[off : off+min(int64(len(old)), file.length)]
			off += file.length
			if !was {
				continue
			}
			got, e := os.ReadFile(filepath.Join(wd, t.path(i)))
			if e != nil {
				c.Fail("file %q of %d bytes is gone: %v\n%s", t.path(i), len(old), e, ctx)
			}
			if !bytes.HasPrefix(got, keep) {
				c.Fail("file %q had %d bytes and should have %d; it has %d, and lost what it had\n%s", t.path(i), len(old), file.length, len(got), ctx)
			}
		}
		for _, h := range p.hits {
			c.Label("failed: %s", strings.Fields(h)[0])
		}
		c.Label("announced %v", len(reqs) > 0)
	}
	ctx := strings.Join(hist, "\n")
	c.startAgain(dir, t, model, ctx)
	if b, e := os.ReadFile(filepath.Join(wd, "unrelated")); e != nil || string(b) != "stay" {
		c.Fail("another file is now %s (%v)\n%s", quote(b), e, ctx)
	}
	if failed {
		c.NonTrivial("start", t.hashes, hist)
		c.Sample("%s", ctx)
	}
}

func p40Store(c *C) {
	t := c.faultTor()
	t.announce = theTracker.base + "/announce"
	dir, done := tempDir()
	defer done()
	wd := filepath.Join(dir, "wd")
	if e := os.MkdirAll(wd, 0o755); e != nil {
		harnessError("%v", e)
	}
	disk := c.diskState(t, wd)
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	np := int(t.npieces())
	bound := func(i int64) (int64, int64) { return i * t.pieceLen, i*t.pieceLen + t.plen(i) }

	plan := storePlan{Torrent: filepath.Join(dir, "t.torrent"), Dir: wd}
	for k := c.intn(1, 10, "operations"); k > 0; k-- {
		i := int64(c.intn(0, np-1, "piece"))
		name := ""
		if !c.chance(3, "read") {
			from, to := bound(i)
			name = filepath.Join(dir, fmt.Sprintf("piece%d", len(plan.Data)))
			mustWrite(name, t.content[from:to])
		}
		plan.Pieces = append(plan.Pieces, i)
		plan.Data = append(plan.Data, name)
	}
	grow := c.chance(6, "grow")
	if grow {
		// A file is to grow by several writes, one of which fails
		k := c.intn(0, len(t.files)-1, "which grows")
		for n := 0; t.files[k].length < 100000 && n < len(t.files); n++ {
			k = (k + 1) % len(t.files)
		}
		mustWrite(filepath.Join(wd, t.path(k)), t.content[:0])
		off := int64(0)
		for _, f := range t.files[:k] {
			off += f.length
		}
		copy(disk[off:off+t.files[k].length], make([]byte, t.files[k].length))
	} else if !c.chance(3, "not prepared") {
		if c.bool("blank") {
			disk = make([]byte, len(disk))
		}
		off := int64(0)
		for i, f := range t.files {
			mustWrite(filepath.Join(wd, t.path(i)), disk[off:off+f.length])
			off += f.length
		}
	}
	f := c.drawFault(4*len(t.files)+2*len(plan.Pieces)+2, "write", "write", "write", "read", "read", "open", "close")
	if c.chance(3, "half a piece") {
		f = fault{kind: "write", n: c.intn(1, len(plan.Pieces), "which"), short: c.intn(1, 99, "percent"), errno: syscall.ENOSPC}
	}
	if grow {
		f = fault{kind: "write", n: c.intn(1, 6, "which"), errno: syscall.ENOSPC}
	}
	js, _ := json.Marshal(plan)
	r, w, e := os.Pipe()
	if e != nil {
		harnessError("%v", e)
	}
	defer r.Close()
	errs, e := os.Create(filepath.Join(dir, "stderr"))
	if e != nil {
		harnessError("%v", e)
	}
	self, e := os.Executable()
	if e != nil {
		harnessError("%v", e)
	}
	p := c.runFaulty(f, true, wd, dir, []string{"VP_CHILD=store", "VP_PLAN=" + string(js)}, w, errs, self)
	_ = w.Close()
	_ = errs.Close()
	out, _ := stdio.ReadAll(r)
	<-p.over

	var said []string
	for s := bufio.NewScanner(bytes.NewReader(out)); s.Scan(); {
		said = append(said, s.Text())
	}
	ops := ""
	for i := range plan.Pieces {
		ops += fmt.Sprintf(" %d", plan.Pieces[i])
		if plan.Data[i] == "" {
			ops += " (read)"
		}
	}
	ctx := fmt.Sprintf("%s\nstoring or reading pieces%s\n%v, %v did; exit code %d, it said %q", t, ops, f, p.hits, p.code, said)
	if msg := crashed(dir); msg != "" || p.code < 0 {
		c.Fail("storing ended with exit code %d: %s\n%s", p.code, msg, ctx)
	}
	failed := len(p.hits) > 0
	if p.code != 0 {
		if !failed {
			c.Fail("storing ended with exit code %d\n%s", p.code, ctx)
		}
		said = nil // Files could not be prepared
	} else if n := len(plan.Pieces); len(said) < n || !failed && (len(said) != n+1 || said[n] != "closed") {
		c.Fail("not everything was tried\n%s", ctx)
	}
	maybe := append([]byte(nil), disk...)
	refused := 0
	for n := range plan.Pieces {
		if n >= len(said) {
			break
		}
		from, to := bound(plan.Pieces[n])
		sure := bytes.Equal(disk[from:to], maybe[from:to])
		switch word, rest, _ := strings.Cut(said[n], " "); {
		case plan.Data[n] == "" && word == "read":
			want := sha1.Sum(disk[from:to])
			if sure && rest != fmt.Sprintf("%d %s", n, hex.EncodeToString(want[:])) {
				c.Fail("operation %d read something else than what is in piece %d\n%s", n, plan.Pieces[n], ctx)
			}
		case plan.Data[n] != "" && word == "stored":
			copy(disk[from:to], t.content[from:to])
			copy(maybe[from:to], t.content[from:to])
		case word == "refused" && failed:
			if plan.Data[n] != "" {
				copy(maybe[from:to], t.content[from:to])
			}
			refused++
		default:
			c.Fail("operation %d: it said %q\n%s", n, said[n], ctx)
		}
	}
	if refused > 0 && !f.ever && refused > 1 {
		c.Fail("%d operations were refused after one failure\n%s", refused, ctx)
	}
	// What is there
	now := make([]byte, 0, t.total)
	for i, file := range t.files {
		b, _ := os.ReadFile(filepath.Join(wd, t.path(i)))
		if int64(len(b)) != file.length && said != nil {
			c.Fail("file %q has %d bytes instead of %d\n%s", t.path(i), len(b), file.length, ctx)
		}
		part := make([]byte, file.length)
		copy(part, b)
		now = append(now, part...)
	}
	for i := range now {
		if now[i] != disk[i] && now[i] != maybe[i] {
			c.Fail("byte %d (piece %d) is neither what was there before nor what was stored\n%s", i, int64(i)/t.pieceLen, ctx)
		}
	}
	c.startAgain(dir, t, now, ctx)
	if failed {
		c.NonTrivial("store", t.hashes, f, ops)
		c.Sample("%s", ctx)
	}
	for _, h := range p.hits {
		c.Label("failed: %s", strings.Fields(h)[0])
	}
	c.Label("refused: %d", min(refused, 3))
}

// p40Serve has reads fail while peers are served.
func p40Serve(c *C) {
	t := c.blockTor()
	dir, done := tempDir()
	defer done()
	wd := filepath.Join(dir, "wd")
	if e := os.MkdirAll(wd, 0o755); e != nil {
		harnessError("%v", e)
	}
	owned := c.ownSome(t)
	disk := t.have(wd, owned)
	t.announce = theTracker.base + "/announce"
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	theTracker.set(refEncode(answer(1800, []byte{})), false, false)
	log, e := os.Create(filepath.Join(dir, "stderr"))
	if e != nil {
		harnessError("%v", e)
	}
	port := freePort()
	f := c.drawFault(8)
	fp := c.runFaulty(f, false, wd, dir, []string{"GOMAXPROCS=2"}, log, log, job.Gotor, "-i", filepath.Join(dir, "t.torrent"), "-w", wd, "-p", strconv.Itoa(port))
	_ = log.Close()
	proc, _ := os.FindProcess(fp.pid)
	p := &program{dir: dir, port: port, over: fp.over, cmd: &exec.Cmd{Process: proc}}
	p.world = &world{c: c, t: t, owned: owned, disk: disk}
	defer p.kill()
	for end := time.Now().Add(2 * patience); ; time.Sleep(3 * time.Millisecond) {
		if conn, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); e == nil {
			_ = conn.Close()
			break
		}
		if fp.ended() {
			c.Fail("the program ended: %s\n%s", p.stderr(), t)
		}
		if time.Now().After(end) {
			c.FailTiming("nobody listens on port %d: %s\n%s", port, p.stderr(), t)
		}
	}
	for _, r := range theTracker.requests() {
		p.id, _ = queryOf(r.URL.RawQuery, "peer_id")
	}
	ctx := fmt.Sprintf("%s\nowned %x\n%v", t, bitfieldOf(owned), f)

	// Somebody asks, and may not get all
	s := p.connect()
	var reqs []wmsg
	stream := p.handshake("-FF0000-abcdefghijkl")
	if p.nset() > 0 {
		for k := c.intn(1, 8, "requests"); k > 0; k-- {
			r := p.goodRequest("asked")
			reqs = append(reqs, r)
			stream = append(stream, r.encode()...)
		}
	}
	fp.armed.Store(true)
	s.send(stream)
	var got []rmsg
	s.until(patience, func() bool {
		got = s.answers()
		return len(got) >= len(reqs) && len(reqs) > 0 || s.closed() || p.nset() == 0
	})
	// The rest of what it does with the failure
	time.Sleep(5 * time.Millisecond)
	fp.armed.Store(false)
	p.alive(ctx)
	got = s.answers()
	left := reqs
	for i, g := range got {
		// Those that could not be read may be left out
		for len(left) > 0 && !bytes.Equal(p.answer(left[0]), g.payload) {
			left = left[1:]
		}
		if len(left) == 0 {
			c.Fail("answer %d, %v, is to none of the requests %v (that are left)\n%s", i, g, reqs, ctx)
		}
		left = left[1:]
	}
	// All is well again for those who come now
	p.visit(ctx)
	p.alive(ctx)
	p.sameFiles(ctx)
	fp.kill()
	if len(fp.hits) == 0 && len(got) != len(reqs) {
		c.Fail("%d requests got %d answers, although nothing failed\n%s", len(reqs), len(got), ctx)
	}
	if len(fp.hits) > 0 {
		c.NonTrivial("serve", t.hashes, f, fmt.Sprint(reqs))
		c.Sample("%s\n%v failed; %d of %d requests were answered", ctx, fp.hits, len(got), len(reqs))
	}
	for _, h := range fp.hits {
		c.Label("failed: %s", strings.Fields(h)[0])
	}
}
