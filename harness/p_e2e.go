package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	stdio "io"
	"log"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"gotor/swarm"
	"gotor/utils"
)

func init() {
	register(&Prop{
		ID: "P34",
		Rule: "The real program is started on generated torrents, with trackers that list generated peers (good, closed, silent, slow, hostile, never accepting, in any order, compact or not) or refuse; " +
			"non-trivial: a list with at least one good peer and one that is not, or a start that is refused (distinct by torrent and list). Also lists of more than fifty peers and hundreds of visitors at once.",
		Init: startTracker,
		Subs: []Sub{
			{"started", 480, 4800, p34Started},
			{"refused", 480, 4800, p34Refused},
			{"crowd", 24, 240, p34Crowd},
			{"visitors", 24, 240, p34Visitors},
		},
	})
}

// ============================================================================
// Program ====================================================================

// program is gotor, running.
type program struct {
	*world
	dir  string
	port int
	cmd  *exec.Cmd
	over chan struct{} // It ended
	code int
}

// again has a peer that is connected be served once more.
func (p *program) again(s *session, ctx string) {
	before := len(s.answers())
	r := p.goodRequest("witness")
	s.send(r.encode())
	s.until(patience, func() bool { return len(s.answers()) > before || s.closed() })
	got := s.answers()
	if len(got) <= before {
		p.check("the witness is not served any more", true, ctx)
		return
	}
	if !bytes.Equal(got[before].payload, p.answer(r)) {
		p.c.Fail("the witness got %v for %v\n%s", got[before], r, ctx)
	}
}

// freePort is a port nobody listens on.
func freePort() int {
	for k := 0; k < 2000; k++ {
		port := job.Port + k
		ln, e := net.Listen("tcp", ":"+strconv.Itoa(port))
		if e != nil {
			continue
		}
		_ = ln.Close()
		return port
	}
	harnessError("no free port")
	return 0
}

// localhosts are addresses of this machine, on which a program that listens on
// all of them is reached.
var localhosts = func() []string {
	hosts := []string{"127.0.0.1"}
	ln, e := net.Listen("tcp", ":0")
	if e != nil {
		return hosts
	}
	defer ln.Close()
	for _, h := range []string{"127.0.0.2", "[::1]"} {
		conn, e := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", h, ln.Addr().(*net.TCPAddr).Port), time.Second)
		if e == nil {
			_ = conn.Close()
			hosts = append(hosts, h)
		}
	}
	return hosts
}()

// maxFiles limits how many files the next program may have open, if positive.
var maxFiles int

// childPort is the port that the next program takes for its own, if positive.
var childPort int

// childStart is gotor, but with another port in its records than the one that it
// listens on. Nobody else can listen on the latter on this machine, but peers on
// other machines can.
func childStart() {
	sw, e := swarm.NewSwarm(utils.GetOpts())
	if e != nil {
		log.Fatal(e)
	}
	port, _ := strconv.Atoi(os.Getenv("VP_PORT"))
	sw.Port = uint16(port)
	sw.Start()
	select {}
}

// portApart tells whether what childStart does has the program listen on its
// port still, and not on the one in its records.
func (c *C) portApart(t *tor, owned []bool) bool {
	if apart == 0 {
		apart = -1
		ln, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			return false
		}
		defer ln.Close()
		dir, done := tempDir()
		defer done()
		wd := filepath.Join(dir, "wd")
		if e := os.MkdirAll(wd, 0o755); e != nil {
			harnessError("%v", e)
		}
		t.have(wd, owned)
		t.announce = theTracker.base + "/announce"
		theTracker.set(refEncode(answer(60, compactPeers())), false, false)
		mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
		port := freePort()
		childPort = ln.Addr().(*net.TCPAddr).Port
		defer func() { childPort = 0 }()
		p := c.launch(dir, port)
		p.world = &world{c: c, t: t, owned: owned}
		defer p.kill()
		for end := time.Now().Add(patience); time.Now().Before(end) && !p.ended() && apart < 0; time.Sleep(3 * time.Millisecond) {
			if conn, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); e == nil {
				_ = conn.Close()
				apart = 1
			}
		}
	}
	return apart > 0
}

var apart int // What portApart found, if not 0

// launch starts gotor on the files below dir.
func (c *C) launch(dir string, port int, args ...string) *program {
	p := &program{dir: dir, port: port, over: make(chan struct{})}
	command := []string{job.Gotor}
	if maxFiles > 0 {
		command = []string{"/bin/sh", "-c", fmt.Sprintf(`ulimit -n %d; exec "$0" "$@"`, maxFiles), job.Gotor}
	}
	p.cmd = exec.Command(command[0], append(command[1:], "-i", filepath.Join(dir, "t.torrent"), "-w", filepath.Join(dir, "wd"), "-p", strconv.Itoa(port))...)
	p.cmd.Args = append(p.cmd.Args, args...)
	p.cmd.Dir = dir
	// Its main goroutine never rests
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
	if childPort > 0 {
		self, e := os.Executable()
		if e != nil {
			harnessError("%v", e)
		}
		p.cmd.Path = self
		p.cmd.Env = append(p.cmd.Env, "VP_CHILD=start", "VP_PORT="+strconv.Itoa(childPort))
	}
	log, e := os.Create(filepath.Join(dir, "stderr"))
	if e != nil {
		harnessError("%v", e)
	}
	p.cmd.Stderr = log
	if e := p.cmd.Start(); e != nil {
		harnessError("%v", e)
	}
	_ = log.Close()
	go func() {
		defer close(p.over)
		e := p.cmd.Wait()
		var ee *exec.ExitError
		if errors.As(e, &ee) {
			p.code = ee.ExitCode()
		}
	}()
	return p
}

// kill ends the program.
func (p *program) kill() {
	for _, s := range p.peers {
		s.hangUp()
	}
	_ = p.cmd.Process.Kill()
	<-p.over
}

func (p *program) stderr() string {
	b, _ := os.ReadFile(filepath.Join(p.dir, "stderr"))
	if len(b) > 20000 {
		b = append(append([]byte(nil), b[:2000]...), b[len(b)-18000:]...)
	}
	s := string(b)
	for _, mark := range []string{"panic: ", "fatal error: "} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[i:]
		}
	}
	return s[:min(len(s), 3000)]
}

func (p *program) ended() bool {
	select {
	case <-p.over:
		return true
	default:
		return false
	}
}

// alive fails the case if the program ended.
func (p *program) alive(ctx string) {
	if p.ended() {
		p.c.Fail("the program ended with exit code %d: %s\n%s", p.code, p.stderr(), ctx)
	}
}

// start starts gotor with a torrent and waits until it listens.
func (c *C) start(dir string, t *tor, owned []bool, peers *bdict, args ...string) *program {
	return c.startOn(freePort(), dir, t, owned, peers, args...)
}

func (c *C) startOn(port int, dir string, t *tor, owned []bool, peers *bdict, args ...string) *program {
	if e := os.MkdirAll(filepath.Join(dir, "wd"), 0o755); e != nil {
		harnessError("%v", e)
	}
	disk := t.have(filepath.Join(dir, "wd"), owned)
	return c.startThere(port, dir, t, owned, disk, peers, args...)
}

// startThere starts gotor on what is in its directory.
func (c *C) startThere(port int, dir string, t *tor, owned []bool, disk []byte, peers *bdict, args ...string) *program {
	t.announce = theTracker.base + "/announce"
	theTracker.set(refEncode(peers), false, false)
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	p := c.launch(dir, port, args...)
	p.world = &world{c: c, t: t, owned: owned, disk: disk}
	end := time.Now().Add(2 * patience)
	for {
		conn, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", p.port))
		if e == nil {
			_ = conn.Close()
			break
		}
		if p.ended() {
			p.kill()
			c.Fail("the program ended with exit code %d: %s\n%s", p.code, p.stderr(), t)
		}
		if time.Now().After(end) {
			p.kill()
			c.FailTiming("nobody listens on port %d after %v: %s\n%s", p.port, 2*patience, p.stderr(), t)
		}
		time.Sleep(3 * time.Millisecond)
	}
	for _, r := range theTracker.requests() {
		if id, ok := queryOf(r.URL.RawQuery, "peer_id"); ok {
			p.id = id
		}
	}
	return p
}

// queryOf is a parameter of a query.
func queryOf(raw, key string) (string, bool) {
	q, ok := splitQuery(raw)
	if !ok {
		return "", false
	}
	for _, x := range q {
		if x.k == key {
			return x.v, true
		}
	}
	return "", false
}

// connect is a peer that connects to the program.
func (p *program) connect() *session {
	host := localhosts[p.c.intn(0, len(localhosts)-1, "address")]
	conn, e := net.Dial("tcp", fmt.Sprintf("%s:%d", host, p.port))
	if e != nil {
		p.alive("when a peer connects")
		p.c.FailTiming("no connection to the program: %v", e)
	}
	s := &session{w: p.world, tcp: conn}
	p.peers = append(p.peers, s)
	s.follow()
	return s
}

// wait serves like session.serve, and looks at the program.
func (p *program) check(msg string, timing bool, ctx string) {
	if msg == "" {
		return
	}
	time.Sleep(50 * time.Millisecond)
	p.alive(msg + "\n" + ctx)
	p.c.check(msg, timing, ctx)
}

// visit has a peer connect and be served.
func (p *program) visit(ctx string) *session {
	s := p.connect()
	var reqs []wmsg
	stream := p.handshake("-VV0000-abcdefghijkl")
	if p.nset() > 0 {
		for n := 0; n < 2; n++ {
			r := p.goodRequest("visit")
			reqs = append(reqs, r)
			stream = append(stream, r.encode()...)
		}
	}
	s.send(stream)
	ok := s.until(patience, func() bool {
		msgs, _ := s.messages()
		return len(msgs) > 0 || s.closed()
	})
	_ = ok
	p.check(s.checkOpening(true), true, ctx)
	msg, timing := s.serve(reqs)
	p.check(msg, timing, ctx)
	return s
}

// ============================================================================
// P34 ========================================================================

// listedPeer is a peer that the tracker lists.
type listedPeer struct {
	kind string
	addr net.Addr
	ln   net.Listener
	mu   sync.Mutex
	hs   [][]byte // The first 68 bytes that were sent on each connection
	s    *session
	wait time.Duration
}

func (l *listedPeer) dials() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return len(l.hs)
}

// serve plays the peer.
func (l *listedPeer) serve(infohash string) {
	for {
		conn, e := l.ln.Accept()
		if e != nil {
			return
		}
		if l.kind == "closes" {
			l.mu.Lock()
			l.hs = append(l.hs, nil)
			l.mu.Unlock()
			_ = conn.Close()
			continue
		}
		hs, _ := readExactly(conn, 68)
		_ = conn.SetReadDeadline(time.Time{})
		switch l.kind {
		case "good", "slow":
			time.Sleep(l.wait)
			_, _ = conn.Write(handshakeOf(infohash, "-LL0000-abcdefghijkl", nil))
		case "silent":
		case "noise":
			_, _ = conn.Write(content(7, 500))
		case "other":
			_, _ = conn.Write(handshakeOf("aaaaaaaaaaaaaaaaaaaa", "-LL0000-abcdefghijkl", nil))
		case "resets":
			_ = conn.(*net.TCPConn).SetLinger(0)
			_ = conn.Close()
		case "hostile":
			_, _ = conn.Write(append(handshakeOf(infohash, "-LL0000-abcdefghijkl", nil), append(frame(6, be32(1<<31, 1<<31, 1<<32-1)), 0xff, 0xff, 0xff, 0xff, 6)...))
		}
		s := &session{tcp: conn, out: hs}
		if l.kind == "good" {
			s.follow()
		}
		l.mu.Lock()
		l.hs = append(l.hs, hs)
		l.s = s
		l.mu.Unlock()
	}
}

// stuckListener never takes connections, and its queue is full.
func stuckListener() (net.Addr, func(), bool) {
	fd, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if e != nil {
		return nil, nil, false
	}
	if syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}) != nil || syscall.Listen(fd, 0) != nil {
		_ = syscall.Close(fd)
		return nil, nil, false
	}
	sa, e := syscall.Getsockname(fd)
	if e != nil {
		_ = syscall.Close(fd)
		return nil, nil, false
	}
	addr := &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: sa.(*syscall.SockaddrInet4).Port}
	var conns []net.Conn
	for k := 0; k < 3; k++ {
		conn, e := net.DialTimeout("tcp", addr.String(), 30*time.Millisecond)
		if e != nil {
			break
		}
		conns = append(conns, conn)
	}
	return addr, func() {
		for _, conn := range conns {
			_ = conn.Close()
		}
		_ = syscall.Close(fd)
	}, true
}

func p34Started(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	dir, done := tempDir()
	defer done()
	var all []*listedPeer
	var addrs []net.Addr
	good, bad := 0, 0
	most := pick(c, "list size", 3, 8, 25)
	if c.chance(6, "long list") {
		most = c.intn(26, 130, "list size")
	}
	port := freePort()
	near := c.intn(0, 8, "near")
	favour := pick(c, "favour", "", "", "silent", "stuck", "closed")
	dicts := c.bool("dictionaries")
	hosts := 1 // Those that can be listed
	for hosts < len(localhosts) && (dicts || localhosts[hosts] != "[::1]") && c.bool("hosts") {
		hosts++
	}
	for n := c.intn(0, most, "peers"); n > 0; n-- {
		l := &listedPeer{kind: pick(c, "kind", "good", "good", "closed", "silent", "noise", "other", "closes", "resets", "hostile", "slow", "stuck")}
		if favour != "" && c.bool("favoured") {
			l.kind = favour
		}
		switch l.kind {
		case "slow":
			l.wait = time.Duration(c.intn(0, 3000, "slow ms")) * time.Millisecond
		case "stuck":
			addr, free, ok := stuckListener()
			if ok {
				defer free()
				l.addr = addr
			} else {
				l.kind = "closed"
			}
		}
		if near > 0 && near < 4 && l.addr == nil && l.kind != "closed" {
			// A port next to the program's
			p := port + []int{1, -1, 2}[near-1]
			if ln, e := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p)); e == nil {
				l.ln, l.addr = ln, ln.Addr()
				near = 0
				defer ln.Close()
				go l.serve(t.infohash())
			}
		}
		if near == 4 {
			// The program itself
			near = 0
			l.kind, l.addr = "self", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port}
		}
		if l.addr == nil {
			if l.kind == "closed" {
				addr, release := closedAddr()
				defer release()
				l.addr = addr
			} else {
				ln := newListenerOn(localhosts[c.intn(0, hosts-1, "host")])
				l.ln, l.addr = ln, ln.Addr()
				defer ln.Close()
				go l.serve(t.infohash())
			}
		}
		if l.kind == "good" {
			good++
		} else {
			bad++
		}
		all = append(all, l)
		addrs = append(addrs, l.addr)
	}
	var list string
	for _, l := range all {
		list += " " + l.kind
	}
	reply := answer(int64(c.intn(0, 5000, "interval")), compactPeers(addrs...))
	if dicts {
		var ds []any
		for _, a := range addrs {
			a := a.(*net.TCPAddr)
			ds = append(ds, &bdict{[]bpair{{"ip", a.IP.String()}, {"peer id", "-LL0000-abcdefghijkl"}, {"port", int64(a.Port)}}})
		}
		reply.set("peers", ds)
		list += " (dictionaries)"
	}
	var args []string
	if c.chance(4, "limits") {
		args = []string{"-u", "1G", "-d", "1G"}
	}
	if c.chance(5, "same port") && c.portApart(t, owned) {
		// A peer elsewhere uses the same port as the client, see childStart
		for _, l := range all {
			if l.ln != nil {
				childPort = l.addr.(*net.TCPAddr).Port
				list += fmt.Sprintf(", the client's port is %d", childPort)
			}
		}
	}
	p := c.startOn(port, dir, t, owned, reply, args...)
	defer p.kill()
	childPort = 0
	ctx := fmt.Sprintf("%s\nlisted peers:%s", t, list)

	// One announce, with what is used
	reqs := theTracker.requests()
	if len(reqs) != 1 {
		c.Fail("%d announces\n%s", len(reqs), ctx)
	}
	if port, _ := queryOf(reqs[0].URL.RawQuery, "port"); port != strconv.Itoa(p.port) {
		c.Fail("port %q is announced, the program listens on %d\n%s", port, p.port, ctx)
	}
	if ih, _ := queryOf(reqs[0].URL.RawQuery, "info_hash"); ih != t.infohash() {
		c.Fail("infohash %x is announced instead of %x\n%s", ih, t.infohash(), ctx)
	}
	if len(p.id) != 20 {
		c.Fail("peer id %q is announced\n%s", p.id, ctx)
	}
	left := int64(0)
	for i, have := range owned {
		if !have {
			left += t.plen(int64(i))
		}
	}
	for key, want := range map[string]int64{"uploaded": 0, "downloaded": 0, "left": left} {
		if got, _ := queryOf(reqs[0].URL.RawQuery, key); got != strconv.FormatInt(want, 10) {
			c.Fail("%s is announced as %q instead of %d\n%s", key, got, want, ctx)
		}
	}
	// Everybody who listens is dialled
	end := time.Now().Add(patience)
	for _, l := range all {
		for l.ln != nil && l.dials() == 0 {
			p.alive(ctx)
			if time.Now().After(end) {
				c.FailTiming("the peer %s (%s) was not dialled\n%s", l.addr, l.kind, ctx)
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	// Those that dial the program are served
	first := p.visit(ctx)
	// And those that were dialled
	for _, l := range all {
		if l.ln == nil || l.kind == "closes" {
			continue
		}
		l.mu.Lock()
		hs, s := l.hs[0], l.s
		l.mu.Unlock()
		if !bytes.Equal(hs, p.handshake(p.id)) {
			c.Fail("the program's handshake to %s (%s) is %q instead of %q\n%s", l.addr, l.kind, hs, p.handshake(p.id), ctx)
		}
		if l.kind != "good" {
			continue
		}
		s.w = p.world
		if p.nset() > 0 {
			var rs []wmsg
			for n := c.intn(1, 3, "requests"); n > 0; n-- {
				r := p.goodRequest("request")
				rs = append(rs, r)
				s.send(r.encode())
			}
			msg, timing := s.serve(rs)
			p.check(msg, timing, "dialled peer "+l.addr.String()+"\n"+ctx)
		} else {
			s.send(wmsg{kind: 255}.encode())
		}
		defer s.hangUp()
	}
	p.visit("later\n" + ctx)
	if first.closed() {
		p.alive(ctx)
		c.FailTiming("the first peer was dropped\n%s", ctx)
	}
	p.alive(ctx)
	if n := len(theTracker.requests()); n != 1 {
		c.Fail("%d announces\n%s", n, ctx)
	}
	for _, l := range all {
		if l.ln != nil && l.dials() > 1 {
			// Not forbidden by itself, but nobody was listed twice
			c.Label("dialled again")
		}
	}
	// Nothing happened to the files
	for i := range t.files {
		b, e := os.ReadFile(filepath.Join(dir, "wd", t.path(i)))
		off := int64(0)
		for k := 0; k < i; k++ {
			off += t.files[k].length
		}
		if e != nil || !bytes.Equal(b, p.disk[off:off+t.files[i].length]) {
			c.Fail("file %q was changed (%v)\n%s", t.path(i), e, ctx)
		}
	}
	if good > 0 && bad > 0 {
		c.NonTrivial(t.hashes, list)
		c.Sample("%s", ctx)
	}
	for _, l := range all {
		c.Label("peer %s", l.kind)
	}
}

// p34Crowd has the tracker list hundreds of peers that all stay.
func p34Crowd(c *C) {
	var lim syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	most := min(2500, int(min(lim.Max, 1<<20))/2-300)
	if most < 20 {
		c.Discard("not enough files can be open")
		return
	}
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	dir, done := tempDir()
	defer done()
	n := min(most, pick(c, "size", 100, 300, 1100, most))
	n = c.intn(n/2, n, "peers")
	silent := pick(c, "silent", 0, 0, 2, 10) // One of so many sends nothing
	ln, e := net.Listen("tcp4", "0.0.0.0:0")
	if e != nil {
		harnessError("%v", e)
	}
	defer ln.Close()
	port := uint16(ln.Addr().(*net.TCPAddr).Port)

	// They all share a port, but each has an address of its own
	base := uint32(127<<24 | 1<<16 | c.intn(0, 1<<20, "base"))
	index := func(ip net.IP) int { return int(binary.BigEndian.Uint32(ip.To4()) - base) }
	var list []byte
	for i := 0; i < n; i++ {
		list = binary.BigEndian.AppendUint32(list, base+uint32(i))
		list = binary.BigEndian.AppendUint16(list, port)
	}
	var mu sync.Mutex
	hs := make([][]byte, n)
	ss := make([]*session, n)
	dialled, again := 0, 0
	picked := map[int]bool{}
	for k := 0; k < 6; k++ {
		picked[c.intn(0, n-1, "picked")] = true
	}
	var conns []net.Conn
	go func() {
		for {
			conn, e := ln.Accept()
			if e != nil {
				return
			}
			i := index(conn.LocalAddr().(*net.TCPAddr).IP)
			if i < 0 || i >= n { // Nobody that was listed
				_ = conn.Close()
				continue
			}
			mu.Lock()
			conns = append(conns, conn)
			mu.Unlock()
			go func() {
				got, _ := readExactly(conn, 68)
				_ = conn.SetReadDeadline(time.Time{})
				if silent == 0 || i%silent != 0 || picked[i] {
					_, _ = conn.Write(handshakeOf(t.infohash(), fmt.Sprintf("-LL0000-%012d", i), nil))
				}
				s := &session{tcp: conn, out: got}
				if picked[i] {
					s.follow()
				}
				mu.Lock()
				if hs[i] == nil {
					hs[i], ss[i] = got, s
					dialled++
				} else {
					again++
				}
				mu.Unlock()
				if !picked[i] {
					_, _ = stdio.Copy(stdio.Discard, conn)
				}
			}()
		}
	}()
	defer func() {
		mu.Lock()
		defer mu.Unlock()
		for _, conn := range conns {
			_ = conn.Close()
		}
	}()
	p := c.startOn(freePort(), dir, t, owned, answer(100, list))
	defer p.kill()
	ctx := fmt.Sprintf("%s\n%d listed peers, one of %d sends nothing", t, n, silent)

	for end := time.Now().Add(2 * patience); ; time.Sleep(5 * time.Millisecond) {
		mu.Lock()
		k := dialled
		mu.Unlock()
		if k == n {
			break
		}
		p.alive(ctx)
		if time.Now().After(end) {
			c.FailTiming("only %d were dialled of %d listed peers\n%s", k, n, ctx)
		}
	}
	first := p.visit(ctx)
	for i, got := range hs {
		if !bytes.Equal(got, p.handshake(p.id)) {
			c.Fail("the program's handshake to peer %d is %q instead of %q\n%s", i, got, p.handshake(p.id), ctx)
		}
		if !picked[i] {
			continue
		}
		s := ss[i]
		s.w = p.world
		p.peers = append(p.peers, s)
		if p.nset() > 0 {
			r := p.goodRequest("request")
			s.send(r.encode())
			msg, timing := s.serve([]wmsg{r})
			p.check(msg, timing, fmt.Sprintf("dialled peer %d\n%s", i, ctx))
		}
	}
	p.visit("later\n" + ctx)
	if first.closed() {
		p.alive(ctx)
		c.FailTiming("the first visitor was dropped\n%s", ctx)
	}
	p.alive(ctx)
	c.Label("crowd of %d and more", n/100*100)
	c.NonTrivial("crowd", n, silent, t.hashes)
	if again > 0 {
		c.Label("dialled again")
	}
}

// p34Visitors has hundreds of peers connect, all of which stay.
func p34Visitors(c *C) {
	var lim syscall.Rlimit
	_ = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	most := min(1500, int(min(lim.Max, 1<<20))/2-300)
	if most < 20 {
		c.Discard("not enough files can be open")
		return
	}
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	dir, done := tempDir()
	defer done()
	n := min(most, pick(c, "size", 100, 300, 600, 1200, most))
	n = c.intn(n/2, n, "visitors")
	p := c.startOn(freePort(), dir, t, owned, answer(100, nil))
	defer p.kill()
	ctx := fmt.Sprintf("%s\n%d visitors", t, n)
	p.visit("first\n" + ctx)
	var all []*session
	for i := 0; i < n; i++ {
		s := p.connect()
		s.send(p.handshake(fmt.Sprintf("-VS0000-%012d", i)))
		all = append(all, s)
	}
	want := 68 + 5 + len(bitfieldOf(p.owned))
	for i, s := range all {
		// Patience with the first one is patience with all
		if !s.until(2*patience, func() bool { return len(s.received()) >= want || s.closed() }) || s.closed() {
			p.alive(ctx)
			c.FailTiming("visitor %d of %d was not admitted, it got %s\n%s", i+1, n, quote(s.received()), ctx)
		}
		p.check(s.checkOpening(true), false, fmt.Sprintf("visitor %d\n%s", i+1, ctx))
	}
	if p.nset() > 0 {
		for k := 0; k < 8; k++ {
			i := c.intn(0, n-1, "picked")
			if k == 0 {
				i = n - 1
			}
			// Asked a second time is one that has its answer
			s := all[i]
			if s == nil {
				continue
			}
			all[i] = nil
			r := p.goodRequest("request")
			s.send(r.encode())
			msg, timing := s.serve([]wmsg{r})
			p.check(msg, timing, fmt.Sprintf("visitor %d\n%s", i+1, ctx))
		}
	}
	for _, s := range p.peers {
		if s.closed() {
			p.alive(ctx)
			c.FailTiming("a visitor was dropped\n%s", ctx)
		}
	}
	p.visit("later\n" + ctx)
	p.alive(ctx)
	c.Label("%d and more visitors", n/100*100)
	c.NonTrivial("visitors", n, t.hashes)
}

// crashMark is what the Go runtime prints when it ends a program.
var crashMark = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[)`)

func p34Refused(c *C) {
	t := c.sessTor(300, 3000)
	dir, done := tempDir()
	defer done()
	port := freePort()
	// At the time of the announce it does not listen yet
	early := false
	t.announce = theTracker.base + "/announce"
	theTracker.set(nil, false, false)
	var data []byte
	what := pick(c, "what", "missing", "garbage", "damaged", "mutated", "failure", "tracker garbage", "drops", "not HTTP", "nobody there", "no URL", "bad answer", "no files", "no room")
	wantAnnounce := false
	switch what {
	case "missing":
	case "garbage":
		data = c.bytes(0, 100, "garbage")
	case "damaged":
		data = refEncode(c.damagedTorrent(t))
	case "mutated":
		data = t.encode()
		data = c.mutate(data, "dlei0123456789:-\x00", 4)
		if _, e := c.loadTorrent(data, dir); e == nil {
			c.Discard("loads")
		}
	case "failure":
		reason := c.bstr(0, "reason")
		d := &bdict{[]bpair{{"failure reason", reason}}}
		if c.bool("with peers") {
			d = answer(60, compactPeers(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}))
			d.set("failure reason", reason)
		}
		theTracker.set(refEncode(d), false, false)
		wantAnnounce = true
	case "tracker garbage":
		theTracker.set(c.bytes(0, 50, "garbage"), false, false)
		wantAnnounce = true
	case "drops":
		theTracker.set(nil, true, false)
		wantAnnounce = true
	case "not HTTP":
		theTracker.set(nil, false, true)
		wantAnnounce = true
	case "nobody there":
		addr, release := closedAddr()
		defer release()
		t.announce = "http://" + addr.String() + "/announce"
	case "no URL":
		t.announce = pick(c, "URL", "", "x", "http://", "udp://127.0.0.1:1/announce", ":", "http://[::1", "/announce")
	case "bad answer":
		d := answer(60, nil)
		d.del(pick(c, "field", "interval", "peers"))
		theTracker.set(refEncode(d), false, false)
		wantAnnounce = true
	}
	if what != "missing" {
		if data == nil {
			data = t.encode()
		}
		mustWrite(filepath.Join(dir, "t.torrent"), data)
	}
	wd := filepath.Join(dir, "wd")
	switch what {
	case "no files":
		// There is a directory where one of the files should be
		if e := os.MkdirAll(filepath.Join(wd, t.path(c.intn(0, len(t.files)-1, "blocked"))), 0o755); e != nil {
			harnessError("%v", e)
		}
	case "no room":
		mustWrite(wd, []byte("a file"))
	}
	if what != "no room" {
		if e := os.MkdirAll(wd, 0o755); e != nil {
			harnessError("%v", e)
		}
	}
	if what == "damaged" || what == "garbage" {
		if _, e := c.loadTorrent(data, dir); e == nil {
			c.Discard("loads")
		}
	}
	p := c.launch(dir, port)
	p.world = &world{c: c, t: t}
	defer p.kill()
	ctx := fmt.Sprintf("%s: torrent %s, tracker says %s", what, quote(data), quote(theTracker.body))
	limit := time.After(3 * patience)
	tick := time.NewTicker(2 * time.Millisecond)
	defer tick.Stop()
	for over := false; !over; {
		select {
		case <-p.over:
			over = true
		case <-limit:
			c.FailTiming("the program still runs\n%s\n%s", ctx, p.stderr())
		case <-tick.C:
			if conn, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port)); e == nil {
				_ = conn.Close()
				early = true
			}
		}
	}
	if early {
		c.Fail("the program listened, although it cannot start\n%s", ctx)
	}
	if p.code == 0 {
		c.Fail("the program ended without an error\n%s", ctx)
	}
	if len(p.stderr()) == 0 {
		c.Fail("no error message\n%s", ctx)
	}
	if p.code == 2 && crashMark.MatchString(p.stderr()) {
		c.Fail("the program crashed: %s\n%s", p.stderr(), ctx)
	}
	n := len(theTracker.requests())
	if wantAnnounce && n == 0 && what != "not HTTP" && what != "drops" || !wantAnnounce && n > 0 {
		c.Fail("%d announces\n%s", n, ctx)
	}
	c.Label("%s", what)
	c.NonTrivial(what, string(data), string(theTracker.body))
	c.Sample("%s", ctx)
}

// ============================================================================
// P21 ========================================================================

// p21Program runs attackers against the real program.
func p21Program(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	owned[c.intn(0, len(owned)-1, "one")] = true
	dir, done := tempDir()
	defer done()
	p := c.start(dir, t, owned, answer(60, nil))
	defer p.kill()
	wit := p.visit("the witness")
	var ctx []string
	all := func() string { return strings.Join(ctx, "\n") }
	witReqs := func() { p.again(wit, all()) }
	for n := c.intn(1, 12, "attackers"); n > 0; n-- {
		if c.chance(8, "crowd") {
			// Many that say nothing, or part of a handshake
			k := c.intn(20, 150, "crowd size")
			part := p.handshake("-CC0000-abcdefghijkl")[:c.intn(0, 68, "part")]
			for ; k > 0; k-- {
				s := p.connect()
				_, _ = s.tcp.Write(part)
			}
			ctx = append(ctx, fmt.Sprintf("a crowd sends %q", part))
			witReqs()
			continue
		}
		stream, bad := p.hostile(12)
		segs := c.segments(len(stream), "segment")
		s := p.connect()
		_ = s.tcp.SetWriteDeadline(time.Now().Add(patience))
		s.send(stream, segs...)
		how := pick(c, "how", "open", "closed", "reset", "half closed")
		switch how {
		case "closed":
			_ = s.tcp.Close()
		case "reset":
			_ = s.tcp.(*net.TCPConn).SetLinger(0)
			_ = s.tcp.Close()
		case "half closed":
			_ = s.tcp.(*net.TCPConn).CloseWrite()
		}
		ctx = append(ctx, fmt.Sprintf("attacker sends %s in %v, then %s", quote(stream), segs, how))
		if bad {
			c.NonTrivial(string(stream))
		}
		if c.chance(3, "witness between") {
			witReqs()
		}
	}
	witReqs()
	p.visit("comes after\n" + all())
	time.Sleep(20 * time.Millisecond)
	p.alive(all())
	c.Sample("program: %s", all())
}

// p21Files has more peers connect than the program may have files open.
func p21Files(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	owned[c.intn(0, len(owned)-1, "one")] = true
	dir, done := tempDir()
	defer done()
	maxFiles = len(t.files) + c.intn(20, 60, "files")
	defer func() { maxFiles = 0 }()
	p := c.start(dir, t, owned, answer(60, nil))
	defer p.kill()
	var hist []string
	ctx := func() string {
		return fmt.Sprintf("%s\nat most %d open files\n%s", t, maxFiles, strings.Join(hist, "\n"))
	}
	wit := p.visit(ctx())
	for k := c.intn(1, 2, "rounds"); k > 0; k-- {
		n := maxFiles + c.intn(-20, 60, "visitors")
		speak := c.bool("speak")
		var all []*session
		for i := 0; i < n; i++ {
			s := p.connect()
			if speak {
				s.send(p.handshake(fmt.Sprintf("-VS0000-%012d", i)))
			}
			all = append(all, s)
		}
		ms := c.intn(0, 400, "ms")
		hist = append(hist, fmt.Sprintf("%d visitors come, shake hands: %v, leave after %d ms", n, speak, ms))
		time.Sleep(time.Duration(ms) * time.Millisecond)
		p.alive(ctx())
		p.again(wit, ctx())
		reset := c.bool("reset")
		for i, s := range all {
			if reset && i%2 == 0 {
				_ = s.tcp.(*net.TCPConn).SetLinger(0)
			}
			s.hangUp()
		}
		p.visit("later\n" + ctx())
		p.again(wit, ctx())
	}
	p.alive(ctx())
	c.NonTrivial("files", ctx())
	c.Sample("%s", ctx())
}

// ============================================================================
// P31 ========================================================================

// p31Used looks at whether the program keeps to the limits it is given.
func p31Used(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.sessTor(pick(c, "max piece", 3000, 16384), 60000)
	// Pieces large enough for the traffic
	t.pieceLen = int64(c.intn(1000, 16384, "piece length"))
	t.makeHashes()
	var args []string
	kind := pick(c, "kind", "up", "up", "down", "up", "none", "negative")
	rate := int64(0)
	unit := ""
	switch kind {
	case "up":
		rate = int64(c.intn(5000, 60000, "rate"))
		args = []string{"-u", strconv.FormatInt(rate, 10) + pick(c, "unit", "", "B", "b")}
		if c.bool("kilo") {
			unit = pick(c, "kilo unit", "K", "k")
			n := int64(c.intn(5, 60, "kilo rate"))
			rate = n * 1024
			args = []string{"-u", strconv.FormatInt(n, 10) + unit}
		}
		if c.bool("with download limit") {
			args = append(args, "-d", pick(c, "down", "1G", "1", "-1"))
		}
	case "down":
		args = []string{"-d", strconv.Itoa(c.intn(1, 2000, "down rate"))}
	case "negative":
		args = []string{"-u", "-" + strconv.Itoa(c.intn(1, 2000, "negative")) + pick(c, "unit", "", "K", "M")}
	}
	p := c.start(dir, t, t.ownAll(), answer(60, nil), args...)
	defer p.kill()
	s := p.connect()
	s.send(p.handshake("-RR0000-abcdefghijkl"))
	if !s.until(patience, func() bool { m, _ := s.messages(); return len(m) > 0 }) {
		p.check("no answer to the handshake", true, fmt.Sprint(args))
	}
	// Each answer takes this many bytes
	r := wmsg{kind: 6, index: 0, reqlen: uint32(t.plen(0))}
	size := int64(13 + r.reqlen)
	secs := int64(c.intn(1, 3, "seconds"))
	count := (secs+3)*rate/size + 10
	if kind != "up" {
		count = (4 << 20) / size
	}
	begin := time.Now()
	s.send(bytes.Repeat(r.encode(), int(count)))
	if kind == "up" {
		time.Sleep(time.Duration(secs)*time.Second + time.Duration(c.intn(0, 900, "ms"))*time.Millisecond)
		got := int64(len(s.received()))
		took := time.Since(begin)
		// A tick may come at once, and one with every second
		most := (int64(took/time.Second)+2)*(rate+size) + 500
		if got > most {
			c.Fail("%d bytes were sent within %v, at most %d may be with %q", got, took, most, args)
		}
		// And it does go on
		least := max(1, int64(took/time.Second)-1) * rate / 2
		if got < least && took < time.Duration(secs+2)*time.Second {
			c.FailTiming("only %d bytes were sent within %v with %q", got, took, args)
		}
		if want := 2*rate + 2*size; !s.until(patience, func() bool { return int64(len(s.received())) >= want }) {
			c.FailTiming("only %d bytes were sent within %v with %q", len(s.received()), time.Since(begin), args)
		}
	} else {
		if !s.until(patience, func() bool { return len(s.answers()) >= int(count) }) {
			p.check(fmt.Sprintf("%d of %d answers within %v, although there is no limit: %q", len(s.answers()), count, patience, args), true, "")
		}
	}
	c.NonTrivial(args, t.pieceLen)
	c.Sample("%q: pieces of %d bytes", args, t.pieceLen)
	c.Label("used: %s", kind)
}
