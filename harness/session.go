package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	stdio "io"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"sync"
	"syscall"
	"time"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"gotor/utils"
)

// ============================================================================
// Worlds =====================================================================

var sessDir, sessTorrent string

// initOpts gives the process gotor's command line. The parser keeps it for good,
// so all the cases of a process use the same torrent path and directory.
func initOpts() {
	sessDir = filepath.Join(job.Scratch, "wd")
	sessTorrent = filepath.Join(job.Scratch, "t.torrent")
	os.Args = []string{"vp", "-i", sessTorrent, "-w", sessDir, "-p", strconv.Itoa(job.Port)}
	utils.GetOpts()
	startTracker()
}

// world is a client of this process with its torrent.
type world struct {
	c     *C
	t     *tor
	sw    *swarm.Swarm
	disk  []byte // Content of the files once prepared
	owned []bool
	peers []*session
	id    string // The client's peer id
}

// nset is how many pieces the client has.
func (w *world) nset() (n int) {
	for _, o := range w.owned {
		if o {
			n++
		}
	}
	return n
}

// have puts the pieces that are owned on disk, and something else instead of the
// others.
func (t *tor) have(dir string, owned []bool) []byte {
	data := append([]byte(nil), t.content...)
	for i := range owned {
		if !owned[i] {
			p := data[int64(i)*t.pieceLen : int64(i)*t.pieceLen+t.plen(int64(i))]
			p[len(p)/2] ^= 0x55
		}
	}
	off := int64(0)
	for i, f := range t.files {
		mustWrite(filepath.Join(dir, t.path(i)), data[off:off+f.length])
		off += f.length
	}
	return data
}

// clearSess makes room for the files of a client. Whatever is left of one before
// may still be at work on its own.
func clearSess() {
	old, e := os.MkdirTemp(job.Scratch, "old")
	if e != nil {
		harnessError("%v", e)
	}
	if e := os.Rename(sessDir, filepath.Join(old, "wd")); e != nil && !os.IsNotExist(e) {
		harnessError("%v", e)
	}
	_ = os.RemoveAll(old)
}

// newWorld starts a client that owns some pieces of the torrent.
func (c *C) newWorld(t *tor, owned []bool) *world {
	w := &world{c: c, t: t, owned: owned}
	clearSess()
	w.disk = t.have(sessDir, owned)
	w.boot()
	return w
}

// boot starts the client on what is in its directory.
func (w *world) boot() {
	c, t := w.c, w.t
	t.announce = theTracker.base + "/announce"
	mustWrite(sessTorrent, t.encode())
	theTracker.set(refEncode(answer(60, nil)), false, false)
	var sw *swarm.Swarm
	var e error
	c.timed("start-up", func() { sw, e = swarm.NewSwarm(utils.GetOpts()) })
	if e != nil {
		c.Fail("the client does not start: %v\n%s", e, t)
	}
	w.sw, w.id = sw, sw.Id
}

// close ends all sessions.
func (w *world) close() {
	for _, s := range w.peers {
		s.hangUp()
	}
	for _, s := range w.peers {
		select {
		case <-s.done:
		case <-time.After(patience):
		}
	}
	_ = w.sw.Fileio.CloseAll()
}

// ownAll and ownSome draw what the client has.
func (t *tor) ownAll() []bool {
	o := make([]bool, t.npieces())
	for i := range o {
		o[i] = true
	}
	return o
}

func (c *C) ownSome(t *tor) []bool {
	o := t.ownAll()
	switch c.intn(0, 3, "owned kind") {
	case 0: // all
	case 1: // none
		for i := range o {
			o[i] = false
		}
	case 2: // all but one
		o[c.intn(0, len(o)-1, "missing")] = false
	default:
		for i := range o {
			o[i] = c.bool("owned")
		}
	}
	return o
}

// sessTor draws a torrent with content and at least one piece.
func (c *C) sessTor(maxPiece int, most int64) *tor {
	t := c.torShape(maxPiece, most)
	if t.total == 0 {
		n := t.pieceLen + 1
		t.files[0].length, t.total = n, n
	}
	t.makeContent(c.seed("content"))
	c.mayBeWild(t)
	return t
}

// ============================================================================
// Sessions ===================================================================

// session is a connection of the client with a peer that the harness plays.
type session struct {
	w     *world
	conn  *memConn
	tcp   net.Conn // The peer's end, instead of conn
	tcpMu sync.Mutex
	out   []byte // What was received over tcp
	gone  bool   // The client closed tcp
	ph    *swarm.PeerHandler
	err   error     // of the handshake
	up    chan bool // The handshake is over
	done  chan bool // The client is done with the connection
}

var connCount int

// incoming hands a scripted connection to the client.
func (w *world) incoming() *session {
	connCount++
	s := &session{w: w, conn: newMemConn(connCount), up: make(chan bool), done: make(chan bool)}
	w.peers = append(w.peers, s)
	go func() {
		defer close(s.done)
		s.ph, s.err = swarm.FromIncoming(s.conn, w.sw)
		close(s.up)
		if s.err == nil {
			s.ph.Loop()
		}
	}()
	return s
}

// listener is a peer that can be dialled.
func newListener() *net.TCPListener {
	ln, e := net.ListenTCP("tcp4", &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if e != nil {
		harnessError("%v", e)
	}
	return ln
}

// newListenerOn listens on one of the localhosts.
func newListenerOn(host string) net.Listener {
	ln, e := net.Listen("tcp", host+":0")
	if e != nil {
		harnessError("%v", e)
	}
	return ln
}

// closedAddr is an address on which nobody listens until it is released.
func closedAddr() (addr *net.TCPAddr, release func()) {
	fd, e := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if e != nil {
		harnessError("%v", e)
	}
	if e = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); e != nil {
		harnessError("%v", e)
	}
	sa, e := syscall.Getsockname(fd)
	if e != nil {
		harnessError("%v", e)
	}
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: sa.(*syscall.SockaddrInet4).Port}, func() { _ = syscall.Close(fd) }
}

// dial makes the client connect to the address.
func (w *world) dial(addr net.Addr) *session {
	a := addr.(*net.TCPAddr)
	s := &session{w: w, up: make(chan bool), done: make(chan bool)}
	w.peers = append(w.peers, s)
	go func() {
		defer close(s.done)
		s.ph, s.err = swarm.FromBootstrap(peer.MakePeer("", a.IP, uint16(a.Port)), w.sw)
		close(s.up)
		if s.err == nil {
			s.ph.Loop()
		}
	}()
	return s
}

// accepted is the peer's end of a connection.
func (s *session) accepted(ln *net.TCPListener) net.Conn {
	_ = ln.SetDeadline(time.Now().Add(patience))
	conn, e := ln.Accept()
	if e != nil {
		return nil
	}
	s.tcp = conn
	return conn
}

// follow collects what the client sends over TCP.
func (s *session) follow() {
	go func() {
		buf := make([]byte, 65536)
		for {
			n, e := s.tcp.Read(buf)
			s.tcpMu.Lock()
			s.out = append(s.out, buf[:n]...)
			s.gone = e != nil
			s.tcpMu.Unlock()
			if e != nil {
				return
			}
		}
	}()
}

func (s *session) send(data []byte, sizes ...int) {
	if s.conn != nil {
		s.conn.push(data, sizes...)
		return
	}
	for _, n := range sizes {
		if n <= 0 || n >= len(data) {
			continue
		}
		_, _ = s.tcp.Write(data[:n])
		data = data[n:]
	}
	_, _ = s.tcp.Write(data)
}

// received is all that the client sent so far.
func (s *session) received() []byte {
	if s.conn != nil {
		return s.conn.written()
	}
	s.tcpMu.Lock()
	defer s.tcpMu.Unlock()
	return append([]byte(nil), s.out...)
}

// closed tells whether the client closed the connection.
func (s *session) closed() bool {
	if s.conn != nil {
		return s.conn.isClosed()
	}
	s.tcpMu.Lock()
	defer s.tcpMu.Unlock()
	return s.gone
}

func (s *session) hangUp() {
	if s.conn != nil {
		s.conn.finish(stdio.EOF, false)
		return
	}
	if s.tcp != nil {
		_ = s.tcp.Close()
	}
}

// until waits until cond holds, or the time is up.
func (s *session) until(d time.Duration, cond func() bool) bool {
	end := time.Now().Add(d)
	for wait := 20 * time.Microsecond; ; wait = min(2*wait, 5*time.Millisecond) {
		if cond() {
			return true
		}
		if time.Now().After(end) {
			return cond()
		}
		if s.conn != nil {
			// Woken when the client does something
			n := 0
			s.conn.mu.Lock()
			n = s.conn.writes
			s.conn.mu.Unlock()
			s.conn.wait(wait, func() bool { return s.conn.writes != n || s.conn.closed })
			if s.conn.isClosed() {
				time.Sleep(wait)
			}
		} else {
			time.Sleep(wait)
		}
	}
}

func handshakeOf(infohash, id string, reserved []byte) []byte {
	hs := append([]byte{19}, "BitTorrent protocol"...)
	res := make([]byte, 8)
	copy(res, reserved)
	hs = append(hs, res...)
	hs = append(hs, infohash...)
	return append(hs, id...)
}

// handshake is one the client should admit.
func (w *world) handshake(id string) []byte { return handshakeOf(w.t.infohash(), id, nil) }

// bitfieldOf is the payload of a bitfield message.
func bitfieldOf(have []bool) []byte {
	b := make([]byte, (len(have)+7)/8)
	for i, h := range have {
		if h {
			b[i/8] |= 0x80 >> uint(i%8)
		}
	}
	return b
}

// rmsg is a message the client sent.
type rmsg struct {
	kind    byte // 255 for keep-alive
	payload []byte
}

func (m rmsg) String() string { return fmt.Sprintf("{type %d %s}", m.kind, quote(m.payload)) }

// parse takes a byte stream apart. rest is what is left of an incomplete message.
func parse(data []byte) (msgs []rmsg, rest []byte) {
	for len(data) >= 4 {
		n := uint64(binary.BigEndian.Uint32(data))
		if n == 0 {
			msgs = append(msgs, rmsg{255, nil})
			data = data[4:]
			continue
		}
		if uint64(len(data)) < 4+n {
			break
		}
		msgs = append(msgs, rmsg{data[4], data[5 : 4+n]})
		data = data[4+n:]
	}
	return msgs, data
}

// answers are the piece messages among what the client sent after its handshake.
// Empty blocks do not count.
func (s *session) answers() (out []rmsg) {
	msgs, _ := s.messages()
	for _, m := range msgs {
		if m.kind == 7 && len(m.payload) != 8 {
			out = append(out, m)
		}
	}
	return out
}

// unchoked waits until the client has told its peer that it may request, which
// it must not take back.
func (s *session) unchoked() (msg string, timing bool) {
	last := byte(0)
	s.until(patience, func() bool {
		msgs, _ := s.messages()
		for _, m := range msgs {
			if m.kind <= 1 {
				last = m.kind
			}
		}
		return last == 1 || s.closed()
	})
	if last != 1 {
		return "the peer was not told that it may request (unchoke)", true
	}
	return "", false
}

// messages are those the client sent after its handshake.
func (s *session) messages() ([]rmsg, []byte) {
	data := s.received()
	if len(data) < 68 {
		return nil, data
	}
	return parse(data[68:])
}

// requests are the blocks that the client asked for.
func (s *session) requests() (out []wmsg) {
	msgs, _ := s.messages()
	for _, m := range msgs {
		if m.kind == 6 {
			w := wmsg{kind: 6}
			if len(m.payload) == 12 {
				w.index, w.begin, w.reqlen = binary.BigEndian.Uint32(m.payload), binary.BigEndian.Uint32(m.payload[4:]), binary.BigEndian.Uint32(m.payload[8:])
			} else {
				w.kind = 0 // Malformed
			}
			out = append(out, w)
		}
	}
	return out
}

// checkOpening checks the handshake and bitfield that admit a peer.
func (s *session) checkOpening(bits bool) string {
	data := s.received()
	w := s.w
	want := handshakeOf(w.t.infohash(), w.id, nil)
	if len(data) < 68 {
		return fmt.Sprintf("the client sent %s instead of a handshake", quote(data))
	}
	if !bytes.Equal(data[:68], want) {
		return fmt.Sprintf("the client's handshake is %q instead of %q", data[:68], want)
	}
	if !bits {
		return ""
	}
	msgs, rest := parse(data[68:])
	if len(msgs) == 0 {
		return fmt.Sprintf("after the handshake the client sent %s instead of a bitfield", quote(rest))
	}
	if m := msgs[0]; m.kind != 5 || !bytes.Equal(m.payload, bitfieldOf(w.owned)) {
		return fmt.Sprintf("after the handshake the client sent %v instead of the bitfield %x", m, bitfieldOf(w.owned))
	}
	return ""
}

// ============================================================================
// Requests ===================================================================

// valid tells whether a request must be answered. Empty ones may be.
func (w *world) valid(r wmsg) bool {
	i := int64(r.index)
	return i < w.t.npieces() && w.owned[i] && r.reqlen > 0 && int64(r.begin)+int64(r.reqlen) <= w.t.plen(i)
}

// answer is what a valid request must be answered with.
func (w *world) answer(r wmsg) []byte {
	p := w.t.piece(int64(r.index))
	return append(be32(r.index, r.begin), p[r.begin:int64(r.begin)+int64(r.reqlen)]...)
}

// goodRequest draws a request for a block of an owned piece.
func (w *world) goodRequest(label string) wmsg {
	c, t := w.c, w.t
	var own []int
	for i, o := range w.owned {
		if o {
			own = append(own, i)
		}
	}
	i := own[c.intn(0, len(own)-1, label+" piece")]
	if c.chance(4, label+" last") {
		i = own[len(own)-1]
	}
	n := int(t.plen(int64(i)))
	r := wmsg{kind: 6, index: uint32(i)}
	switch c.intn(0, 4, label+" kind") {
	case 0: // All
		r.reqlen = uint32(n)
	case 1: // An end
		r.begin = uint32(c.intn(0, n-1, label+" begin"))
		r.reqlen = uint32(n) - r.begin
	case 2: // One byte
		r.begin = uint32(c.intn(0, n-1, label+" begin"))
		r.reqlen = 1
	default:
		r.begin = uint32(c.intn(0, n-1, label+" begin"))
		r.reqlen = uint32(c.intn(1, n-int(r.begin), label+" len"))
	}
	return r
}

// anyRequest draws one that is not valid, mostly by little.
func (w *world) anyRequest(label string) wmsg {
	c, t := w.c, w.t
	n := int(t.npieces())
	i := c.intn(0, n-1, label+" piece")
	if c.chance(3, label+" last") {
		i = n - 1
	}
	p := int(t.plen(int64(i)))
	r := wmsg{kind: 6, index: uint32(i)}
	switch c.intn(0, 6, label+" kind") {
	case 0: // Runs over the end
		r.begin = uint32(c.intn(0, p, label+" begin"))
		r.reqlen = uint32(p) - r.begin + uint32(c.intn(1, 20, label+" over"))
	case 1: // Up to the length of the others, in the last one
		r.index = uint32(n - 1)
		r.reqlen = uint32(t.pieceLen)
	case 2: // Begins behind the end
		r.begin = uint32(p + c.intn(0, 5, label+" behind"))
		r.reqlen = uint32(c.intn(0, 5, label+" len"))
	case 3: // Wraps around in 32 bits
		r.begin = uint32(c.intn(0, p, label+" begin"))
		r.reqlen = -r.begin + uint32(c.intn(0, p, label+" wrapped"))
		if c.bool(label + " other") {
			r.begin, r.reqlen = r.reqlen, r.begin
		}
	case 4: // Outside the torrent
		r.index = pick(c, label+" index", uint32(n), uint32(n+1), uint32(n+c.intn(0, 20, label+" off")), 1<<31, 1<<32-1, 1<<31-1, c.u32(label+" any index"))
		r.reqlen = uint32(c.intn(1, p, label+" len"))
	case 5:
		r.begin, r.reqlen = c.u32(label+" begin"), c.u32(label+" len")
	default: // A piece we may not own
		r.reqlen = uint32(p)
	}
	return r
}

// serve checks the answers of a session to the requests: those to the valid ones,
// in order. It gives up early if the session ended, which is allowed after an
// invalid request only.
func (s *session) serve(reqs []wmsg) (msg string, timing bool) {
	w := s.w
	var want [][]byte
	firstBad := -1
	for i, r := range reqs {
		if w.valid(r) {
			want = append(want, w.answer(r))
		} else if !(r.reqlen == 0 && int64(r.index) < w.t.npieces()) && firstBad < 0 {
			firstBad = len(want)
			_ = i
		}
	}
	got := s.answers()
	ended := func() bool {
		select {
		case <-s.done:
			return true
		default:
			return s.closed()
		}
	}
	ok := s.until(patience, func() bool {
		got = s.answers()
		return len(got) >= len(want) || ended()
	})
	if ended() {
		time.Sleep(time.Millisecond)
		got = s.answers()
	}
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("answer %d (%v) was not asked for\nrequests %v", i, got[i], reqs), false
		}
		if !bytes.Equal(got[i].payload, want[i]) {
			return fmt.Sprintf("answer %d is %v\ninstead of %s\nrequests %v", i, got[i], quote(want[i]), reqs), false
		}
	}
	if len(got) < len(want) {
		if ended() {
			if firstBad >= 0 && len(got) >= firstBad {
				return "", false
			}
			return fmt.Sprintf("the session ended after %d of %d answers\nrequests %v", len(got), len(want), reqs), true
		}
		_ = ok
		return fmt.Sprintf("%d of %d answers after %v\nrequests %v", len(got), len(want), patience, reqs), true
	}
	return "", false
}

// check fails the case with what serve and others say.
func (c *C) check(msg string, timing bool, ctx ...any) {
	if msg == "" {
		return
	}
	for _, x := range ctx {
		msg += fmt.Sprintf("\n%v", x)
	}
	if timing {
		c.FailTiming("%s", msg)
	}
	c.Fail("%s", msg)
}

// ownedBits are the pieces a bitfield of the client says it has.
func ownedBits(b *bf.Bitfield) []bool {
	out := make([]bool, b.Nbits())
	for i := range out {
		out[i] = b.Get(int64(i))
	}
	return out
}

// sortedReqs orders requests by place.
func sortedReqs(reqs []wmsg) []wmsg {
	out := append([]wmsg(nil), reqs...)
	sort.Slice(out, func(i, j int) bool {
		if out[i].index != out[j].index {
			return out[i].index < out[j].index
		}
		return out[i].begin < out[j].begin
	})
	return out
}
