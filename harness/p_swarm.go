package main

import (
	"bytes"
	"fmt"
	stdio "io"
	"net"
	"runtime"
	"strings"
	"time"
)

func init() {
	register(&Prop{
		ID:       "P21",
		NeedOpts: true,
		Rule: "Hostile streams (noise, mutated and truncated messages, length prefixes that lie, bitfields of wrong sizes, requests with extreme numbers, floods, handshake fragments), in generated segments and ends, next to a witness that must be served before, meanwhile and after, and peers that come later; also against the real program; " +
			"non-trivial: a stream that is read behind a valid handshake and holds at least one malformed or invalid message (distinct by stream). Also peers that take nothing of what they are sent, and a process with fewer open files allowed than peers that come.",
		Subs: []Sub{
			{"streams", 4000, 60000, p21Streams},
			{"swarm", 1600, 16000, p21Swarm},
			{"stalled", 80, 800, p21Stalled},
			{"program", 48, 400, p21Program},
			{"files", 24, 240, p21Files},
		},
	})
	register(&Prop{
		ID:       "P25",
		NeedOpts: true,
		Rule: "Clients that lack generated sets of pieces, and peers that announce generated sets, early, late, in two steps, and leave; all requests are recorded; " +
			"non-trivial: at least two peers that announced a needed piece in common (distinct by torrent, what is owned and what is announced). Also torrents of up to 131072 pieces, or with pieces of hundreds of blocks.",
		Subs: []Sub{
			{"swarm", 3200, 32000, p25Swarm},
			{"clock", 3200, 32000, p25Clock},
			{"wide", 48, 480, p25Wide},
		},
	})
	register(&Prop{
		ID:       "P26",
		NeedOpts: true,
		Rule: "Chains of peers that are assigned pieces and end in generated ways (close, reset, broken write, half a message, wrong bitfield, message too long, silence); the next one must be asked for the pieces; then many sessions at once, all of which must be released; " +
			"non-trivial: a session that was assigned pieces and ended by other means than closing (distinct by chain). Also connections that break while they are being opened. And peers that announce without end when writes to them break.",
		Subs: []Sub{
			{"chain", 1200, 16000, p26Chain},
			{"clock", 1200, 16000, p26Clock},
			{"broken", 1200, 16000, p26Broken},
			{"many", 160, 1600, p26Many},
			{"busy", 320, 3200, p26Busy},
		},
	})
}

// ============================================================================
// P21 ========================================================================

// hostile draws what a peer may send that means harm. It tells whether a part of it
// is malformed or invalid behind a valid handshake.
func (w *world) hostile(most int) (stream []byte, bad bool) {
	c := w.c
	switch c.intn(0, 9, "opening") {
	case 0:
		stream, _, _ = w.badOpening()
		return stream, false
	case 1: // Nothing but noise
		return content(c.seed("noise"), int64(c.intn(0, 3000, "n"))), false
	}
	stream = w.handshake(c.peerId("id"))
	for n := c.intn(1, most, "messages"); n > 0; n-- {
		m, b := w.hostileMsg()
		stream = append(stream, m...)
		bad = bad || b
	}
	if c.chance(4, "truncated") {
		stream = stream[:68+c.intn(0, len(stream)-68, "truncated at")]
	}
	return stream, bad
}

func (w *world) hostileMsg() ([]byte, bool) {
	c, n := w.c, w.t.npieces()
	switch c.intn(0, 11, "message") {
	case 0:
		return c.badMsg(), true
	case 1: // An invalid request
		return w.anyRequest("request").encode(), true
	case 2: // Bitfields of about the right size
		size := max(0, (int(n)+7)/8+pick(c, "bitfield off", 0, 0, 0, -1, 1, 8, 100))
		b := content(c.seed("bitfield"), int64(size))
		if c.bool("all") {
			for i := range b {
				b[i] = 0xff
			}
		}
		return frame(5, b), true
	case 3: // Have, around the number of pieces
		i := pick(c, "have", uint32(n), uint32(n-1), uint32(n+1), 1<<32-1, 1<<31, 0, c.u32("any have"))
		return frame(4, be32(i)), int64(i) >= n
	case 4: // Blocks nobody asked for
		i := pick(c, "piece", uint32(n), uint32(n-1), 0, 1<<32-1, c.u32("any piece"))
		b := pick(c, "block begin", 0, 1, uint32(w.t.pieceLen), uint32(w.t.pieceLen-1), 1<<32-1, c.u32("any begin"))
		return frame(7, append(be32(i, b), content(c.seed("block"), int64(c.intn(0, 200, "block len")))...)), true
	case 5: // Cancel and others, with payloads of wrong sizes
		return frame(byte(c.intn(0, 22, "type")), content(c.seed("payload"), int64(c.intn(0, 20, "payload len")))), true
	case 6: // Length prefixes alone
		return be32(pick(c, "prefix", 1<<32-1, 1<<32-4, 1<<32-5, 1<<31, 1<<31-1, 1<<24, 1<<20, 1<<20-4, 1<<20-3, 1<<20+1, 16385, 13, 9, 5, 1, c.u32("any prefix"))), true
	case 7: // A flood of small messages
		m := pick(c, "flood", wmsg{kind: 255}, wmsg{kind: 0}, wmsg{kind: 1}, wmsg{kind: 2}, wmsg{kind: 3}).encode()
		return bytes.Repeat(m, c.intn(1, 3000, "times")), false
	case 8: // Another handshake
		return w.handshake(c.peerId("id")), true
	case 9: // Extension handshake and such, with bencoded payload
		return frame(20, append([]byte{byte(c.intn(0, 3, "ext"))}, refEncode(c.bval(3, 0))...)), false
	case 10: // Many requests for the same block
		if w.nset() == 0 {
			return frame(4, be32(0)), false
		}
		return bytes.Repeat(w.goodRequest("request").encode(), c.intn(1, 50, "times")), false
	default:
		enc := c.wmsg().encode()
		if len(enc) > 400 {
			enc = enc[:400]
		}
		return c.mutate(enc, "\x00\x01\x04\x05\x06\x07\x08\xff", 3), true
	}
}

// ends draws how the peer ends.
func (s *session) ends() string {
	c := s.w.c
	how := pick(c, "how", "open", "closed", "closed with data", "reset", "reset with data")
	if s.conn == nil {
		return how
	}
	switch how {
	case "closed":
		s.conn.finish(stdio.EOF, false)
	case "closed with data":
		s.conn.finish(stdio.EOF, true)
	case "reset":
		s.conn.finish(errReset, false)
	case "reset with data":
		s.conn.finish(errReset, true)
	}
	return how
}

// newcomer checks that a peer that connects now is served.
func (w *world) newcomer(when string) {
	x := w.witness()
	x.serve("coming " + when)
	w.c.check(x.s.checkOpening(true), false, when)
}

func p21Streams(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000, 40000))
	owned := c.ownSome(t)
	owned[c.intn(0, len(owned)-1, "one")] = true
	w := c.newWorld(t, owned)
	defer w.close()
	wit := w.witness()
	wit.serve("before")
	var ctx []string
	for n := c.intn(1, 5, "attackers"); n > 0; n-- {
		stream, bad := w.hostile(12)
		segs := c.segments(len(stream), "segment")
		s := w.incoming()
		s.send(stream, segs...)
		how := s.ends()
		ctx = append(ctx, fmt.Sprintf("attacker sends %s in %v, then %s", quote(stream), segs, how))
		if bad {
			c.NonTrivial(string(stream))
			c.Sample("%s", ctx[len(ctx)-1])
		}
		if c.chance(3, "witness between") {
			wit.serve("meanwhile")
		}
		if how != "open" {
			select {
			case <-s.done:
			case <-time.After(patience):
				c.FailTiming("the client is not done with a peer that is gone\n%s", strings.Join(ctx, "\n"))
			}
		}
	}
	wit.serve("after " + strings.Join(ctx, "\n"))
	w.newcomer("after " + strings.Join(ctx, "\n"))
}

// p21Swarm has attackers that are alive together with peers that have pieces we
// need: those must still be asked.
func p21Swarm(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(300), 3000))
	owned := t.ownAll()
	n := len(owned)
	missing := c.intn(0, n-1, "missing")
	owned[missing] = false
	w := c.newWorld(t, owned)
	defer w.close()
	var ctx []string
	for k := c.intn(1, 4, "attackers"); k > 0; k-- {
		stream, bad := w.hostile(8)
		s := w.incoming()
		segs := c.segments(len(stream), "segment")
		s.send(stream, segs...)
		how := s.ends()
		ctx = append(ctx, fmt.Sprintf("attacker sends %s in %v, then %s", quote(stream), segs, how))
		if bad {
			c.NonTrivial(string(stream))
		}
	}
	if n > 1 {
		w.newcomer("next to " + strings.Join(ctx, "\n"))
	}
	// The piece that an attacker claims to have is free once the attacker is gone
	for _, s := range w.peers {
		s.hangUp()
	}
	for _, s := range w.peers {
		select {
		case <-s.done:
		case <-time.After(patience):
			c.FailTiming("the client is not done with a peer that is gone\n%s", strings.Join(ctx, "\n"))
		}
	}
	s := w.incoming()
	have := make([]bool, n)
	have[missing] = true
	s.send(w.handshake("-GG0000-abcdefghijkl"))
	s.send(frame(5, bitfieldOf(have)))
	if !s.until(patience, func() bool { return s.asked()[uint32(missing)] }) {
		c.FailTiming("the peer that has piece %d is not asked for it after %s", missing, strings.Join(ctx, "\n"))
	}
	c.Sample("%s; then piece %d of %d is asked for", ctx[0], missing, n)
}

// asked are the pieces that a peer was asked for.
func (s *session) asked() map[uint32]bool {
	out := map[uint32]bool{}
	for _, r := range s.requests() {
		out[r.index] = true
	}
	return out
}

// p21Stalled has peers that ask for a lot and do not read it.
func p21Stalled(c *C) {
	t := c.sessTor(70000, 400000)
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	wit := w.witness()
	wit.serve("before")
	var conns []net.Conn
	for n := c.intn(1, 8, "stalled"); n > 0; n-- {
		ln := newListener()
		defer ln.Close()
		s := w.dial(ln.Addr())
		conn := s.accepted(ln)
		if conn == nil {
			c.FailTiming("the client did not connect")
		}
		defer conn.Close()
		_ = conn.(*net.TCPConn).SetReadBuffer(4096)
		// Ask for more than fits in all the buffers
		r := w.goodRequest("request")
		if c.chance(3, "large") {
			i := uint32(c.intn(0, int(t.npieces())-1, "large piece"))
			r = wmsg{kind: 6, index: i, reqlen: uint32(t.plen(int64(i)))}
		}
		times := min(20000, 1+(12<<20)/(13+int(r.reqlen)))
		stream := append(w.handshake(c.peerId("id")), bytes.Repeat(r.encode(), times)...)
		conns = append(conns, conn)
		go func() {
			_ = conn.SetWriteDeadline(time.Now().Add(patience))
			_, _ = conn.Write(stream)
		}()
		c.NonTrivial(t.hashes, r, times)
		c.Sample("%d times %v, nothing is read", times, r)
	}
	for n := c.intn(1, 10, "rounds"); n > 0; n-- {
		time.Sleep(time.Duration(c.intn(0, 20, "ms")) * time.Millisecond)
		wit.serve("meanwhile")
	}
	w.newcomer("next to stalled peers")
	for _, conn := range conns {
		if c.bool("reset") {
			_ = conn.(*net.TCPConn).SetLinger(0)
		}
		_ = conn.Close()
	}
	for _, s := range w.peers {
		if s.conn != nil {
			continue
		}
		select {
		case <-s.done:
		case <-time.After(patience):
			c.FailTiming("the client is not done with a stalled peer that is gone")
		}
	}
	wit.serve("after")
}

// ============================================================================
// P25 ========================================================================

// lacking draws what a client owns that lacks something. At most most pieces are
// missing if most > 0.
func (c *C) lacking(t *tor, most int) []bool {
	n := int(t.npieces())
	owned := t.ownAll()
	if most == 0 && c.chance(3, "lack all") {
		return make([]bool, n)
	}
	if most == 0 {
		most = n
	}
	for k := c.intn(1, most, "lacking"); k > 0; k-- {
		i := c.intn(0, n-1, "lack")
		if c.chance(4, "lack last") {
			i = n - 1
		}
		owned[i] = false
	}
	return owned
}

// leech is a session of a peer that announces pieces.
type leech struct {
	*session
	have  []bool
	later []bool // Announced in addition, later
	gone  bool
	said  bool // have was announced
	quit  bool // It leaves
}

// wantsBlocks checks the requests sent to the peer so far. full is true if the last
// piece must be covered, too.
func (l *leech) wantsBlocks() (msg string, complete bool) {
	w := l.w
	by := map[uint32][]wmsg{}
	for _, r := range l.requests() {
		switch {
		case r.kind != 6:
			return "a malformed request", false
		case int64(r.index) >= w.t.npieces():
			return fmt.Sprintf("%v is outside the torrent", r), false
		case w.owned[r.index]:
			return fmt.Sprintf("%v is for a piece that the client has", r), false
		case !l.said || !l.have[r.index]:
			return fmt.Sprintf("%v is for a piece that the peer did not announce", r), false
		case r.reqlen == 0 || r.reqlen > 16384:
			return fmt.Sprintf("%v is empty or longer than 16 KiB", r), false
		case int64(r.begin)+int64(r.reqlen) > w.t.plen(int64(r.index)):
			return fmt.Sprintf("%v runs past the end of the piece, which has %d bytes", r, w.t.plen(int64(r.index))), false
		}
		by[r.index] = append(by[r.index], r)
	}
	complete = true
	for i, reqs := range by {
		end := uint32(0)
		got := int64(0)
		for _, r := range sortedReqs(reqs) {
			if r.begin < end {
				return fmt.Sprintf("blocks of piece %d overlap or are asked for twice: %v", i, reqs), false
			}
			end = r.begin + r.reqlen
			got += int64(r.reqlen)
		}
		if got < w.t.plen(int64(i)) {
			complete = false
		}
	}
	return "", complete
}

// exclusive checks that no piece is asked of two of the peers.
func exclusive(all []*leech) string {
	by := map[uint32]int{}
	for k, l := range all {
		if l.session == nil || l.gone {
			continue
		}
		for i := range l.asked() {
			if o, ok := by[i]; ok {
				return fmt.Sprintf("piece %d is asked of the peers %d and %d", i, o, k)
			}
			by[i] = k
		}
	}
	return ""
}

// idle is a peer that could be asked for a piece, but is not asked for any.
func idle(all []*leech) string {
	taken := map[int]bool{}
	for _, l := range all {
		if !l.gone {
			for i := range l.asked() {
				taken[int(i)] = true
			}
		}
	}
	for k, l := range all {
		if l.gone || !l.said || len(l.asked()) > 0 {
			continue
		}
		for i, h := range l.have {
			if h && !l.w.owned[i] && !taken[i] {
				return fmt.Sprintf("peer %d has piece %d, which is needed and asked of nobody, but is not asked for any", k, i)
			}
		}
	}
	return ""
}

func (c *C) haveSet(n int, owned []bool, label string) []bool {
	have := make([]bool, n)
	switch c.intn(0, 4, label+" kind") {
	case 0: // All
		for i := range have {
			have[i] = true
		}
	case 1: // One
		have[c.intn(0, n-1, label+" one")] = true
	case 2: // Only what the client has
		copy(have, owned)
	default:
		if n > 1000 {
			for i, x := range content(c.seed(label), int64(n)) {
				have[i] = x&3 > 0
			}
			break
		}
		for i := range have {
			have[i] = c.bool(label)
		}
	}
	return have
}

func p25Swarm(c *C) {
	w := c.p25World()
	c.p25(w, true)
}

// p25Clock is the same with a clock of its own, and connections that are accepted.
func p25Clock(c *C) {
	w := c.p25World()
	c.virtual(func() { c.p25(w, false) })
}

// p25Wide has torrents of many pieces, or of pieces of many blocks.
func p25Wide(c *C) {
	var t *tor
	var owned []bool
	if c.index%3 == 0 {
		t = &tor{name: "n", single: true, pieceLen: 16384<<uint(5+c.index/3%5) + int64(c.intn(-1, 300, "more"))}
		t.total = t.pieceLen*int64(c.intn(0, 2, "pieces")) + int64(c.intn(1, int(t.pieceLen), "last"))
		t.files = []tfile{{[]string{t.name}, t.total}}
		t.makeContent(c.seed("content"))
		owned = c.lacking(t, 2)
	} else {
		t = c.manyPieces()
		owned = t.ownAll()
		for _, i := range c.near(len(owned), 9) {
			owned[i] = false
		}
	}
	w := c.newWorld(t, owned)
	if c.index%2 == 0 {
		c.p25(w, true)
	} else {
		c.virtual(func() { c.p25(w, false) })
	}
	c.Label("wide, %d and more pieces", len(owned)>>15<<15)
}

func (c *C) p25World() *world {
	t := c.blockTor()
	return c.newWorld(t, c.lacking(t, 0))
}

// blockTor is a torrent with pieces of one or several blocks.
func (c *C) blockTor() *tor {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000, 70000), pick(c, "most", int64(100), 1000, 200000))
	if c.chance(4, "around blocks") {
		// Pieces, and a last one, that are a few bytes more or less than blocks
		around := func(label string, most int) int64 {
			return max(1, 16384*int64(c.intn(0, most, label+" blocks"))+int64(pick(c, label+" off", 0, 1, -1, 2, -2, 3, 4, 7, 8, -8, 100, c.intn(-300, 300, label+" any off"))))
		}
		t.pieceLen = around("piece", 4)
		t.total = t.pieceLen*int64(c.intn(0, 3, "pieces")) + min(t.pieceLen, around("last", 4))
		if t.pieceLen < 1000 {
			t.total = min(t.total, 100*t.pieceLen)
		}
		t.files = []tfile{{[]string{t.name}, t.total}}
		t.single = true
		t.makeContent(c.seed("content"))
	}
	return t
}

func (c *C) p25(w *world, dials bool) {
	t := w.t
	n := int(t.npieces())
	defer w.close()
	var all []*leech
	var hist []string
	say := func(format string, args ...any) { hist = append(hist, fmt.Sprintf(format, args...)) }
	ctx := func() string {
		return fmt.Sprintf("%s\nowned %x of %d pieces\n%s", t, bitfieldOf(w.owned), n, strings.Join(hist, "\n"))
	}
	// safe checks what was asked so far
	safe := func() (complete bool) {
		complete = true
		for k, l := range all {
			if l.session == nil || l.gone {
				continue
			}
			msg, done := l.wantsBlocks()
			if msg != "" {
				c.Fail("peer %d: %s\n%s", k, msg, ctx())
			}
			complete = complete && done
		}
		if msg := exclusive(all); msg != "" {
			c.Fail("%s\n%s", msg, ctx())
		}
		return complete
	}
	for k := c.intn(1, 6, "peers"); k > 0; k-- {
		l := &leech{have: c.haveSet(n, w.owned, "have")}
		if c.chance(4, "later") {
			l.later = c.haveSet(n, w.owned, "more")
		}
		l.quit = c.chance(4, "quits")
		all = append(all, l)
	}
	common := false
	for i := 0; i < n; i++ {
		k := 0
		for _, l := range all {
			if l.have[i] && !w.owned[i] {
				k++
			}
		}
		common = common || k > 1
	}
	announce := func(k int, l *leech) {
		m := frame(5, bitfieldOf(l.have))
		if c.bool("unchoke") {
			m = append(m, wmsg{kind: 1}.encode()...)
		}
		l.said = true
		say("peer %d announces %x", k, bitfieldOf(l.have))
		l.send(m, c.segments(2, "segment")...)
	}
	var silent []int
	var shared *net.TCPListener
	for k, l := range all {
		if dials && c.chance(3, "dialled") {
			// A tracker may list a peer twice
			if shared == nil || !c.bool("same address") {
				shared = newListener()
				defer shared.Close() // With the case
			}
			ln := shared
			l.session = w.dial(ln.Addr())
			conn := l.accepted(ln)
			if conn == nil {
				c.FailTiming("the client did not connect")
			}
			l.follow()
			_, _ = conn.Write(w.handshake("-PP0000-abcdefghijkl"))
		} else {
			l.session = w.incoming()
			l.send(w.handshake("-PP0000-abcdefghijkl"))
		}
		if c.chance(4, "silent") {
			silent = append(silent, k)
			continue
		}
		announce(k, l)
		if c.chance(4, "pause") {
			time.Sleep(time.Duration(c.intn(0, 120, "ms")) * time.Millisecond)
			safe()
		}
	}
	for _, l := range all {
		select {
		case <-l.up:
			if l.err != nil {
				c.Discard("handshake was late")
			}
		case <-time.After(patience):
			c.Discard("handshake takes long")
		}
	}
	// wait waits until everybody who can be asked is
	wait := func(what string) {
		end := time.Now().Add(patience)
		for {
			full := safe()
			msg := idle(all)
			if full && msg == "" {
				return
			}
			if time.Now().After(end) {
				if msg == "" {
					msg = "the blocks of a piece that was asked for are not all asked for"
				}
				c.FailTiming("%s\n%s\n%s", msg, what, ctx())
			}
			time.Sleep(time.Millisecond)
		}
	}
	if len(silent) < len(all) && c.bool("wait") {
		wait("at first")
	}
	for _, k := range silent {
		safe()
		announce(k, all[k])
	}
	wait("when all have announced")
	for k, l := range all {
		switch {
		case l.quit:
			safe()
			l.gone = true
			say("peer %d leaves", k)
			l.hangUp()
		case l.later != nil:
			safe()
			for i := range l.have {
				l.have[i] = l.have[i] || l.later[i]
			}
			announce(k, l)
		}
	}
	wait("in the end")
	if c.chance(3, "linger") {
		time.Sleep(time.Duration(c.intn(100, 350, "ms")) * time.Millisecond)
		safe()
	}
	if common {
		c.NonTrivial(t.hashes, fmt.Sprint(w.owned), strings.Join(hist, "|"))
		c.Sample("%s", ctx())
	}
	total := 0
	for _, l := range all {
		total += len(l.asked())
	}
	c.Label("pieces asked for: %d", min(total, 10))
	c.Label("peers: %d", len(all))
}

// ============================================================================
// P26 ========================================================================

// end ends the session from the peer's side in a drawn way.
func (s *session) end(label string) string {
	c, w := s.w.c, s.w
	kinds := []string{"close", "close with data", "reset", "reset with data", "half a message", "bad bitfield", "short bitfield", "too long", "broken write"}
	if s.conn == nil {
		kinds = []string{"close", "reset", "half close", "half a message", "bad bitfield", "too long"}
	}
	how := kinds[c.intn(0, len(kinds)-1, label)]
	some := wmsg{kind: 4}.encode()
	fatal := false
	switch how {
	case "close with data":
		s.conn.push(some)
		s.conn.finish(stdio.EOF, true)
	case "reset", "reset with data":
		if s.conn != nil {
			if how == "reset with data" {
				s.conn.push(some)
			}
			s.conn.finish(errReset, how == "reset with data")
		} else {
			_ = s.tcp.(*net.TCPConn).SetLinger(0)
			_ = s.tcp.Close()
		}
	case "half close":
		_ = s.tcp.(*net.TCPConn).CloseWrite()
	case "half a message":
		s.send(some[:c.intn(1, len(some)-1, label+" at")])
		s.hangUp()
	case "bad bitfield":
		s.send(frame(5, make([]byte, len(bitfieldOf(w.owned))+c.intn(1, 9, label+" over"))))
		fatal = true
	case "short bitfield":
		k := len(bitfieldOf(w.owned))
		if k == 1 {
			k = 3 // Cannot be shorter
		}
		s.send(frame(5, make([]byte, k-1)))
		fatal = true
	case "too long":
		s.send(be32(pick(c, label+" prefix", uint32(1<<31), 1<<32-1, 1<<30)))
		fatal = true
	case "broken write":
		// The next write fails, whatever it is for; reads just wait
		s.conn.mu.Lock()
		s.conn.writeErr = errReset
		s.conn.mu.Unlock()
		for i, o := range w.owned {
			if o {
				s.send(wmsg{kind: 6, index: uint32(i), reqlen: 1}.encode())
				fatal = true
				break
			}
		}
		if !fatal {
			how = "broken write and close"
			s.hangUp()
		}
	default:
		s.hangUp()
	}
	if fatal && !s.until(time.Second, s.closed) {
		// Perhaps it is not fatal to the client
		how += ", then closed"
		s.hangUp()
	}
	return how
}

// fallSilent lets the time pass in which the peer says nothing, while the other one
// (if any) does. Only with a clock of its own.
func (s *session) fallSilent(other *session) string {
	c := s.w.c
	idle := time.Now()
	for !s.closed() {
		if t := time.Since(idle); t > silenceMost {
			c.Fail("a peer that is silent for %v is still connected", t)
		}
		if other != nil {
			other.send(be32(0))
			if len(other.asked()) > 0 && !s.closed() {
				c.Fail("two peers are asked for the same piece, %v after one fell silent", time.Since(idle))
			}
		}
		time.Sleep(time.Duration(c.intn(1, 60000, "ms")) * time.Millisecond)
	}
	return "silence"
}

// released waits until nothing of the session is left.
func (s *session) released(what string) {
	c := s.w.c
	select {
	case <-s.done:
	case <-time.After(patience):
		c.FailTiming("the session still runs: %s", what)
	}
	if !s.until(patience, s.closed) {
		c.FailTiming("the connection is still open: %s", what)
	}
	if s.ph == nil {
		return
	}
	if i, ok := s.w.sw.PPT.NextPiece(s.ph); ok {
		c.Fail("a peer whose session is over is still known to have piece %d: %s", i, what)
	}
}

// running counts the goroutines that are in gotor's code for peers.
func running() (n int, where string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "gotor/") && !strings.Contains(g, "main.running") {
			n++
			where += g + "\n\n"
		}
	}
	return n, where
}

// quiet waits until no goroutine is left.
func (w *world) quiet(what string) {
	end := time.Now().Add(patience)
	for d := time.Millisecond; ; d = min(2*d, 100*time.Millisecond) {
		n, where := running()
		if n == 0 {
			return
		}
		if time.Now().After(end) {
			w.c.FailTiming("%d goroutines still run although no peer is left: %s\n%s", n, what, where[:min(len(where), 3000)])
		}
		time.Sleep(d)
	}
}

func p26Chain(c *C) {
	w := c.p26World()
	c.p26(w, true)
}

// p26Clock is the same with a clock of its own, and connections that are accepted.
// Peers may fall silent, too.
func p26Clock(c *C) {
	w := c.p26World()
	c.virtual(func() { c.p26(w, false) })
}

// p26Broken has connections break after any number of bytes that the client sent.
func p26Broken(c *C) {
	w := c.p26World()
	c.virtual(func() {
		defer w.close()
		full := w.t.ownAll()
		var hist []string
		ctx := func() string { return fmt.Sprintf("%s\nowned %v\n%s", w.t, w.owned, strings.Join(hist, "\n")) }
		opening := 68 + 5 + len(bitfieldOf(w.owned))
		for k := c.intn(1, 5, "peers"); k > 0; k-- {
			s := w.incoming()
			n := c.intn(0, 67, "in the handshake")
			switch c.intn(0, 3, "where") {
			case 1:
				n = c.intn(68, opening-1, "in the bitfield")
			case 2:
				n = opening + c.intn(0, 5, "behind")
			case 3:
				n = opening + c.intn(0, 200, "far behind")
			}
			how := pick(c, "how", "reset", "reset", "no write", "reset with data")
			late := 0
			s.conn.take(n)
			stream := w.handshake(c.peerId("id"))
			if c.bool("has all") {
				stream = append(stream, frame(5, bitfieldOf(full))...)
			}
			if c.bool("more") {
				stream = append(stream, wmsg{kind: byte(c.intn(0, 3, "type"))}.encode()...)
			}
			s.send(stream)
			settle()
			if c.bool("late") {
				late = c.intn(1, 30000, "ms")
				time.Sleep(time.Duration(late) * time.Millisecond)
			}
			hist = append(hist, fmt.Sprintf("a peer takes %d bytes, %d ms later: %s", n, late, how))
			switch how {
			case "reset":
				s.conn.finish(errReset, false)
			case "reset with data":
				s.conn.push(be32(0))
				s.conn.finish(errReset, true)
			case "no write":
				s.conn.mu.Lock()
				s.conn.writeErr = errReset
				s.conn.changed.Broadcast()
				s.conn.mu.Unlock()
				// It may have nothing to write for now
				time.Sleep(3 * time.Minute)
			}
			settle()
			select {
			case <-s.done:
			default:
				c.Fail("the session still runs\n%s", ctx())
			}
			if !s.closed() {
				c.Fail("the connection is still open\n%s", ctx())
			}
			w.quiet(ctx())
		}
		// The next one is asked for all
		s := w.incoming()
		s.send(append(w.handshake("-PP0000-abcdefghijkl"), frame(5, bitfieldOf(full))...))
		settle()
		time.Sleep(5 * time.Second)
		settle()
		got := s.asked()
		for i, o := range w.owned {
			if !o && !got[uint32(i)] {
				c.Fail("a later peer is not asked for piece %d\n%s", i, ctx())
			}
		}
		s.hangUp()
		settle()
		w.quiet(ctx())
		c.NonTrivial(ctx())
		c.Sample("%s", ctx())
	})
}

func (c *C) p26World() *world {
	t := c.sessTor(pick(c, "max piece", 10, 300, 40000), pick(c, "most", int64(100), 1000, 100000))
	return c.newWorld(t, c.lacking(t, 5))
}

func (c *C) p26(w *world, dials bool) {
	t := w.t
	defer w.close()
	n := len(w.owned)
	var needed []uint32
	for i, o := range w.owned {
		if !o {
			needed = append(needed, uint32(i))
		}
	}
	full := make([]bool, n)
	for i := range full {
		full[i] = true
	}
	var ln *net.TCPListener
	join := func() *session {
		var s *session
		if dials && c.chance(4, "dialled") {
			// A tracker may list a peer twice
			if ln == nil || !c.bool("same address") {
				if ln != nil {
					_ = ln.Close()
				}
				ln = newListener()
			}
			s = w.dial(ln.Addr())
			conn := s.accepted(ln)
			if conn == nil {
				c.FailTiming("the client did not connect")
			}
			s.follow()
		} else {
			s = w.incoming()
		}
		s.send(append(w.handshake("-PP0000-abcdefghijkl"), frame(5, bitfieldOf(full))...))
		<-s.up
		if s.err != nil {
			c.Discard("handshake was late")
		}
		return s
	}
	var hist []string
	ctx := func() string { return fmt.Sprintf("%s\nneeded %v\n%s", t, needed, strings.Join(hist, "\n")) }
	holds := func(all ...*session) bool {
		for _, i := range needed {
			ok := false
			for _, s := range all {
				ok = ok || s.asked()[i]
			}
			if !ok {
				return false
			}
		}
		return true
	}
	until := func(what string, cond func() bool) {
		end := time.Now().Add(patience)
		for !cond() {
			if time.Now().After(end) {
				c.FailTiming("%s\n%s", what, ctx())
			}
			time.Sleep(500 * time.Microsecond)
		}
	}
	defer func() {
		if ln != nil {
			_ = ln.Close()
		}
	}()
	cur := join()
	until("the first peer is not asked for all pieces", func() bool { return holds(cur) })
	odd := false
	for k := c.intn(1, 4, "chain"); k > 0; k-- {
		// The next one is there before or after
		var next *session
		if c.bool("before") {
			next = join()
			if c.bool("idle") {
				time.Sleep(time.Duration(c.intn(0, 120, "ms")) * time.Millisecond)
			}
			if len(next.asked()) > 0 {
				c.Fail("two peers are asked for the same piece\n%s", ctx())
			}
		}
		how := ""
		if !dials && c.chance(3, "silent") {
			how = cur.fallSilent(next)
		} else {
			how = cur.end("end")
		}
		hist = append(hist, fmt.Sprintf("a peer asked for %v ends: %s", needed, how))
		odd = odd || how != "close"
		cur.released(how)
		if next == nil {
			next = join()
		}
		until("the pieces of the peer that is gone are not all asked of the other", func() bool { return holds(next) })
		cur = next
	}
	cur.hangUp()
	cur.released("close")
	w.quiet("after " + ctx())
	if odd {
		c.NonTrivial(t.hashes, ctx())
		c.Sample("%s", ctx())
	}
}

// p26Busy has peers that announce pieces without end, while what they are sent
// breaks.
func p26Busy(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300), pick(c, "most", int64(100), 1000))
	w := c.newWorld(t, c.lacking(t, 5))
	defer w.close()
	full := t.ownAll()
	n := len(full)
	var hist []string
	for k := c.intn(1, 3, "peers"); k > 0; k-- {
		s := w.incoming()
		s.send(w.handshake(c.peerId("id")))
		<-s.up
		if s.err != nil {
			c.Discard("handshake was late")
		}
		one := frame(5, bitfieldOf(full))
		times := c.intn(100, 40000, "times")
		cut := c.intn(0, times, "breaks after")
		us := c.intn(0, 3000, "us")
		hist = append(hist, fmt.Sprintf("%d bitfields, writes break after %d and %d us", times, cut, us))
		s.send(bytes.Repeat(one, cut))
		time.Sleep(time.Duration(us) * time.Microsecond)
		s.conn.mu.Lock()
		s.conn.writeErr = errReset
		s.conn.mu.Unlock()
		s.send(bytes.Repeat(one, times-cut))
		if c.bool("hang up") || !s.until(time.Second, s.closed) {
			s.hangUp() // Perhaps there was nothing to send
		}
		s.released(hist[len(hist)-1])
	}
	s := w.incoming()
	s.send(append(w.handshake("-PP0000-abcdefghijkl"), frame(5, bitfieldOf(full))...))
	end := time.Now().Add(patience)
	for {
		asked := s.asked()
		all := true
		for i := 0; i < n; i++ {
			all = all && (w.owned[i] || asked[uint32(i)])
		}
		if all {
			break
		}
		if time.Now().After(end) {
			c.FailTiming("the pieces of peers that are gone are not all asked of the next one: asked for %v\n%v", asked, hist)
		}
		time.Sleep(time.Millisecond)
	}
	s.hangUp()
	s.released("close")
	w.quiet("after busy peers")
	c.NonTrivial("busy", t.hashes, hist)
	c.Sample("%s: %v", t, hist)
}

func p26Many(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 40000), pick(c, "most", int64(100), 3000))
	w := c.newWorld(t, c.ownSome(t))
	defer w.close()
	n := len(w.owned)
	var hist []string
	for k := c.intn(5, 60, "sessions"); k > 0; k-- {
		var s *session
		kind := c.intn(0, 5, "kind")
		switch kind {
		case 0: // Refused
			stream, what, _ := w.badOpening()
			s = w.incoming()
			s.send(stream)
			s.hangUp()
			s.released(what)
			hist = append(hist, "refused: "+what)
			continue
		case 1: // Dialled, answers wrong
			ln := newListener()
			s = w.dial(ln.Addr())
			conn := s.accepted(ln)
			_ = ln.Close()
			if conn == nil {
				c.FailTiming("the client did not connect")
			}
			s.follow()
			stream, what, _ := w.badOpening()
			_, _ = conn.Write(stream)
			_ = conn.(*net.TCPConn).CloseWrite()
			s.released("wrong answer: " + what)
			_ = conn.Close()
			hist = append(hist, "dialled, answers wrong: "+what)
			continue
		case 2: // Dialled
			ln := newListener()
			s = w.dial(ln.Addr())
			conn := s.accepted(ln)
			_ = ln.Close()
			if conn == nil {
				c.FailTiming("the client did not connect")
			}
			s.follow()
		default:
			s = w.incoming()
		}
		s.send(w.handshake("-PP0000-abcdefghijkl"))
		if c.bool("announces") {
			s.send(frame(5, bitfieldOf(c.haveSet(n, w.owned, "have"))))
		}
		if w.nset() > 0 {
			for r := c.intn(0, 3, "requests"); r > 0; r-- {
				s.send(w.goodRequest("request").encode())
			}
		}
		select {
		case <-s.up:
		case <-time.After(patience):
			c.Discard("handshake takes long")
		}
		if s.err != nil {
			c.Discard("handshake was late")
		}
		how := s.end("end")
		hist = append(hist, how)
		if c.bool("wait for it") {
			s.released(how)
		}
	}
	for i, s := range w.peers {
		select {
		case <-s.done:
		case <-time.After(patience):
			c.FailTiming("session %d still runs\n%s", i, strings.Join(hist, "\n"))
		}
		if s.conn != nil && !s.until(patience, s.closed) {
			c.FailTiming("connection %d is still open\n%s", i, strings.Join(hist, "\n"))
		}
	}
	w.quiet(strings.Join(hist, "\n"))
	c.NonTrivial(t.hashes, hist)
	c.Sample("%d sessions: %s", len(hist), strings.Join(hist, "; "))
}
