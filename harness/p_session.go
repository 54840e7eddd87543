package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	stdio "io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"gotor/swarm"
)

func init() {
	register(&Prop{
		ID:       "P12",
		NeedOpts: true,
		Rule: "Torrents over any file layout, with their files in any state (absent, right, damaged, short, long, all zeros), are started; what counts as owned and the bytes left are compared with hashes made by the harness; " +
			"non-trivial: some pieces are owned and others are not (distinct by layout and state). Also more pieces than sixteen bits count, and more bytes than 32 bits do.",
		Subs: []Sub{
			{"big", 3, 16, p12Big},
			{"start", 6000, 60000, p12Start},
			{"many", 16, 160, p12Many},
		},
	})
	register(&Prop{
		ID:       "P17",
		NeedOpts: true,
		Rule: "Openings of incoming connections, valid, damaged in any of the 68 bytes, cut short, followed by messages, in generated segments; " +
			"non-trivial: a valid opening in several segments or with messages behind it, or an opening that is refused for one byte or for its length (distinct by opening and segments). Also openings that take their time, connections that stay silent, and the layout of the handshake itself.",
		Subs: []Sub{
			{"valid", 3000, 30000, p17Valid},
			{"refused", 4000, 40000, p17Refused},
			{"layout", 40000, 400000, p17Layout},
			{"silent", 16, 160, p17Silent},
			{"slow", 3000, 30000, p17Slow},
		},
	})
	register(&Prop{
		ID:       "P18",
		NeedOpts: true,
		Rule: "Peers on loopback that are dialled and answer in generated ways, valid in generated segments, damaged, cut short, closed, silent, while another session is served; " +
			"non-trivial: an answer in several segments, or one that is refused (distinct by answer).",
		Subs: []Sub{
			{"answered", 2400, 24000, p18Answered},
			{"silent", 16, 160, p18Silent},
		},
	})
	register(&Prop{
		ID:       "P19",
		NeedOpts: true,
		Rule: "Scripts of requests, valid ones and such that miss their piece by little, wrap around, or ask for what is not there, to a seeder of generated content; " +
			"non-trivial: at least two valid requests and one that is not (distinct by script). Also long pieces, thousands of requests in one session, torrents beyond 4 GiB, and files that are cut short while they are served.",
		Subs: []Sub{
			{"requests", 6000, 60000, p19Requests},
			{"large", 48, 400, p19Large},
			{"long", 24, 240, p19Long},
			{"big", 3, 16, p19Big},
			{"cut", 600, 6000, p19Cut},
		},
	})
	register(&Prop{
		ID:       "P20",
		NeedOpts: true,
		Rule: "Streams of valid messages of all types and of unknown ones up to 600 KB, cut at generated places down to single bytes, or over TCP; the answers must be those of the model; " +
			"non-trivial: at least two requests, and a cut inside a message (distinct by stream and cuts). Also messages up to the longest allowed, and sessions of thousands of messages. Bitfields of torrents with up to 131072 pieces, too.",
		Subs: []Sub{
			{"cuts", 4000, 40000, p20Cuts},
			{"bytes", 800, 8000, p20Bytes},
			{"large", 240, 2400, p20Large},
			{"long", 24, 240, p20Long},
			{"wide", 24, 240, p20Wide},
		},
	})
	register(&Prop{
		ID:       "P22",
		NeedOpts: true,
		Rule: "Several sessions at once, each with its own script of requests and its own end, pushed by goroutines of their own, under the race detector; " +
			"non-trivial: at least two sessions with at least two answers each (distinct by scripts). Also peers that take only part of what they ask for, next to others that take all.",
		Subs: []Sub{
			{"sessions", 480, 4800, p22Sessions},
			{"stalled", 160, 1600, p22Stalled},
		},
	})
}

// ============================================================================
// P12 ========================================================================

func p12Start(c *C) {
	t := c.torShape(pick(c, "max piece", 20, 600, 40000), pick(c, "most", int64(300), 6000, 60000))
	if t.total == 0 {
		t.files[0].length, t.total = 3, 3
	}
	c.mayBeWild(t)
	p12Of(c, t)
}

// p12Many has more pieces than sixteen bits count.
func p12Many(c *C) { p12Of(c, c.manyPieces()) }

// manyPieces draws a torrent of one to three files and more pieces than sixteen
// bits count.
func (c *C) manyPieces() *tor {
	t := &tor{name: "many", pieceLen: int64(c.intn(1, 5, "pieceLen"))}
	t.total = t.pieceLen*(int64(1)<<uint(15+c.index%3)+int64(c.intn(-2, 700, "more pieces"))) - int64(c.intn(0, int(t.pieceLen)-1, "short"))
	t.single = c.bool("single")
	if t.single {
		t.files = []tfile{{[]string{t.name}, t.total}}
	} else {
		a := int64(c.intn(0, int(t.total), "first file"))
		b := int64(c.intn(0, int(t.total-a), "second file"))
		t.files = []tfile{{[]string{"a"}, a}, {[]string{"b"}, b}, {[]string{"c"}, t.total - a - b}}
	}
	t.makeContent(c.seed("content"))
	return t
}

// near draws pieces of a torrent with many, close to where bytes or words are used
// up.
func (c *C) near(n, most int) []int {
	var out []int
	for k := c.intn(1, most, "pieces"); k > 0; k-- {
		i := pick(c, "near", 0, 255, 256, 1<<12, 1<<15, 1<<16, 1<<17, n-1, n-9, n/2) + c.intn(-2, 2, "off")
		out = append(out, max(0, min(i, n-1)))
	}
	return out
}

func p12Of(c *C, t *tor) {
	t.content = content(c.seed("content"), t.total)
	// Parts of the content may look like what a missing file is filled with
	if c.chance(3, "zeros") {
		from := c.intn(0, int(t.total)-1, "zeros from")
		to := c.intn(from, int(t.total), "zeros to")
		for i := from; i < to; i++ {
			t.content[i] = 0
		}
	}
	t.makeHashes()
	// The torrent may promise something else than the files hold
	if c.chance(4, "other hash") {
		i := c.intn(0, int(t.npieces())-1, "other")
		h := []byte(t.hashes)
		h[20*i+c.intn(0, 19, "hash byte")] ^= 1 << uint(c.intn(0, 7, "bit"))
		t.hashes = string(h)
	}
	clearSess()
	model := c.diskState(t, sessDir)
	mustWrite(filepath.Join(sessDir, "unrelated"), []byte("stay"))

	w := &world{c: c, t: t}
	w.boot()
	defer w.close()
	owned := 0
	left := int64(0)
	for i := int64(0); i < t.npieces(); i++ {
		p := model[i*t.pieceLen : i*t.pieceLen+t.plen(i)]
		h := sha1.Sum(p)
		intact := string(h[:]) == t.hashes[20*i:20*i+20]
		if got := w.sw.Bf.Get(i); got != intact {
			c.Fail("piece %d of %d is intact %v, but counts as owned %v\n%s", i, t.npieces(), intact, got, t)
		}
		if intact {
			owned++
		} else {
			left += int64(len(p))
		}
	}
	if w.sw.Bf.Nbits() != t.npieces() || w.sw.Bf.Nset() != int64(owned) {
		c.Fail("%d of %d pieces are owned, the client counts %d of %d", owned, t.npieces(), w.sw.Bf.Nset(), w.sw.Bf.Nbits())
	}
	reqs := theTracker.requests()
	if len(reqs) != 1 {
		c.Fail("%d announces", len(reqs))
	}
	if got := reqs[0].URL.Query()["left"]; len(got) != 1 || got[0] != strconv.FormatInt(left, 10) {
		c.Fail("left is announced as %v, it is %d of %d\n%s", got, left, t.total, t)
	}
	for _, key := range []string{"uploaded", "downloaded"} {
		if got := reqs[0].URL.Query()[key]; len(got) != 1 || got[0] != "0" {
			c.Fail("%s is announced as %v by a client that just started\n%s", key, got, t)
		}
	}
	// What was intact still is, byte for byte
	disk := make([]byte, 0, t.total)
	for i := range t.files {
		b, _ := os.ReadFile(filepath.Join(sessDir, t.path(i)))
		if int64(len(b)) > t.files[i].length {
			b = b[:t.files[i].length]
		}
		disk = append(disk, b...)
		disk = append(disk, make([]byte, int(t.files[i].length)-len(b))...)
	}
	for i := int64(0); i < t.npieces(); i++ {
		from, to := i*t.pieceLen, i*t.pieceLen+t.plen(i)
		if w.sw.Bf.Get(i) && !bytes.Equal(disk[from:to], model[from:to]) {
			c.Fail("start-up changed piece %d, which was intact\n%s", i, t)
		}
	}
	if b, _ := os.ReadFile(filepath.Join(sessDir, "unrelated")); string(b) != "stay" {
		c.Fail("start-up changed a file that is not of the torrent")
	}
	if owned > 0 && left > 0 {
		c.NonTrivial(t.hashes, bitfieldOf(ownedBits(w.sw.Bf)))
		c.Sample("%s: %d of %d pieces owned, %d bytes left", t, owned, t.npieces(), left)
	}
}

// ============================================================================
// P17 ========================================================================

// smallSess is a torrent with few small pieces.
func (c *C) smallSess() *tor {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), 40000)
	if c.chance(4, "zero byte") {
		c.zeroByte(t)
	}
	return t
}

// zeroByte gives t content with which its infohash has a byte 0 that is not the last.
func (c *C) zeroByte(t *tor) {
	seed := c.seed("zero byte content")
	for k := uint64(0); k < 300; k++ {
		t.makeContent(seed + k)
		if z := strings.IndexByte(t.infohash(), 0); z >= 0 && z < 19 {
			return
		}
	}
}

func p17Valid(c *C) {
	t := c.smallSess()
	w := c.newWorld(t, c.ownSome(t))
	defer w.close()
	s := w.incoming()
	res := make([]byte, 8)
	if c.bool("reserved") {
		res = c.bytes(8, 8, "reserved bytes")
	}
	id := c.peerId("id")
	if c.chance(6, "our id") {
		id = w.id
	}
	stream := handshakeOf(t.infohash(), id, res)
	var reqs []wmsg
	if w.sw.Bf.Nset() > 0 {
		for n := c.intn(0, 3, "requests"); n > 0; n-- {
			r := w.goodRequest("request")
			reqs = append(reqs, r)
			stream = append(stream, r.encode()...)
		}
	}
	segs := c.segments(c.intn(0, len(stream), "cut up to"), "segment")
	s.send(stream, segs...)
	select {
	case <-s.up:
	case <-time.After(patience):
		c.FailTiming("the client does not react to the handshake %q in %v", stream, segs)
	}
	if s.err != nil {
		// One second may have passed in a busy machine
		c.FailTiming("the peer was refused: %v\nhandshake %q in %v", s.err, stream, segs)
	}
	msg := s.checkOpening(true)
	c.check(msg, false, fmt.Sprintf("opening %q in %v", stream, segs))
	msg, timing := s.serve(reqs)
	c.check(msg, timing, fmt.Sprintf("opening %q in %v", stream, segs))
	msg, timing = s.unchoked()
	c.check(msg, timing, fmt.Sprintf("opening %q in %v", stream, segs))
	// Also what comes later is understood
	if len(reqs) > 0 {
		r := w.goodRequest("later")
		s.send(r.encode())
		msg, timing = s.serve(append(reqs, r))
		c.check(msg, timing, "the last was sent later")
	}
	if s.closed() {
		c.FailTiming("the connection was closed\nopening %q in %v", stream, segs)
	}
	if len(segs) > 1 || len(reqs) > 0 {
		c.NonTrivial(string(stream), segs)
		c.Sample("opening %s in %v, %d requests behind it", quote(stream), segs, len(reqs))
	}
}

// badOpening draws an opening that must be refused. It is whole if the client need
// not wait for more.
func (w *world) badOpening() (stream []byte, what string, whole bool) {
	c := w.c
	good := w.handshake(c.peerId("id"))
	switch c.intn(0, 6, "opening") {
	case 0: // One byte is wrong
		i := c.intn(0, 47, "byte")
		if z := strings.IndexByte(w.t.infohash(), 0); z >= 0 && z < 19 && c.bool("behind a zero byte") {
			// All of the rest is wrong, but for the part that a string would be
			i = 28 + z + 1
			copy(good[i:48], content(c.seed("rest"), 20))
		}
		if i >= 20 && i < 28 {
			i = 20 - 1 - (i - 20)
		}
		good[i] ^= 1 << uint(c.intn(0, 7, "bit"))
		return good, fmt.Sprintf("byte %d is wrong", i), true
	case 1: // Too short
		return good[:c.intn(0, 67, "length")], "too short", false
	case 2: // Another torrent
		copy(good[28:], content(c.seed("infohash"), 20))
		return good, "another infohash", true
	case 3: // A good one, but not at the start
		junk := c.bytes(1, 80, "junk")
		if junk[0] == 19 {
			junk[0] = 18
		}
		return append(junk, good...), "junk before the handshake", true
	case 4: // Nothing like it
		n := c.intn(68, 300, "n")
		b := content(c.seed("noise"), int64(n))
		return b, "noise", true
	case 5: // Messages without a handshake
		var b []byte
		for len(b) < 68 {
			b = append(b, c.wmsg().encode()...)
		}
		return b, "messages only", true
	default: // Shifted by one
		if c.bool("less") {
			return append(good[1:], 0, 0), "first byte is missing", true
		}
		return append(append([]byte{19}, good[:20]...), good[20:]...), "one byte too many", true
	}
}

// checkRefused checks that the opening of s was refused.
func (s *session) checkRefused(c *C, ctx string) {
	select {
	case <-s.up:
	case <-time.After(patience):
		c.FailTiming("the client still waits after %v\n%s", patience, ctx)
	}
	if s.err == nil {
		c.Fail("the peer was admitted\n%s", ctx)
	}
	if out := s.received(); len(out) > 0 {
		c.Fail("the client sent %s to a peer that it refused\n%s", quote(out), ctx)
	}
	if !s.until(patience, s.closed) {
		c.FailTiming("the connection of a refused peer is still open\n%s", ctx)
	}
	if out := s.received(); len(out) > 0 {
		c.Fail("the client sent %s to a peer that it refused\n%s", quote(out), ctx)
	}
}

// p17Layout makes handshakes and looks at others.
func p17Layout(c *C) {
	infohash := string(c.bytes(20, 20, "infohash"))
	id := c.peerId("id")
	want := handshakeOf(infohash, id, nil)
	got := swarm.MakeHandshake(infohash, id)
	if !bytes.Equal(got, want) {
		c.Fail("the handshake for %q, %q is %q, want %q", infohash, id, got, want)
	}
	// Reserved bytes and id are the peer's
	hs := append([]byte(nil), want...)
	res := c.bytes(8, 8, "reserved")
	copy(hs[20:], res)
	same := swarm.Handshake(hs)
	if same.Pstrlen() != 19 || string(same.Pstr()) != "BitTorrent protocol" || !bytes.Equal(same.Reserved(), res) || string(same.Infohash()) != infohash || string(same.Id()) != id {
		c.Fail("%q is read as length %d, protocol %q, reserved %q, infohash %q, id %q", hs, same.Pstrlen(), same.Pstr(), same.Reserved(), same.Infohash(), same.Id())
	}
	if !swarm.ValidHandshake(same, infohash) {
		c.Fail("%q is not valid for %q", hs, infohash)
	}
	what := ""
	switch c.intn(0, 4, "change") {
	case 0:
		i := c.intn(0, 39, "at")
		if i >= 20 {
			i += 8
		}
		hs[i] ^= 1 << uint(c.intn(0, 7, "bit"))
		what = fmt.Sprintf("byte %d changed", i)
	case 1:
		hs = hs[:c.intn(0, 67, "length")]
		what = fmt.Sprintf("cut to %d bytes", len(hs))
	case 2:
		hs = append(hs, c.bytes(1, 70, "more")...)
		what = fmt.Sprintf("of %d bytes", len(hs))
	case 3:
		infohash = pick(c, "other", "", infohash[:19], infohash+"a", strings.ToUpper(infohash)+"x", id+"x")
		what = "for another infohash"
	case 4:
		copy(hs[1:], pick(c, "protocol", "bittorrent protocol", "BitTorrent Protocol", "BitTorrent protoco\x00"))
		what = "of another protocol"
	}
	if swarm.ValidHandshake(swarm.Handshake(hs), infohash) {
		c.Fail("%q (%s) is valid for %q", hs, what, infohash)
	}
	c.NonTrivial("layout", string(hs), infohash)
}

func p17Refused(c *C) {
	t := c.sessTor(10, 40)
	if c.chance(4, "zero byte") {
		c.zeroByte(t)
	}
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	for n := c.intn(1, 4, "peers"); n > 0; n-- {
		stream, what, whole := w.badOpening()
		s := w.incoming()
		segs := c.segments(c.intn(0, len(stream), "cut up to"), "segment")
		s.send(stream, segs...)
		how := "open"
		if !whole || c.bool("ends") {
			how = "closed"
			if c.bool("reset") {
				how = "reset"
				s.conn.finish(errReset, false)
			} else {
				s.conn.finish(stdio.EOF, c.bool("end with data"))
			}
		}
		ctx := fmt.Sprintf("%s: %q in %v, then %s", what, stream, segs, how)
		s.checkRefused(c, ctx)
		c.Label("%s", what)
		c.NonTrivial(string(stream), segs, how)
		c.Sample("%s", ctx)
	}
	// The next one is welcome
	s := w.incoming()
	r := w.goodRequest("request")
	s.send(append(w.handshake("-XX0000-abcdefghijkl"), r.encode()...))
	msg, timing := s.serve([]wmsg{r})
	c.check(msg, timing, "after refused ones")
	c.check(s.checkOpening(true), false)
}

// p17Silent has peers that say too little and wait, many at once.
func p17Silent(c *C) {
	t := c.sessTor(10, 40)
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	var all []*session
	var ctx []string
	for n := c.intn(10, 60, "peers"); n > 0; n-- {
		stream := w.handshake(c.peerId("id"))[:c.intn(0, 67, "length")]
		if c.chance(4, "wrong") && len(stream) > 0 {
			stream[c.intn(0, len(stream)-1, "byte")] ^= 0x20
		}
		s := w.incoming()
		segs := c.segments(len(stream), "segment")
		s.send(stream, segs...)
		all = append(all, s)
		ctx = append(ctx, fmt.Sprintf("%q in %v, then silence", stream, segs))
		c.NonTrivial(string(stream), segs)
	}
	for i, s := range all {
		s.checkRefused(c, ctx[i])
	}
	c.Sample("%d silent peers, the first %s", len(all), ctx[0])
}

// ============================================================================
// P18 ========================================================================

// witness is a session that is served before and after something else happens.
type witness struct {
	s    *session
	reqs []wmsg
}

func (w *world) witness() *witness {
	s := w.incoming()
	s.send(w.handshake("-WW0000-abcdefghijkl"))
	return &witness{s: s}
}

// serve asks for something.
func (x *witness) serve(when string) {
	w := x.s.w
	for n := 0; n < 2; n++ {
		r := w.goodRequest("witness")
		x.reqs = append(x.reqs, r)
		x.s.send(r.encode())
	}
	msg, timing := x.s.serve(x.reqs)
	w.c.check(msg, timing, "witness "+when)
}

// readExactly reads n bytes from the client.
func readExactly(conn net.Conn, n int) ([]byte, error) {
	_ = conn.SetReadDeadline(time.Now().Add(patience))
	b := make([]byte, n)
	k, e := stdio.ReadFull(conn, b)
	return b[:k], e
}

func p18Answered(c *C) {
	t := c.smallSess()
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	wit := w.witness()
	wit.serve("before")
	ln := newListener()
	defer ln.Close()

	valid := c.chance(2, "valid")
	var answer []byte
	what := "valid"
	whole := true
	if valid {
		res := make([]byte, 8)
		if c.bool("reserved") {
			res = c.bytes(8, 8, "reserved bytes")
		}
		answer = handshakeOf(t.infohash(), c.peerId("id"), res)
	} else {
		answer, what, whole = w.badOpening()
	}
	var reqs []wmsg
	if valid {
		for n := c.intn(0, 3, "requests"); n > 0; n-- {
			r := w.goodRequest("request")
			reqs = append(reqs, r)
			answer = append(answer, r.encode()...)
		}
	}
	most := pick(c, "segment size", 1, 20, 200)
	var segs []int
	for n, total := c.intn(0, 8, "segments"), 0; n > 0 && total < len(answer); n-- {
		segs = append(segs, c.intn(1, most, "segment"))
		total += segs[len(segs)-1]
	}
	how := "open"
	if !whole || !valid && c.bool("ends") {
		how = pick(c, "how", "closed", "reset")
	}
	linger := time.Duration(c.intn(0, 3, "ms")) * time.Millisecond
	ctx := fmt.Sprintf("%s: answer %q in %v, then %s", what, answer, segs, how)

	s := w.dial(ln.Addr())
	conn := s.accepted(ln)
	if conn == nil {
		c.FailTiming("the client did not connect\n%s", ctx)
	}
	begin := time.Now()
	hs, e := readExactly(conn, 68)
	if e != nil {
		c.FailTiming("the client sent %q, no handshake (%v)\n%s", hs, e, ctx)
	}
	if want := w.handshake(w.id); !bytes.Equal(hs, want) {
		c.Fail("the client's handshake is %q instead of %q", hs, want)
	}
	// Nothing else before the answer
	_ = conn.SetReadDeadline(time.Now().Add(linger))
	more := make([]byte, 1000)
	if n, _ := conn.Read(more); n > 0 {
		c.Fail("the client sent %s before the answer\n%s", quote(more[:n]), ctx)
	}
	_ = conn.SetReadDeadline(time.Time{})
	s.out = append(s.out, hs...)
	if !valid {
		// All of the answer but the end, and still nothing
		cut := len(answer)
		if cut > 0 {
			cut = c.intn(0, min(cut-1, 67), "cut")
		}
		_, _ = conn.Write(answer[:cut])
		_ = conn.SetReadDeadline(time.Now().Add(linger))
		if n, _ := conn.Read(more); n > 0 {
			c.Fail("the client sent %s before the answer was complete\n%s", quote(more[:n]), ctx)
		}
		_ = conn.SetReadDeadline(time.Time{})
		answer = answer[cut:]
	}
	s.follow()
	if tc, ok := conn.(*net.TCPConn); ok {
		_ = tc.SetNoDelay(true)
	}
	rest := answer
	for _, n := range segs {
		if n >= len(rest) {
			break
		}
		_, _ = conn.Write(rest[:n])
		rest = rest[n:]
		if linger > 0 {
			time.Sleep(200 * time.Microsecond)
		}
	}
	_, _ = conn.Write(rest)
	if tc, ok := conn.(*net.TCPConn); ok && how != "open" {
		if how == "reset" {
			_ = tc.SetLinger(0)
			_ = conn.Close()
		} else {
			_ = tc.CloseWrite()
		}
	}
	select {
	case <-s.up:
	case <-time.After(patience):
		c.FailTiming("the client still waits\n%s", ctx)
	}
	late := time.Since(begin) > 500*time.Millisecond
	if valid {
		if s.err != nil {
			if late {
				c.Discard("answered late")
			}
			c.FailTiming("the peer was dropped: %v\n%s", s.err, ctx)
		}
		msg, timing := s.serve(reqs)
		c.check(msg, timing, ctx)
		msg, timing = s.unchoked()
		c.check(msg, timing, ctx)
		r := w.goodRequest("later")
		s.send(r.encode())
		msg, timing = s.serve(append(reqs, r))
		c.check(msg, timing, ctx)
	} else {
		if s.err == nil {
			c.Fail("a session was established\n%s", ctx)
		}
		if how != "reset" && !s.until(patience, s.closed) {
			c.FailTiming("the connection is still open\n%s", ctx)
		}
		if out := s.received(); len(out) > 68 {
			c.Fail("the client sent %s to a peer that did not answer right\n%s", quote(out[68:]), ctx)
		}
	}
	wit.serve("after")
	if !valid || len(segs) > 1 {
		c.NonTrivial(ctx)
		c.Sample("%s", ctx)
	}
	c.Label("%s", what)
}

func p18Silent(c *C) {
	t := c.sessTor(10, 40)
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	wit := w.witness()
	wit.serve("before")
	type one struct {
		s   *session
		ctx string
		ln  *net.TCPListener
	}
	var all []one
	for n := c.intn(5, 40, "peers"); n > 0; n-- {
		ln := newListener()
		defer ln.Close()
		answer := w.handshake(c.peerId("id"))[:c.intn(0, 67, "length")]
		s := w.dial(ln.Addr())
		conn := s.accepted(ln)
		if conn == nil {
			c.FailTiming("the client did not connect")
		}
		_, _ = conn.Write(answer)
		s.follow()
		all = append(all, one{s, fmt.Sprintf("answer %q, then silence", answer), ln})
		c.NonTrivial(string(answer))
	}
	// Nobody listens there
	addr, release := closedAddr()
	defer release()
	none := w.dial(addr)
	select {
	case <-none.up:
		if none.err == nil {
			c.Fail("a session with nobody")
		}
	case <-time.After(patience):
		c.FailTiming("still waiting for a peer that refuses connections")
	}
	for _, o := range all {
		select {
		case <-o.s.up:
		case <-time.After(patience):
			c.FailTiming("the client still waits\n%s", o.ctx)
		}
		if o.s.err == nil {
			c.Fail("a session was established\n%s", o.ctx)
		}
		if !o.s.until(patience, o.s.closed) {
			c.FailTiming("the connection is still open\n%s", o.ctx)
		}
		if out := o.s.received(); !bytes.Equal(out, w.handshake(w.id)) {
			c.Fail("the client sent %s instead of its handshake only\n%s", quote(out), o.ctx)
		}
	}
	wit.serve("after")
	c.Sample("%d peers, the first %s", len(all), all[0].ctx)
}

// ============================================================================
// P19 ========================================================================

func p19Requests(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 70000), pick(c, "most", int64(500), 5000, 300000))
	owned := c.ownSome(t)
	some := false
	for _, o := range owned {
		some = some || o
	}
	if !some {
		owned[c.intn(0, len(owned)-1, "one")] = true
	}
	w := c.newWorld(t, owned)
	defer w.close()
	s := w.incoming()
	s.send(w.handshake("-XX0000-abcdefghijkl"))
	var reqs []wmsg
	var stream []byte
	good, bad := 0, 0
	for n := c.intn(1, 12, "requests"); n > 0; n-- {
		var r wmsg
		if c.chance(3, "bad") {
			r = w.anyRequest("request")
		} else {
			r = w.goodRequest("request")
		}
		if w.valid(r) {
			good++
		} else {
			bad++
		}
		reqs = append(reqs, r)
		stream = append(stream, r.encode()...)
		if c.chance(6, "other") {
			stream = append(stream, pick(c, "other message", wmsg{kind: 255}, wmsg{kind: 2}, wmsg{kind: 3}, wmsg{kind: 1}).encode()...)
		}
	}
	// Its answer tells that all were read
	last := w.goodRequest("last")
	reqs = append(reqs, last)
	stream = append(stream, last.encode()...)
	if c.bool("one by one") {
		for _, r := range reqs {
			s.send(r.encode())
		}
	} else {
		s.send(stream)
	}
	msg, timing := s.serve(reqs)
	c.check(msg, timing, t, fmt.Sprintf("owned %v", owned))
	// Whatever else was sent is no data
	msgs, rest := s.messages()
	if len(rest) > 0 {
		c.FailTiming("the client sent half a message: %s\nrequests %v", quote(rest), reqs)
	}
	for _, m := range msgs {
		if m.kind > 3 && m.kind != 255 && m.kind != 5 && m.kind != 7 && m.kind != 4 {
			c.Fail("the client sent %v\nrequests %v", m, reqs)
		}
	}
	if good >= 2 && bad > 0 {
		c.NonTrivial(t.infohash(), fmt.Sprint(reqs))
		c.Sample("%s owned %v: %v", t, owned, reqs)
	}
	c.Label("bad requests %v", bad > 0)
}

// p19Large asks for blocks whose index or begin does not fit in two or three bytes.
func p19Large(c *C) {
	t := &tor{name: "n", single: c.bool("single")}
	if c.chance(2, "large pieces") {
		t.pieceLen = 1<<24 + int64(pick(c, "more", 1, 1000, 20000, 1<<18))
		t.total = t.pieceLen + int64(c.intn(0, 30000, "second piece"))
	} else {
		t.pieceLen = int64(c.intn(1, 4, "pieceLen"))
		t.total = t.pieceLen*(65536+int64(c.intn(1, 600, "more pieces"))) - int64(c.intn(0, int(t.pieceLen)-1, "short"))
	}
	t.files = []tfile{{[]string{"n"}, t.total}}
	if !t.single {
		k := int64(c.intn(1, int(t.total)-1, "first file"))
		t.files = []tfile{{[]string{"a"}, k}, {[]string{"b"}, t.total - k}}
	}
	t.makeContent(c.seed("content"))
	np := t.npieces()
	owned := t.ownAll()
	w := c.newWorld(t, owned)
	defer w.close()
	s := w.incoming()
	s.send(w.handshake("-XX0000-abcdefghijkl"))
	var reqs []wmsg
	for n := c.intn(2, 8, "requests"); n > 0; n-- {
		i := int64(c.intn(0, int(np)-1, "piece"))
		if c.bool("high") {
			i = max(0, np-1-int64(c.intn(0, min(700, int(np)-1), "from the last")))
		}
		p := t.plen(i)
		b := int64(c.intn(0, int(p)-1, "begin"))
		if c.bool("around") {
			b = 1<<pick(c, "exp", 8, 16, 24, 24, 24) + int64(c.intn(-20, 20, "off"))
		}
		r := wmsg{kind: 6, index: uint32(i), begin: uint32(max(0, b)), reqlen: uint32(c.intn(1, pick(c, "size", 1, 40, 16384), "reqlen"))}
		if c.chance(3, "to the end") && b >= 0 && b < p && p-b <= 1<<17 {
			r.reqlen = uint32(p - b)
		}
		reqs = append(reqs, r)
	}
	// The last one must be valid
	reqs = append(reqs, wmsg{kind: 6, index: uint32(np - 1), reqlen: 1})
	for _, r := range reqs {
		s.send(r.encode())
	}
	msg, timing := s.serve(reqs)
	c.check(msg, timing, t)
	c.NonTrivial("l", t.infohash(), fmt.Sprint(reqs))
	c.Sample("%s: %v", t, reqs)
	c.Label("%d and more pieces", np/10000*10000)
}

// longScript is one of thousands of messages, with the requests in it.
func (w *world) longScript(n int, requests int, bad bool) (stream []byte, reqs []wmsg, segs []int) {
	c, t := w.c, w.t
	rng := rand.New(rand.NewSource(int64(c.seed("script"))))
	var own []int64
	for i, o := range w.owned {
		if o {
			own = append(own, int64(i))
		}
	}
	good := func() wmsg {
		i := own[rng.Intn(len(own))]
		p := int(t.plen(i))
		b := rng.Intn(p)
		return wmsg{kind: 6, index: uint32(i), begin: uint32(b), reqlen: uint32(1 + rng.Intn(min(p-b, 40)))}
	}
	for k := 0; k < n; k++ {
		if rng.Intn(100) < requests {
			r := good()
			if bad && rng.Intn(4) == 0 {
				i := int64(rng.Intn(len(w.owned)))
				p := uint32(t.plen(i))
				r = wmsg{kind: 6, index: uint32(i), begin: uint32(rng.Intn(int(p) + 1))}
				r.reqlen = p - r.begin + 1 + uint32(rng.Intn(10))
			}
			reqs = append(reqs, r)
			stream = append(stream, r.encode()...)
			continue
		}
		switch rng.Intn(5) {
		case 0, 1:
			stream = append(stream, wmsg{kind: []byte{255, 0, 1, 2, 3}[rng.Intn(5)]}.encode()...)
		case 2:
			stream = append(stream, wmsg{kind: 4, index: uint32(rng.Intn(int(t.npieces())))}.encode()...)
		case 3:
			stream = append(stream, frame(byte(20+rng.Intn(200)), content(rng.Uint64(), int64(rng.Intn(20))))...)
		case 4:
			i := rng.Intn(int(t.npieces()))
			stream = append(stream, wmsg{kind: 7, index: uint32(i), data: content(rng.Uint64(), int64(rng.Intn(10)))}.encode()...)
		}
	}
	r := good()
	reqs = append(reqs, r)
	stream = append(stream, r.encode()...)
	most := 1 + rng.Intn(40000)
	for at := 0; at < len(stream); {
		k := 1 + rng.Intn(most)
		segs = append(segs, k)
		at += k
	}
	return stream, reqs, segs
}

// serveLong is like serve, for thousands of requests.
func (s *session) serveLong(reqs []wmsg) (msg string, timing bool) {
	w := s.w
	var want [][]byte
	total, firstBad := 68, -1
	for _, r := range reqs {
		if w.valid(r) {
			a := w.answer(r)
			want = append(want, a)
			total += 5 + len(a)
		} else if firstBad < 0 {
			firstBad = len(want)
		}
	}
	length := func() int {
		s.conn.mu.Lock()
		defer s.conn.mu.Unlock()
		return len(s.conn.out)
	}
	ended := func() bool {
		select {
		case <-s.done:
			return true
		default:
			return s.closed()
		}
	}
	got := 0
	for {
		n := length()
		progress := s.until(patience, func() bool { return length() >= total || length() != n || ended() })
		if length() >= total {
			if got = len(s.answers()); got >= len(want) {
				break
			}
		}
		if !progress || ended() {
			break
		}
	}
	answers := s.answers()
	for i, a := range answers {
		if i >= len(want) {
			return fmt.Sprintf("answer %d of %d (%v) was not asked for", i, len(want), a), false
		}
		if !bytes.Equal(a.payload, want[i]) {
			return fmt.Sprintf("answer %d of %d is %v instead of %s", i, len(want), a, quote(want[i])), false
		}
	}
	if len(answers) < len(want) {
		if ended() && firstBad >= 0 && len(answers) >= firstBad {
			return "", false
		}
		return fmt.Sprintf("%d of %d answers, then nothing for %v (ended: %v)", len(answers), len(want), patience, ended()), true
	}
	return "", false
}

// longSession has one of thousands of messages.
func longSession(c *C, requests int, bad bool) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 3000), pick(c, "most", int64(300), 3000))
	owned := c.ownSome(t)
	owned[c.intn(0, len(owned)-1, "one")] = true
	w := c.newWorld(t, owned)
	defer w.close()
	n := c.intn(1000, 6000, "messages")
	if c.chance(5, "very long") {
		n = c.intn(67000, 72000, "many messages")
		if requests >= 90 {
			requests, bad = 99, false
		}
	}
	stream, reqs, segs := w.longScript(n, requests, bad)
	s := w.incoming()
	s.send(w.handshake("-XX0000-abcdefghijkl"))
	s.send(stream, segs...)
	msg, timing := s.serveLong(reqs)
	c.check(msg, timing, fmt.Sprintf("%d messages, %d requests", n, len(reqs)), t)
	c.NonTrivial("long", n, t.infohash())
	c.Sample("%d messages, %d requests, %d bytes in %d segments, %s", n, len(reqs), len(stream), len(segs), t)
	c.Label("long, %v messages", n > 10000)
}

func p19Long(c *C) { longSession(c, 90, c.chance(3, "bad")) }

// p19Cut has a file that is cut short while it is shared. What is missing cannot be
// sent, and nothing else may be sent instead.
func p19Cut(c *C) {
	t := c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(500), 5000, 60000))
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	wit := w.witness()
	wit.serve("before")

	var some []int
	for k, f := range t.files {
		if f.length > 0 {
			some = append(some, k)
		}
	}
	k := some[c.intn(0, len(some)-1, "file")]
	m := int64(c.intn(0, int(t.files[k].length)-1, "length"))
	if e := os.Truncate(filepath.Join(sessDir, t.path(k)), m); e != nil {
		harnessError("%v", e)
	}
	start := int64(0)
	for _, f := range t.files[:k] {
		start += f.length
	}
	from, to := start+m, start+t.files[k].length
	missing := func(i int64) bool { return i*t.pieceLen < to && i*t.pieceLen+t.plen(i) > from }
	ctx := fmt.Sprintf("%s, cut to %d bytes: %q", t, m, t.path(k))

	s := w.incoming()
	s.send(w.handshake("-XX0000-abcdefghijkl"))
	var reqs []wmsg
	lost := false
	for n := c.intn(1, 6, "requests"); n > 0; n-- {
		r := w.goodRequest("request")
		if c.bool("missing") {
			i := int64(c.intn(int(from/t.pieceLen), int((to-1)/t.pieceLen), "missing piece"))
			r = wmsg{kind: 6, index: uint32(i), reqlen: uint32(t.plen(i))}
		}
		lost = lost || missing(int64(r.index))
		reqs = append(reqs, r)
		s.send(r.encode())
	}
	ended := func() bool {
		select {
		case <-s.done:
			return true
		default:
			return false
		}
	}
	// Blocks that are not there are left out, or end the session
	check := func() (answered bool) {
		at := 0
		for n, a := range s.answers() {
			for at < len(reqs) && !bytes.Equal(a.payload, w.answer(reqs[at])) {
				if !missing(int64(reqs[at].index)) {
					c.Fail("answer %d is %v, instead of one to %v\nrequests %v\n%s", n, a, reqs[at], reqs, ctx)
				}
				at++
			}
			if at == len(reqs) {
				c.Fail("answer %d is %v, which is not what was asked for\nrequests %v\n%s", n, a, reqs, ctx)
			}
			at++
		}
		for at < len(reqs) && missing(int64(reqs[at].index)) {
			at++
		}
		return at == len(reqs)
	}
	if !s.until(patience, func() bool { return check() || ended() }) {
		c.FailTiming("neither answers nor an end of the session\nrequests %v\n%s", reqs, ctx)
	}
	if !lost && ended() {
		c.FailTiming("the session ended, though it was only asked for what is there\nrequests %v\n%s", reqs, ctx)
	}
	if ended() && !s.closed() {
		c.Fail("the session ended, and its connection is open\nrequests %v\n%s", reqs, ctx)
	}
	// The others do not notice
	intact := []int64{}
	for i := int64(0); i < t.npieces(); i++ {
		if !missing(i) {
			intact = append(intact, i)
		}
	}
	if len(intact) > 0 {
		for _, x := range []*witness{wit, w.witness()} {
			i := intact[c.intn(0, len(intact)-1, "intact")]
			r := wmsg{kind: 6, index: uint32(i), reqlen: uint32(t.plen(i))}
			x.reqs = append(x.reqs, r)
			x.s.send(r.encode())
			msg, timing := x.s.serve(x.reqs)
			c.check(msg, timing, "a witness", ctx)
		}
	}
	check()
	if lost {
		c.NonTrivial("c", t.infohash(), m, k, fmt.Sprint(reqs))
		c.Sample("%s: %v", ctx, reqs)
	}
	c.Label("asked for what is missing %v, ended %v", lost, ended())
}

// ============================================================================
// P20 ========================================================================

// validStream draws messages that are all well formed, and the requests in them.
func (w *world) validStream(most int) (stream []byte, reqs []wmsg, borders map[int]bool) {
	c := w.c
	borders = map[int]bool{}
	if c.chance(3, "bitfield") {
		have := make([]bool, w.t.npieces())
		for i := range have {
			have[i] = c.bool("have")
		}
		stream = append(stream, frame(5, bitfieldOf(have))...)
		borders[len(stream)] = true
	}
	for n := c.intn(2, most, "messages"); n > 0; n-- {
		var m []byte
		switch c.intn(0, 7, "message") {
		case 0, 1, 2, 3:
			r := w.goodRequest("request")
			reqs = append(reqs, r)
			m = r.encode()
		case 4:
			m = wmsg{kind: pick(c, "type", byte(255), 0, 1, 2, 3)}.encode()
		case 5:
			m = wmsg{kind: 4, index: uint32(c.intn(0, int(w.t.npieces())-1, "have"))}.encode()
		case 6: // A type the client does not know, maybe with something that looks like a message in it
			p := c.bytes(0, 40, "payload")
			if c.bool("looks like") {
				p = append(p, w.goodRequest("fake").encode()...)
			}
			m = frame(byte(pick(c, "type", 9, 13, 14, 15, 16, 17, 20, 21, 255, 254, 100, c.intn(9, 255, "any type"))), p)
		case 7: // A block nobody asked for
			i := c.intn(0, int(w.t.npieces())-1, "piece")
			m = wmsg{kind: 7, index: uint32(i), data: content(c.seed("block"), int64(c.intn(0, 50, "block len")))}.encode()
		}
		stream = append(stream, m...)
		borders[len(stream)] = true
	}
	r := w.goodRequest("last")
	reqs = append(reqs, r)
	stream = append(stream, r.encode()...)
	return stream, reqs, borders
}

func p20Session(c *C, tcp bool, stream func(w *world) ([]byte, []wmsg, map[int]bool), cuts func(n int) []int) {
	p20Of(c, c.sessTor(pick(c, "max piece", 10, 300, 20000), pick(c, "most", int64(500), 5000, 60000)), tcp, stream, cuts)
}

func p20Of(c *C, t *tor, tcp bool, stream func(w *world) ([]byte, []wmsg, map[int]bool), cuts func(n int) []int) {
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	data, reqs, borders := stream(w)
	segs := cuts(len(data))
	var s *session
	if tcp {
		ln := newListener()
		defer ln.Close()
		s = w.dial(ln.Addr())
		conn := s.accepted(ln)
		if conn == nil {
			c.FailTiming("the client did not connect")
		}
		s.follow()
		_, _ = conn.Write(w.handshake("-XX0000-abcdefghijkl"))
		<-s.up
		if s.err != nil {
			c.Discard("handshake was late")
		}
	} else {
		s = w.incoming()
		if c.bool("with the handshake") {
			data = append(w.handshake("-XX0000-abcdefghijkl"), data...)
			segs = append([]int{68 + pick(c, "off", 0, -1, 1, 3)}, segs...)
		} else {
			s.send(w.handshake("-XX0000-abcdefghijkl"))
		}
	}
	s.send(data, segs...)
	msg, timing := s.serve(reqs)
	c.check(msg, timing, fmt.Sprintf("stream %s in %v", quote(data), segs), t)
	inside, at := false, 0
	for _, n := range segs {
		at += n
		inside = inside || at < len(data) && !borders[at]
	}
	if len(reqs) > 1 && inside {
		c.NonTrivial(string(data), segs)
		c.Sample("%d bytes, %d requests, in %d segments: %v", len(data), len(reqs), len(segs)+1, segs)
	}
}

func p20Cuts(c *C) {
	p20Session(c, c.chance(5, "tcp"), func(w *world) ([]byte, []wmsg, map[int]bool) { return w.validStream(14) },
		func(n int) []int {
			var out []int
			most := pick(c, "segment size", 2, 5, 18, 60, 400)
			for n > 0 && len(out) < 200 {
				k := c.intn(1, most, "segment")
				out = append(out, k)
				n -= k
			}
			return out
		})
}

// p20Bytes sends every byte on its own.
func p20Bytes(c *C) {
	p20Session(c, false, func(w *world) ([]byte, []wmsg, map[int]bool) { return w.validStream(10) },
		func(n int) []int {
			out := make([]int, n)
			for i := range out {
				out[i] = 1
			}
			return out
		})
}

// p20Large has messages that are larger than any receive buffer.
func p20Large(c *C) {
	p20Session(c, c.chance(3, "tcp"), func(w *world) ([]byte, []wmsg, map[int]bool) {
		var data []byte
		var reqs []wmsg
		borders := map[int]bool{}
		for n := c.intn(1, 4, "large"); n > 0; n-- {
			size := pick(c, "size", 16383, 16384, 16380, 16379, 16385, 32768, 65536, 131072+9, 600000, c.intn(10000, 600000, "any size"), 1<<20-5, 1<<20-5-c.intn(0, 17000, "below the most"))
			p := content(c.seed("payload"), int64(size))
			kind := byte(pick(c, "type", 20, 7, 99, 7))
			if kind == 7 {
				copy(p, be32(0, 0))
			} else if c.bool("looks like") {
				// Full of requests
				r := w.goodRequest("fake").encode()
				for i := 0; i+len(r) <= len(p); i += len(r) {
					copy(p[i:], r)
				}
			}
			data = append(data, frame(kind, p)...)
			borders[len(data)] = true
			for k := c.intn(1, 3, "requests"); k > 0; k-- {
				r := w.goodRequest("request")
				reqs = append(reqs, r)
				data = append(data, r.encode()...)
				borders[len(data)] = true
			}
		}
		return data, reqs, borders
	}, func(n int) []int {
		var out []int
		most := pick(c, "segment size", 1000, 16384, 40000, 16385)
		for n > 0 {
			k := most
			if c.bool("less") {
				k = c.intn(1, most, "segment")
			}
			out = append(out, k)
			n -= k
		}
		return out
	})
}

// p20Wide has a torrent of so many pieces that bitfields are long, too.
func p20Wide(c *C) {
	p20Of(c, c.manyPieces(), c.chance(3, "tcp"), func(w *world) ([]byte, []wmsg, map[int]bool) {
		np := int(w.t.npieces())
		var data []byte
		var reqs []wmsg
		borders := map[int]bool{}
		for n := c.intn(1, 3, "bitfields"); n > 0; n-- {
			have := make([]bool, np)
			for i, x := range content(c.seed("have"), int64(np)) {
				have[i] = x&1 == 0
			}
			data = append(data, frame(5, bitfieldOf(have))...)
			borders[len(data)] = true
			for _, i := range c.near(np, 5) {
				p := int(w.t.plen(int64(i)))
				b := c.intn(0, p-1, "begin")
				r := wmsg{kind: 6, index: uint32(i), begin: uint32(b), reqlen: uint32(c.intn(1, p-b, "reqlen"))}
				reqs = append(reqs, r)
				data = append(data, r.encode()...)
				borders[len(data)] = true
			}
		}
		return data, reqs, borders
	}, func(n int) []int {
		var out []int
		most := pick(c, "segment size", 500, 1448, 8192, 16384, 16389)
		for n > 0 {
			k := most
			if c.bool("less") {
				k = c.intn(1, most, "segment")
			}
			out = append(out, k)
			n -= k
		}
		return out
	})
}

func p20Long(c *C) { longSession(c, pick(c, "requests", 1, 10, 50), false) }

// ============================================================================
// P22 ========================================================================

// p22Stalled has peers that take only a part of what they ask for, next to others
// who take all. In the end those take the rest, and get what they asked for.
func p22Stalled(c *C) {
	t := c.sessTor(pick(c, "max piece", 100, 3000, 40000), pick(c, "most", int64(2000), 30000, 200000))
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	type peer struct {
		s    *session
		reqs []wmsg
	}
	join := func() *peer {
		p := &peer{s: w.incoming()}
		p.s.send(w.handshake(c.peerId("id")))
		select {
		case <-p.s.up:
		case <-time.After(patience):
			c.Discard("handshake takes long")
		}
		if p.s.err != nil {
			c.Discard("handshake was late")
		}
		return p
	}
	ask := func(p *peer, n int) {
		for ; n > 0; n-- {
			r := w.goodRequest("request")
			p.reqs = append(p.reqs, r)
			p.s.send(r.encode())
		}
	}
	var slow, quick []*peer
	for k := c.intn(1, 4, "stalled"); k > 0; k-- {
		p := join()
		if !p.s.until(patience, func() bool { return len(p.s.received()) >= 68+5 }) {
			c.Discard("unchoke takes long")
		}
		p.s.conn.take(c.intn(0, 3000, "takes"))
		ask(p, c.intn(1, 30, "requests"))
		slow = append(slow, p)
	}
	for k := c.intn(1, 3, "others"); k > 0; k-- {
		if c.bool("late") {
			time.Sleep(time.Duration(c.intn(0, 5, "ms")) * time.Millisecond)
		}
		p := join()
		ask(p, c.intn(1, 20, "requests"))
		quick = append(quick, p)
	}
	for round := c.intn(1, 3, "rounds"); round > 0; round-- {
		for i, p := range quick {
			msg, timing := p.s.serve(p.reqs)
			c.check(msg, timing, fmt.Sprintf("peer %d of %d, next to %d that take nothing", i, len(quick), len(slow)))
			ask(p, c.intn(1, 10, "more"))
		}
		if c.bool("some take more") {
			p := pick(c, "which", slow...)
			p.s.conn.take(c.intn(0, 9000, "takes"))
		}
	}
	for i, p := range slow {
		p.s.conn.take(-1)
		msg, timing := p.s.serve(p.reqs)
		c.check(msg, timing, fmt.Sprintf("peer %d of %d that took nothing for a while", i, len(slow)))
	}
	for i, p := range quick {
		msg, timing := p.s.serve(p.reqs)
		c.check(msg, timing, fmt.Sprintf("peer %d of %d in the end", i, len(quick)))
	}
	c.NonTrivial("stalled", t.hashes, len(slow), len(quick), fmt.Sprint(slow[0].reqs))
	c.Label("stalled peers: %d", len(slow))
}

func p22Sessions(c *C) {
	t := c.sessTor(pick(c, "max piece", 100, 3000, 40000), pick(c, "most", int64(2000), 30000, 200000))
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	n := c.intn(2, 8, "sessions")
	type plan struct {
		s      *session
		reqs   []wmsg
		stream []byte
		segs   []int
		end    string
		upTo   int // Requests before the end
	}
	var plans []*plan
	busy := 0
	for i := 0; i < n; i++ {
		p := &plan{end: pick(c, "end", "", "", "close", "reset", "bad bitfield", "half a message", "too long")}
		for k := c.intn(1, 25, "requests"); k > 0; k-- {
			r := w.goodRequest("request")
			p.reqs = append(p.reqs, r)
			p.stream = append(p.stream, r.encode()...)
		}
		if p.end == "" && len(p.reqs) >= 2 {
			busy++
		}
		p.segs = c.segments(len(p.stream), "segment")
		plans = append(plans, p)
	}
	for i, p := range plans {
		p.s = w.incoming()
		_ = i
	}
	var all sync.WaitGroup
	for i, p := range plans {
		all.Add(1)
		go func() {
			defer all.Done()
			p.s.send(w.handshake("-XX0000-" + strings.Repeat(strconv.Itoa(i%10), 12)))
			rest := p.stream
			for k, n := range p.segs {
				if n >= len(rest) {
					break
				}
				p.s.send(rest[:n])
				rest = rest[n:]
				if k%3 == 0 {
					runtime.Gosched()
				}
			}
			p.s.send(rest)
			switch p.end {
			case "close":
				p.s.conn.finish(stdio.EOF, false)
			case "reset":
				p.s.conn.finish(errReset, true)
			case "bad bitfield":
				p.s.send(frame(5, make([]byte, len(bitfieldOf(w.owned))+3)))
			case "half a message":
				p.s.send(p.stream[:5])
				p.s.conn.finish(stdio.EOF, false)
			case "too long":
				p.s.send(be32(1<<31 - 1))
			}
		}()
	}
	all.Wait()
	for i, p := range plans {
		if p.end == "reset" || p.end == "close" || p.end == "half a message" {
			// Only part of the answers can be sent, but those are right
			select {
			case <-p.s.done:
			case <-time.After(patience):
				c.FailTiming("session %d goes on after the peer is gone (%s)", i, p.end)
			}
			got := p.s.answers()
			for k := range got {
				if k >= len(p.reqs) || !bytes.Equal(got[k].payload, w.answer(p.reqs[k])) {
					c.Fail("answer %d of session %d is wrong: %v\nrequests %v", k, i, got[k], p.reqs)
				}
			}
			continue
		}
		msg, timing := p.s.serve(p.reqs)
		c.check(msg, timing, fmt.Sprintf("session %d of %d", i, n))
		c.check(p.s.checkOpening(true), false, fmt.Sprintf("session %d of %d", i, n))
	}
	// Those that did not end are still there
	for i, p := range plans {
		if p.end != "" {
			continue
		}
		r := w.goodRequest("after")
		p.reqs = append(p.reqs, r)
		p.s.send(r.encode())
		msg, timing := p.s.serve(p.reqs)
		c.check(msg, timing, fmt.Sprintf("session %d of %d, after others ended", i, n))
	}
	if busy >= 2 {
		for _, p := range plans {
			c.NonTrivial(fmt.Sprint(p.reqs), p.end)
		}
		c.Sample("%d sessions over %s, the first: %v", n, t, plans[0].reqs)
	}
}
