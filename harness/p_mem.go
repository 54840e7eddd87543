package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	stdio "io"
	"net"
	"runtime"
	"runtime/metrics"
	"strings"
	"sync"
	"time"

	"gotor/bencode"
	"gotor/io"
	"gotor/p2p"
	"gotor/swarm"
	"gotor/tracker"
)

func init() {
	register(&Prop{
		ID: "P41",
		Rule: "Generated input that claims more than it has is decoded; peers send generated floods of messages, come and go in generated ways; the memory that was allocated, or is still held, is measured; " +
			"non-trivial: the input claims at least 64 MiB or has more than 1000 bytes, a flood of at least 50000 messages or 4 MiB, at least 100 sessions (distinct by what was sent).",
		NeedOpts: true,
		Init:     startTracker,
		Subs: []Sub{
			{"decode", 12000, 120000, p41Decode},
			{"torrent", 3000, 30000, p41Torrent},
			{"messages", 12000, 120000, p41Messages},
			{"claims", 300, 3000, p41Claims},
			{"inputs", 300, 3000, p41Inputs},
			{"flood", 500, 5000, p41Flood},
			{"sessions", 500, 5000, p41Sessions},
		},
	})
}

// ============================================================================
// Measuring ==================================================================

// allocated tells how many bytes were allocated so far.
func allocated() int64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return int64(s[0].Value.Uint64())
}

// held tells how many bytes are in use.
func held() int64 {
	var m runtime.MemStats
	best := int64(1) << 62
	for i := 0; i < 3; i++ {
		runtime.GC()
		runtime.ReadMemStats(&m)
		best = min(best, int64(m.HeapAlloc))
	}
	return best
}

// cost runs f, which may allocate most bytes.
func (c *C) cost(what string, most int64, data []byte, f func()) {
	before := allocated()
	f()
	if n := allocated() - before; n > most {
		// Others may have been at work, which happens once
		before = allocated()
		f()
		if m := allocated() - before; m > most {
			c.Fail("%s allocates %d bytes, and %d the second time, for %d bytes\n%s", what, n, m, len(data), quote(data))
		}
	}
}

// bigNumber draws a length that is far beyond what is there, or not quite as far.
func (c *C) bigNumber(label string) int64 {
	return pick(c, label, int64(1)<<26, 1<<27, 1<<28, 1<<30, 1<<31-1, 1<<31, 1<<32-1, 1<<32, 1<<40, 1<<62, 1<<63-1, int64(c.intn(1<<26, 1<<31, label+" any")))
}

// ============================================================================
// P41 ========================================================================

// claimed draws a bencoding some parts of which claim to be longer than they are.
func (c *C) claimed() (data []byte, large bool) {
	data = refEncode(c.bval(4, 0))
	kind := c.intn(0, 4, "kind")
	switch kind {
	case 0: // A string at the end
		data = append(bytes.Repeat([]byte(pick(c, "in", "l", "d1:a", "l1:x", "d1:ai0e1:b")), c.intn(0, 50, "nested")), fmt.Sprintf("%d:%s", c.bigNumber("length"), data)...)
	case 1: // A length in the middle
		if i := bytes.IndexByte(data, ':'); i > 0 {
			from := i
			for from > 0 && data[from-1] >= '0' && data[from-1] <= '9' {
				from--
			}
			data = append(data[:from:from], append([]byte(fmt.Sprint(c.bigNumber("length"))), data[i:]...)...)
		} else {
			data = []byte(fmt.Sprintf("%d:%s", c.bigNumber("length"), data))
		}
	case 2: // Many that have nothing
		data = bytes.Repeat([]byte(pick(c, "unit", "le", "de", "l", "d1:a", "i0e", "1:a", "0:", "1", "-", "i", ":", "9:", "99999999:")), c.intn(1, 2000, "times"))
		if c.bool("in a list") {
			data = append([]byte("l"), data...)
		}
	case 3: // Digits without end
		data = []byte(pick(c, "before", "", "i", "d", "l", "i-") + strings.Repeat(pick(c, "digit", "0", "1", "9"), c.intn(1, 3000, "digits")) + pick(c, "after", "", "e", ":", "x"))
	case 4:
		data = c.mutate(data, "dlei0123456789:-", 4)
	}
	return data, kind < 2 || len(data) > 1000
}

func p41Decode(c *C) {
	data, large := c.claimed()
	most := int64(1<<20) + 2000*int64(len(data))
	c.cost("decoding", most, data, func() { _, _ = bencode.Decode(data) })
	c.cost("looking for a value", most, data, func() { _, _ = bencode.DictValueBytes(data, "info") })
	if large {
		c.NonTrivial(string(data))
		c.Sample("%s", quote(data))
	}
}

// p41Torrent loads torrents that claim to be large.
func p41Torrent(c *C) {
	t := c.torShape(64, 4096)
	t.fakeHashes(c.seed("hashes"))
	d := &bdict{[]bpair{{"announce", t.announce}, {"info", t.infoDict()}}}
	inf, _ := d.get("info")
	in := inf.(*bdict)
	claims := ""
	for k := c.intn(1, 3, "claims"); k > 0; k-- {
		n := c.bigNumber("number")
		what := c.intn(0, 4, "what")
		claims += fmt.Sprint(" ", what, n)
		switch what {
		case 0:
			in.set("piece length", n)
		case 1: // A single file
			in.del("files")
			in.set("length", n)
		case 2: // One of the files
			if l, ok := in.get("files"); ok && len(l.([]any)) > 0 {
				files := l.([]any)
				files[c.intn(0, len(files)-1, "file")].(*bdict).set("length", n)
			}
		case 3: // Many files, with nothing in them
			files := make([]any, c.intn(100, 2000, "files"))
			for i := range files {
				files[i] = &bdict{[]bpair{{"length", 0}, {"path", []any{"f"}}}}
			}
			in.del("length")
			in.set("files", files)
		case 4: // As many hashes as bytes
			in.del("files")
			h := int64(c.intn(1, 500, "hashes"))
			in.set("pieces", strings.Repeat("01234567890123456789", int(h)))
			in.set("length", n)
			in.set("piece length", pick(c, "exact", (n+h-1)/h, n/h, n))
		}
	}
	in.sort()
	data := refEncode(d)
	loaded := false
	c.cost("loading a torrent", 4<<20+4000*int64(len(data)), data, func() {
		got, _ := c.loadTorrent(data, "/nowhere/wd")
		loaded = got != nil
	})
	c.Label("loaded %v", loaded)
	c.NonTrivial(string(data))
	c.Sample("claims%s: loaded %v: %s", claims, loaded, quote(data))
}

// p41Messages decodes messages that claim to be long.
func p41Messages(c *C) {
	var data []byte
	for k := c.intn(0, 5, "whole"); k > 0; k-- {
		data = append(data, c.wmsg().encode()...)
	}
	last := c.intn(0, 3, "last")
	switch last {
	case 0: // Its length alone
		data = append(data, be32(uint32(min(c.bigNumber("length"), 1<<32-1)))...)
	case 1:
		data = append(data, be32(uint32(min(c.bigNumber("length"), 1<<32-1)))...)
		data = append(data, byte(c.intn(0, 22, "type")))
		data = append(data, content(c.seed("payload"), int64(c.intn(0, 300, "n")))...)
	case 2: // Requests for much
		data = append(data, frame(6, be32(c.u32("index"), c.u32("begin"), uint32(min(c.bigNumber("length"), 1<<32-1))))...)
	case 3:
		data = c.mutate(data, "\x00\x01\x04\x05\x06\x07\x7f\xff", 4)
	}
	most := int64(1<<20) + 2000*int64(len(data))
	c.cost("decoding a message", most, data, func() { _, _ = p2p.Decode(data) })
	c.cost("decoding messages", most, data, func() { p2p.DecodeAll(data) })
	if last < 3 {
		c.NonTrivial(string(data))
		c.Sample("%s", quote(data))
	}
}

// p41Inputs has many different inputs decoded, one after the other.
func p41Inputs(c *C) {
	seed := c.seed("inputs")
	kind := pick(c, "kind", "bencoding", "part", "torrent", "message", "messages", "answer", "limited")
	size := c.intn(4, pick(c, "longest", 20, 300, 3000), "size")
	cut := c.chance(4, "cut")
	peers := c.intn(0, 100, "peers")
	compact := c.bool("compact")
	typ := byte(pick(c, "type", 4, 5, 5, 6, 7, 7, 20, c.intn(0, 22, "any type")))
	n := int64(4<<20) / int64(size)
	if kind == "torrent" || kind == "answer" {
		n = min(n, int64(c.intn(300, 1000, "inputs")))
	} else {
		n = min(n, int64(c.intn(5000, 30000, "inputs")))
	}
	rl := io.NewRateLimitIO()
	if kind == "limited" {
		// Cheap, so there are more of them
		n = int64(c.intn(100000, 400000, "uses"))
		if c.bool("limit") {
			rl.SetWriteRate(1 << 50)
			rl.SetReadRate(1 << 50)
		}
	}
	block := content(seed, int64(size))
	build := func(i int64) []byte {
		if kind == "limited" {
			return block
		}
		x := string(content(seed+uint64(i), int64(size)))
		h := fmt.Sprintf("%x", x[:4])
		num := int64(seed) + i
		var data []byte
		switch kind {
		case "bencoding", "part":
			d := &bdict{[]bpair{{h, x}, {"key " + x, []any{num, x + "1", &bdict{[]bpair{{h + "2", num}}}}}}}
			d.sort()
			data = refEncode(d)
		case "torrent":
			info := &bdict{[]bpair{{"name", "n" + h}, {"piece length", int64(1 + size)}}}
			if compact {
				info.set("length", int64(10*size))
				info.set("pieces", strings.Repeat(x[:4], 5*((10*size+size)/(1+size))))
			} else {
				files, total := []any{}, 0
				for k := 0; k < 1+peers; k++ {
					files = append(files, &bdict{[]bpair{{"length", int64(size)}, {"path", []any{"d" + h, fmt.Sprint(k)}}}})
					total += size
				}
				info.set("files", files)
				info.set("pieces", strings.Repeat(x[:4], 5*((total+size)/(1+size))))
			}
			info.sort()
			d := &bdict{[]bpair{{"announce", "http://" + h + "/"}, {"info", info}, {"x" + h, x}}}
			d.sort()
			data = refEncode(d)
		case "message":
			data = frame(typ, []byte(x))
		case "messages":
			data = append(frame(typ, []byte(x)), append(frame(6, be32(uint32(num), uint32(i), 1)), frame(4, be32(uint32(num)))...)...)
		case "answer":
			d := answer(60+num, content(seed+uint64(i), 6*int64(peers)))
			if !compact {
				l := []any{}
				for k := 0; k < peers; k++ {
					l = append(l, &bdict{[]bpair{{"ip", fmt.Sprintf("10.%d.%d.%d", i>>8&255, i&255, k)}, {"peer id", "-XX0000-" + h + "0123"}, {"port", int64(1 + k)}}})
				}
				d.set("peers", l)
			}
			d.set("tracker id", x)
			d.sort()
			data = refEncode(d)
		}
		if cut {
			data = data[:len(data)*2/3]
		}
		return data
	}
	good := 0
	use := func(i int64) {
		data := build(i)
		var e error
		switch kind {
		case "bencoding":
			_, e = bencode.Decode(data)
		case "part":
			_, e = bencode.DictValueBytes(data, "key "+string(content(seed+uint64(i), int64(size))))
		case "torrent":
			_, e = c.loadTorrent(data, "/nowhere/wd")
		case "message":
			_, e = p2p.Decode(data)
		case "messages":
			p2p.DecodeAll(data)
		case "answer":
			theTracker.set(data, false, false)
			_, e = tracker.Get(c.asker(), tracker.NewStats(0, 0, 0), 1, "-GT0000-abcdefghijkl")
		case "limited":
			if e = rl.Write(stdio.Discard, data); e == nil {
				e = rl.Read(bytes.NewReader(data), data)
			}
		}
		if e == nil {
			good++
		}
	}
	for i := int64(0); i < 100; i++ {
		use(i)
	}
	before := held()
	for i := int64(100); i < n+100; i++ {
		use(i)
	}
	after := held()
	runtime.KeepAlive(rl)
	ctx := fmt.Sprintf("%d different inputs (%s, cut %v), %d without an error, such as %s", n, kind, cut, good, quote(build(7)))
	if most := int64(256 << 10); after-before > most {
		c.FailTiming("%d bytes more than before are held after %s", after-before, ctx)
	}
	c.Label("inputs: %d KiB or more are held", max(0, after-before)>>15<<5)
	c.Label("inputs: %s, good %v", kind, good > 0)
	c.NonTrivial("inputs", kind, fmt.Sprint(seed), size)
	c.Sample("%s: %d bytes more are held", ctx, after-before)
}

// hose is a connection from which data comes as long as there is some, and
// which takes everything.
type hose struct {
	remote net.Addr
	mu     sync.Mutex
	change *sync.Cond
	unit   []byte // What comes, again and again
	first  []byte // Before that
	at     int
	left   int64 // How much of it may come
	end    error // What comes when there is no more, nil if nothing
	closed bool
	idle   bool // Everything was read, and somebody reads
	took   int64
}

func newHose(port int) *hose {
	h := &hose{remote: &net.TCPAddr{IP: net.IPv4(10, 8, byte(port>>8), byte(port)), Port: 1 + port%65535}}
	h.change = sync.NewCond(&h.mu)
	return h
}

func (h *hose) Read(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		switch {
		case h.closed:
			return 0, net.ErrClosed
		case len(h.first) > 0:
			n := copy(b, h.first)
			h.first = h.first[n:]
			return n, nil
		case h.left > 0 && len(h.unit) > 0:
			n := 0
			for n < len(b) && h.left > 0 {
				k := copy(b[n:], h.unit[h.at:min(int64(len(h.unit)), int64(h.at)+h.left)])
				h.at = (h.at + k) % len(h.unit)
				h.left -= int64(k)
				n += k
			}
			return n, nil
		case h.end != nil:
			return 0, h.end
		}
		h.idle = true
		h.change.Broadcast()
		h.change.Wait()
		h.idle = false
	}
}

func (h *hose) Write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.closed {
		return 0, net.ErrClosed
	}
	h.took += int64(len(b))
	return len(b), nil
}

func (h *hose) Close() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.closed = true
	h.change.Broadcast()
	return nil
}

func (h *hose) LocalAddr() net.Addr              { return h.remote }
func (h *hose) RemoteAddr() net.Addr             { return h.remote }
func (h *hose) SetDeadline(time.Time) error      { return nil }
func (h *hose) SetReadDeadline(time.Time) error  { return nil }
func (h *hose) SetWriteDeadline(time.Time) error { return nil }

// more has n more bytes come, and e after that.
func (h *hose) more(n int64, e error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.left += n
	h.end = e
	h.change.Broadcast()
}

// drained waits until all was read and handled, or the connection is closed.
func (h *hose) drained() (ok bool, open bool) {
	end := time.Now().Add(4 * patience)
	for time.Now().Before(end) {
		h.mu.Lock()
		done, closed := h.idle && h.left == 0 && len(h.first) == 0, h.closed
		h.mu.Unlock()
		if closed {
			return true, false
		}
		if done {
			return true, true
		}
		time.Sleep(200 * time.Microsecond)
	}
	return false, true
}

// run has the client run a session on it. The result is closed when that ended.
func (h *hose) run(w *world) chan bool {
	done := make(chan bool)
	go func() {
		defer close(done)
		ph, e := swarm.FromIncoming(h, w.sw)
		if e == nil {
			ph.Loop()
		}
	}()
	return done
}

// bearable draws messages that do not end a session.
func (w *world) bearable() []byte {
	c := w.c
	n := uint32(w.t.npieces())
	switch c.intn(0, 9, "message") {
	case 0:
		return be32(0)
	case 1:
		return frame(byte(c.intn(0, 3, "type")), nil)
	case 2:
		return frame(4, be32(uint32(c.intn(0, int(n)-1, "have"))))
	case 3:
		return frame(5, bitfieldOf(c.haveSet(int(n), w.owned, "bits")))
	case 4:
		if w.nset() == 0 {
			return be32(0)
		}
		return w.goodRequest("request").encode()
	case 5: // Nobody gets that
		return frame(6, be32(n+uint32(c.intn(0, 5, "beyond")), 0, 1))
	case 6: // A block, whoever asked for it
		return frame(7, append(be32(uint32(c.intn(0, int(n)-1, "index")), uint32(c.intn(0, 3, "block")*16384)), content(c.seed("block"), int64(pick(c, "block length", 1, 100, 16384)))...))
	case 7: // Cancel
		return frame(8, be32(uint32(c.intn(0, int(n)-1, "cancelled")), 0, uint32(c.intn(1, 16384, "length"))))
	case 8: // Extensions
		return frame(20, append([]byte{byte(c.intn(0, 3, "ext"))}, refEncode(c.bval(2, 0))...))
	default:
		return frame(byte(c.intn(9, 255, "other type")), content(c.seed("payload"), int64(c.intn(0, 300, "n"))))
	}
}

// memWorld starts a client on a torrent that does not need much memory, with
// pieces of some size.
func (c *C) memWorld() *world {
	t := c.sessTor(pick(c, "max piece", 300, 40000, 200000), pick(c, "most", int64(3000), 400000))
	w := c.newWorld(t, c.ownSome(t))
	return w
}

// p41Claims has peers announce long messages that do not come.
func p41Claims(c *C) {
	w := c.memWorld()
	defer w.close()
	n := c.intn(1, 4, "peers")
	sent, hist := int64(0), ""
	var hoses []*hose
	var dones []chan bool
	before := allocated()
	for i := 0; i < n; i++ {
		h := newHose(i)
		h.first = w.handshake(c.peerId("id"))
		for k := c.intn(0, 3, "messages"); k > 0; k-- {
			h.first = append(h.first, w.bearable()...)
		}
		long := uint32(min(c.bigNumber("length"), 1<<32-1))
		if c.chance(3, "asks") {
			i := uint32(c.intn(0, int(w.t.npieces())-1, "index"))
			h.first = append(h.first, frame(6, be32(i, uint32(c.intn(0, 3, "begin")), long))...)
			hist += fmt.Sprintf(" (asked for %d)", long)
		} else {
			h.first = append(h.first, be32(long)...)
			h.first = append(h.first, content(c.seed("rest"), int64(c.intn(0, 100, "rest")))...)
			hist += fmt.Sprintf(" %d", long)
		}
		sent += int64(len(h.first))
		hoses = append(hoses, h)
		dones = append(dones, h.run(w))
	}
	for _, h := range hoses {
		if ok, _ := h.drained(); !ok {
			c.FailTiming("the client does not read on\n%s", w.t)
		}
	}
	time.Sleep(200 * time.Microsecond)
	cost := allocated() - before
	for i, h := range hoses {
		h.more(0, stdio.EOF)
		select {
		case <-dones[i]:
		case <-time.After(patience):
			c.FailTiming("a session does not end\n%s", w.t)
		}
	}
	if most := int64(8<<20) + int64(n)*(4<<20+2*w.t.pieceLen) + 500*sent; cost > most {
		c.Fail("%d peers sent %d bytes and announced messages of%s bytes; that took %d bytes of memory\n%s", n, sent, hist, cost, w.t)
	}
	c.NonTrivial("claims", w.t.hashes, hist)
	c.Sample("%s: %d peers announce messages of%s bytes, which takes %d bytes", w.t, n, hist, cost)
}

// p41Flood has a peer send a lot.
func p41Flood(c *C) {
	w := c.memWorld()
	defer w.close()
	h := newHose(1)
	h.first = w.handshake(c.peerId("id"))
	if c.chance(2, "all different") {
		w.p41Different(h)
		return
	}
	msgs := c.intn(1, pick(c, "most messages", 1, 3, 30), "messages")
	if c.chance(8, "one long message") {
		// It need not be taken
		h.first = append(h.first, be32(uint32(min(c.bigNumber("length"), 1<<32-1)))...)
		h.first = append(h.first, byte(c.intn(0, 22, "type")))
		h.unit = content(c.seed("rest"), int64(c.intn(1000, 30000, "rest")))
		msgs = 1
	}
	for i := 0; i < msgs && len(h.unit) < 1000; i++ {
		h.unit = append(h.unit, w.bearable()...)
	}
	// So many messages, but not more than that many bytes
	times := min(int64(c.intn(60000, 150000, "times")/msgs), int64(60<<20/len(h.unit)))
	size := times * int64(len(h.unit))
	done := h.run(w)
	ctx := fmt.Sprintf("%s\nowned %v\nthe peer sends %d times %s", w.t, w.owned, times, quote(h.unit))
	h.more(size/10/int64(len(h.unit))*int64(len(h.unit)), nil)
	ok, open := h.drained()
	if !ok {
		c.FailTiming("the client does not read on\n%s", ctx)
	}
	before := held()
	if open {
		h.more(size, nil)
		if ok, open = h.drained(); !ok {
			c.FailTiming("the client does not read on\n%s", ctx)
		}
	}
	after := held()
	c.Label("open %v", open)
	c.Label("flood: %d KiB or more are held", max(0, after-before)>>15<<5)
	h.more(0, stdio.EOF)
	select {
	case <-done:
	case <-time.After(patience):
		c.FailTiming("the session does not end\n%s", ctx)
	}
	if most := int64(640<<10) + w.t.total; after-before > most {
		c.FailTiming("the client holds %d bytes more than before, %d messages (%d bytes) ago\n%s", after-before, times*int64(msgs), size, ctx)
	}
	if open && (times*int64(msgs) >= 50000 || size >= 4<<20) {
		c.NonTrivial("flood", w.t.hashes, string(h.unit))
		c.Sample("%s\n%d bytes more are held", ctx, after-before)
	}
}

// p41Different has a peer send many different messages.
func (w *world) p41Different(h *hose) {
	c, seed := w.c, w.c.seed("messages")
	var kinds []int
	for k := c.intn(1, 3, "kinds"); k > 0; k-- {
		kinds = append(kinds, pick(c, "kind", 4, 5, 6, 6, 6, 7, 8, 20, 21))
	}
	n := c.intn(8000, 20000, "messages")
	np := uint64(w.t.npieces())
	bits := int64(len(bitfieldOf(w.owned)))
	warm, bytes := 0, 24<<20
	for i := 0; i < n && len(h.unit) < bytes; i++ {
		r := content(seed+uint64(i), 32)
		num := func(k int, limit uint64) uint32 { return uint32(binary.BigEndian.Uint64(r[8*k:]) % limit) }
		k := kinds[num(0, uint64(len(kinds)))]
		idx := num(1, np)
		size := uint64(w.t.plen(int64(idx)))
		begin := num(2, size)
		length := 1 + num(3, min(size-uint64(begin), 131072))
		switch k {
		case 4:
			h.unit = append(h.unit, frame(4, be32(idx))...)
		case 5:
			b := content(seed+uint64(i), bits)
			if pad := np % 8; pad != 0 {
				b[bits-1] &= 0xff << (8 - pad)
			}
			h.unit = append(h.unit, frame(5, b)...)
		case 6, 8:
			h.unit = append(h.unit, frame(byte(k), be32(idx, begin, length))...)
		case 7:
			h.unit = append(h.unit, frame(7, append(be32(idx, begin), content(seed+uint64(i), min(int64(length), 2000))...))...)
		default:
			h.unit = append(h.unit, frame(byte(k), content(seed+uint64(i), min(int64(length), 2000)))...)
		}
		if i == n/10 || warm == 0 && len(h.unit) > bytes/10 {
			warm = len(h.unit)
		}
	}
	done := h.run(w)
	ctx := fmt.Sprintf("%s\nowned %v\nthe peer sends %d bytes, all different, of the types %v: %s", w.t, w.owned, len(h.unit), kinds, quote(h.unit))
	h.more(int64(warm), nil)
	ok, open := h.drained()
	if !ok {
		c.FailTiming("the client does not read on\n%s", ctx)
	}
	before := held()
	if open {
		h.more(int64(len(h.unit)-warm), nil)
		if ok, open = h.drained(); !ok {
			c.FailTiming("the client does not read on\n%s", ctx)
		}
	}
	after := held()
	c.Label("different, open %v", open)
	c.Label("different: %d KiB or more are held", max(0, after-before)>>15<<5)
	h.more(0, stdio.EOF)
	select {
	case <-done:
	case <-time.After(patience):
		c.FailTiming("the session does not end\n%s", ctx)
	}
	if most := int64(640<<10) + w.t.total; after-before > most {
		c.FailTiming("the client holds %d bytes more than before, after %d bytes of different messages\n%s", after-before, len(h.unit)-warm, ctx)
	}
	if open {
		c.NonTrivial("different", w.t.hashes, string(h.unit[:100]))
		c.Sample("%s\n%d bytes more are held", ctx, after-before)
	}
}

// p41Sessions has many peers come and go.
func p41Sessions(c *C) {
	w := c.memWorld()
	// On a clock of its own they may stay for a while
	if c.bool("stay") {
		c.virtual(func() { c.p41Sessions(w, true) })
	} else {
		c.p41Sessions(w, false)
	}
}

func (c *C) p41Sessions(w *world, virtual bool) {
	defer w.close()
	type kind struct {
		first []byte
		end   error
		stay  time.Duration
	}
	var kinds []kind
	hist := ""
	for k := c.intn(1, 4, "kinds"); k > 0; k-- {
		var s kind
		if c.chance(4, "refused") {
			s.first, _, _ = w.badOpening()
			hist += " refused"
		} else {
			s.first = w.handshake(c.peerId("id"))
			for m := c.intn(0, 4, "messages"); m > 0; m-- {
				s.first = append(s.first, w.bearable()...)
			}
			hist += " " + quote(s.first[68:])
			if c.chance(4, "fatal") {
				s.first = append(s.first, frame(5, make([]byte, 2+len(bitfieldOf(w.owned))))...)
				hist += " and a wrong bitfield"
			}
			if c.chance(4, "cut") {
				s.first = append(s.first, be32(300)...)
				hist += " and half a message"
			}
		}
		s.end = pick(c, "end", error(stdio.EOF), error(errReset), errors.New("broken"))
		if virtual {
			s.stay = time.Duration(pick(c, "ms", 0, 50, 250, 500, 3000, 200000)) * time.Millisecond
			hist += fmt.Sprintf(" for %v", s.stay)
		}
		kinds = append(kinds, s)
	}
	same := c.bool("same address")
	named := c.bool("names of their own")
	many := c.intn(1, 8, "at once")
	ctx := fmt.Sprintf("%s\nowned %v\nthey send%s, %d at once, from the same address %v, all with names of their own %v", w.t, w.owned, hist, many, same, named)
	port, ids := 0, 0
	round := func(n int) {
		for i := 0; i < n; i += many {
			var dones []chan bool
			late := time.NewTimer(patience + 200*time.Second)
			timers := []*time.Timer{late}
			for k := 0; k < many; k++ {
				s := kinds[(i+k)%len(kinds)]
				if !same {
					port++
				}
				h := newHose(port)
				h.first = append([]byte(nil), s.first...)
				if ids++; named && len(h.first) >= 68 {
					copy(h.first[60:68], fmt.Sprintf("%08d", ids))
				}
				if s.stay == 0 {
					h.end = s.end
				} else {
					timers = append(timers, time.AfterFunc(s.stay, func() { h.more(0, s.end) }))
				}
				dones = append(dones, h.run(w))
			}
			for _, d := range dones {
				select {
				case <-d:
				case <-late.C:
					c.FailTiming("a session does not end\n%s", ctx)
				}
			}
			for _, t := range timers {
				t.Stop() // Or it would hold what it refers to
			}
		}
	}
	quiet := func() int {
		n := runtime.NumGoroutine()
		for end := time.Now().Add(20 * time.Millisecond); time.Now().Before(end); time.Sleep(time.Millisecond) {
			n = min(n, runtime.NumGoroutine())
		}
		return n
	}
	n := c.intn(100, 1500, "sessions")
	round(50)
	procs := quiet()
	before := held()
	round(n)
	after := held()
	procs2 := quiet()
	for end := time.Now().Add(patience); procs2 > procs+20 && time.Now().Before(end); {
		procs2 = quiet()
	}
	if procs2 > procs+20 {
		c.FailTiming("%d goroutines are left of %d sessions\n%s", procs2-procs, n, ctx)
	}
	if most := int64(256<<10) + w.t.total; after-before > most {
		c.FailTiming("the client holds %d bytes more than before, %d sessions ago\n%s", after-before, n, ctx)
	}
	c.Label("sessions: %d KiB or more are held", max(0, after-before)>>15<<5)
	c.NonTrivial("sessions", w.t.hashes, hist, n)
	c.Sample("%s\nafter %d of them %d bytes more are held", ctx, n, after-before)
}
