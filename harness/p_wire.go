package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sync"

	"pgregory.net/rapid"

	"gotor/bf"
	"gotor/p2p"
)

func init() {
	register(&Prop{
		ID: "P13",
		Rule: "Histories of Set, Fill, SetNbits and readings on bitfields made empty or from bytes (with spare bits set as well), compared with an array of booleans after every step; " +
			"non-trivial: at least three changes and a bit count that is not a multiple of eight (distinct by history). Bitfields of up to eight million bits as well.",
		Subs: []Sub{
			{"history", 60000, 600000, p13History},
			{"frombytes", 40000, 400000, p13FromBytes},
			{"large", 300, 3000, p13Large},
			{"huge", 24, 240, p13Huge},
		},
	})
	register(&Prop{
		ID:   "P14",
		Rule: "Messages of all nine types with drawn fields, compared with an independent encoder and decoded again; non-trivial: the message has a payload (distinct by encoding). Also several goroutines that encode and decode at the same time, with all results compared at the end. Payloads of up to 8 MB.",
		Subs: []Sub{
			{"roundtrip", 200000, 2000000, p14RoundTrip},
			{"together", 6000, 60000, p14Together},
			{"large", 320, 3200, p14Large},
		},
	})
	register(&Prop{
		ID: "P15",
		Rule: "Messages with wrong lengths, types and payloads, mutated and truncated messages, and batches of these, compared with an independent decoder; " +
			"non-trivial: the input is not a valid message or batch as drawn (distinct by input).",
		Subs: []Sub{
			{"single", 200000, 2000000, p15Single},
			{"batch", 120000, 1200000, p15Batch},
		},
	})
	register(&Prop{
		ID:   "P16",
		Rule: "Concatenations of drawn valid messages, optionally with a truncated one at the end; the buffer is overwritten afterwards; non-trivial: at least two messages, one of them with a payload (distinct by input). Batches of more messages than sixteen bits count, and messages of up to 8 MB.",
		Subs: []Sub{
			{"batch", 120000, 1200000, p16Batch},
			{"many", 400, 4000, p16Many},
			{"huge", 64, 640, p16Huge},
		},
	})
}

// ============================================================================
// P13 ========================================================================

// bitModel is an array of booleans. Spare bits are only known when nothing ever
// set them.
type bitModel struct {
	nbits  int
	bits   []bool // All bits of all bytes
	unsure []bool // Spare bits that may be set
}

func (m *bitModel) nbytes() int { return len(m.bits) / 8 }

func (m *bitModel) nset() int {
	n := 0
	for i := 0; i < m.nbits; i++ {
		if m.bits[i] {
			n++
		}
	}
	return n
}

func (m *bitModel) check(c *C, b *bf.Bitfield, hist []string) {
	if b.Nbits() != int64(m.nbits) || b.Nbytes() != int64(m.nbytes()) || len(b.Data()) != m.nbytes() || len(b.Data5()) != m.nbytes()+5 {
		c.Fail("%v: %d bits in %d bytes (data %d), want %d in %d", hist, b.Nbits(), b.Nbytes(), len(b.Data()), m.nbits, m.nbytes())
	}
	if !bytes.Equal(b.Data5()[5:], b.Data()) {
		c.Fail("%v: Data5 does not end with Data", hist)
	}
	for i := 0; i < m.nbits; i++ {
		if b.Get(int64(i)) != m.bits[i] {
			c.Fail("%v: bit %d is %v, want %v", hist, i, b.Get(int64(i)), m.bits[i])
		}
	}
	for i := range m.bits {
		got := b.Data()[i/8]&(0x80>>uint(i%8)) != 0
		if i >= m.nbits && m.unsure[i] {
			continue
		}
		if got != (m.bits[i] && i < m.nbits) {
			c.Fail("%v: bit %d of the bytes is %v (of %d)", hist, i, got, m.nbits)
		}
	}
	if n := m.nset(); b.Nset() != int64(n) {
		c.Fail("%v: Nset is %d, want %d", hist, b.Nset(), n)
	} else if b.Complete() != (n == m.nbits) {
		c.Fail("%v: Complete is %v with %d of %d", hist, b.Complete(), n, m.nbits)
	}
}

// setNbits changes the number of bits, the values of bits that come back are
// those the bitfield says.
func (m *bitModel) setNbits(c *C, b *bf.Bitfield, n int) {
	for i := n; i < m.nbits; i++ {
		m.unsure[i] = m.bits[i]
	}
	old := m.nbits
	m.nbits = n
	for i := old; i < n; i++ {
		if m.unsure[i] {
			m.bits[i] = b.Get(int64(i))
		} else {
			m.bits[i] = false
		}
	}
}

func panics(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}

func p13History(c *C) {
	nbits := c.intn(1, 70, "nbits")
	if c.chance(10, "large") {
		nbits = c.intn(1, 2000, "nbits")
	}
	m := &bitModel{nbits: nbits}
	m.bits = make([]bool, (nbits+7)/8*8)
	m.unsure = make([]bool, len(m.bits))
	var b *bf.Bitfield
	hist := []string{fmt.Sprint("new ", nbits)}
	if c.chance(3, "from bytes") {
		data := c.bytes(m.nbytes(), m.nbytes(), "data")
		data5 := append([]byte{0, 0, 0, 0, 0}, data...)
		var e error
		b, e = bf.FromBytes(data5, int64(nbits))
		if e != nil {
			c.Fail("FromBytes(%d bytes, %d bits): %v", len(data5), nbits, e)
		}
		for i := range m.bits {
			x := data[i/8]&(0x80>>uint(i%8)) != 0
			if i < nbits {
				m.bits[i] = x
			} else {
				m.unsure[i] = x
			}
		}
		hist[0] = fmt.Sprintf("from %x %d", data, nbits)
	} else {
		b = bf.NewBitfield(int64(nbits))
	}
	m.check(c, b, hist)

	changes := 0
	for k := c.intn(0, 20, "ops"); k > 0; k-- {
		switch c.intn(0, 7, "op") {
		case 0, 1, 2, 3:
			i := c.intn(0, m.nbits-1, "index")
			v := c.bool("value")
			b.Set(int64(i), v)
			m.bits[i] = v
			hist = append(hist, fmt.Sprintf("set %d %v", i, v))
			changes++
		case 4:
			if !c.chance(3, "fill") {
				break
			}
			b.Fill()
			for i := 0; i < m.nbits; i++ {
				m.bits[i] = true
			}
			hist = append(hist, "fill")
			changes++
		case 5, 6:
			n := c.intn((m.nbytes()-1)*8+1, m.nbytes()*8, "nbits")
			hist = append(hist, fmt.Sprint("nbits ", n))
			if r := panics(func() { b.SetNbits(int64(n)) }); r != nil {
				c.Fail("%v: refused: %v", hist, r)
			}
			m.setNbits(c, b, n)
			changes++
		case 7:
			n := pick(c, "bad nbits", (m.nbytes()-1)*8, m.nbytes()*8+1, 0, -1, m.nbytes()*8+8, (m.nbytes()-2)*8+1, math.MaxInt64)
			hist = append(hist, fmt.Sprint("nbits ", n))
			r := panics(func() { b.SetNbits(int64(n)) })
			if b.Nbits() == int64(n) {
				c.Fail("%v: accepted (%v)", hist, r)
			}
		}
		m.check(c, b, hist)
	}
	if changes >= 3 && m.nbits%8 != 0 {
		c.NonTrivial(hist)
		c.Sample("%v", hist)
	}
}

// p13Large does the same to bitfields of up to a million bits.
func p13Large(c *C) {
	most := pick(c, "most", 5000, 70000, 70000, 300000, 1<<20)
	nbits := c.intn(1, most, "nbits")
	if c.chance(3, "round") {
		nbits = 1<<uint(c.intn(8, 20, "exp")) + c.intn(-9, 9, "off")
	}
	p13Of(c, nbits)
}

// p13Huge has up to eight million bits.
func p13Huge(c *C) {
	p13Of(c, 1<<uint(19+c.index%5)+c.intn(-9, 3000, "off"))
}

func p13Of(c *C, nbits int) {
	m := &bitModel{nbits: nbits}
	m.bits = make([]bool, (nbits+7)/8*8)
	m.unsure = make([]bool, len(m.bits))
	var b *bf.Bitfield
	hist := []string{fmt.Sprint("new ", nbits)}
	if c.chance(3, "from bytes") {
		data := content(c.seed("data"), int64(m.nbytes()))
		var e error
		b, e = bf.FromBytes(append(make([]byte, 5), data...), int64(nbits))
		if e != nil {
			c.Fail("FromBytes of %d bits: %v", nbits, e)
		}
		for i := range m.bits {
			x := data[i/8]&(0x80>>uint(i%8)) != 0
			m.bits[i], m.unsure[i] = x && i < nbits, x && i >= nbits
		}
		hist[0] = fmt.Sprint("from bytes ", nbits)
	} else {
		b = bf.NewBitfield(int64(nbits))
	}
	set := func(i int, v bool) {
		b.Set(int64(i), v)
		m.bits[i] = v
	}
	for k := c.intn(1, 4, "ops"); k > 0; k-- {
		switch c.intn(0, 4, "op") {
		case 0: // here and there
			for n := c.intn(1, 10, "n"); n > 0; n-- {
				i, v := c.intn(0, m.nbits-1, "index"), c.bool("value")
				hist = append(hist, fmt.Sprintf("set %d %v", i, v))
				set(i, v)
			}
		case 1: // a range
			i, n, v := c.intn(0, m.nbits-1, "from"), c.intn(1, m.nbits, "n"), c.bool("value")
			hist = append(hist, fmt.Sprintf("set %d..+%d %v", i, n, v))
			for j := i; j < min(i+n, m.nbits); j++ {
				set(j, v)
			}
		case 2: // all but a few
			b.Fill()
			for i := 0; i < m.nbits; i++ {
				m.bits[i] = true
			}
			hist = append(hist, "fill")
			for n := c.intn(0, 2, "n"); n > 0; n-- {
				i := c.intn(0, m.nbits-1, "index")
				hist = append(hist, fmt.Sprintf("set %d false", i))
				set(i, false)
			}
		case 3: // every so many
			n, v := c.intn(1, 300, "step"), c.bool("value")
			hist = append(hist, fmt.Sprintf("set every %d %v", n, v))
			for i := 0; i < m.nbits; i += n {
				set(i, v)
			}
		case 4:
			n := c.intn((m.nbytes()-1)*8+1, m.nbytes()*8, "nbits")
			hist = append(hist, fmt.Sprint("nbits ", n))
			b.SetNbits(int64(n))
			m.setNbits(c, b, n)
		}
		m.check(c, b, hist)
	}
	c.NonTrivial("l", hist)
}

func p13FromBytes(c *C) {
	n := c.intn(0, 20, "bytes")
	data := c.bytes(n, n, "data")
	in := data
	if n > 5 {
		in = append([]byte(nil), data...)
	}
	payload := max(0, n-5)
	nbits := c.intn(-2, 8*payload+20, "nbits")
	switch c.intn(0, 3, "around") {
	case 0:
		nbits = 8*payload + c.intn(-1, 1, "off")
	case 1:
		nbits = 8*(payload-1) + c.intn(-1, 2, "off")
	}
	b, e := bf.FromBytes(in, int64(nbits))
	fits := payload >= 1 && nbits > 8*(payload-1) && nbits <= 8*payload
	if (e == nil) != fits {
		c.Fail("FromBytes(%d bytes after the first five, %d bits): %v", payload, nbits, e)
	}
	c.Label("accepted %v", fits)
	if !fits {
		return
	}
	count := 0
	for i := 0; i < nbits; i++ {
		x := data[5+i/8]&(0x80>>uint(i%8)) != 0
		if b.Get(int64(i)) != x {
			c.Fail("FromBytes(%x, %d): bit %d is %v", data, nbits, i, !x)
		}
		if x {
			count++
		}
	}
	if b.Nset() != int64(count) || b.Nbits() != int64(nbits) || b.Nbytes() != int64(payload) || b.Complete() != (count == nbits) {
		c.Fail("FromBytes(%x, %d): %d set, %d bits, %d bytes, want %d, %d, %d", data, nbits, b.Nset(), b.Nbits(), b.Nbytes(), count, nbits, payload)
	}
	if nbits%8 != 0 {
		c.NonTrivial("f", nbits, string(data))
	}
}

// ============================================================================
// Reference messages =========================================================

// wmsg is a peer message. Type 255 stands for keep-alive.
type wmsg struct {
	kind         byte
	index, begin uint32
	reqlen       uint32
	data         []byte // Block or bitfield
	bits         int    // Number of bits of a bitfield that is encoded
}

func (w wmsg) String() string {
	return fmt.Sprintf("{type %d index %d begin %d reqlen %d data %s}", w.kind, w.index, w.begin, w.reqlen, quote(w.data))
}

func be32(vals ...uint32) []byte {
	var b []byte
	for _, v := range vals {
		b = binary.BigEndian.AppendUint32(b, v)
	}
	return b
}

// frame writes a message of any type and payload.
func frame(kind byte, payload []byte) []byte {
	return append(append(be32(uint32(1+len(payload))), kind), payload...)
}

func (w wmsg) encode() []byte {
	switch w.kind {
	case 255:
		return be32(0)
	case 0, 1, 2, 3:
		return frame(w.kind, nil)
	case 4:
		return frame(4, be32(w.index))
	case 5:
		return frame(5, w.data)
	case 6, 8:
		return frame(w.kind, be32(w.index, w.begin, w.reqlen))
	case 7:
		return frame(7, append(be32(w.index, w.begin), w.data...))
	}
	harnessError("encode %d", w.kind)
	return nil
}

// refMsg decodes the message at the start of data. known is false for a message
// that is well framed, but of a type not handled.
func refMsg(data []byte) (w wmsg, n int, ok bool) {
	if len(data) < 4 {
		return w, 0, false
	}
	l := uint64(binary.BigEndian.Uint32(data))
	if l == 0 {
		return wmsg{kind: 255}, 4, true
	}
	if uint64(len(data)) < 4+l {
		return w, 0, false
	}
	n = int(4 + l)
	p := data[5:n]
	w.kind = data[4]
	switch {
	case w.kind <= 3 && len(p) == 0:
	case w.kind == 4 && len(p) == 4:
		w.index = binary.BigEndian.Uint32(p)
	case w.kind == 5 && len(p) > 0:
		w.data = p
	case w.kind == 6 && len(p) == 12:
		w.index, w.begin, w.reqlen = binary.BigEndian.Uint32(p), binary.BigEndian.Uint32(p[4:]), binary.BigEndian.Uint32(p[8:])
	case w.kind == 7 && len(p) >= 8:
		w.index, w.begin, w.data = binary.BigEndian.Uint32(p), binary.BigEndian.Uint32(p[4:]), p[8:]
	default:
		return w, n, false
	}
	return w, n, true
}

// fields returns what a message of the code says. ok is false if its type does
// not fit.
func fields(m p2p.Message) (w wmsg, ok bool) {
	switch x := m.(type) {
	case *p2p.MsgKeepAlive:
		w.kind = 255
	case *p2p.MsgChoke:
		w.kind = 0
	case *p2p.MsgUnchoke:
		w.kind = 1
	case *p2p.MsgInterested:
		w.kind = 2
	case *p2p.MsgNotInterested:
		w.kind = 3
	case *p2p.MsgHave:
		w.kind, w.index = 4, x.Index()
	case *p2p.MsgBitfield:
		w.kind, w.data = 5, x.Bitfield().Data()
	case *p2p.MsgRequest:
		w.kind, w.index, w.begin, w.reqlen = 6, x.Index(), x.Begin(), x.ReqLen()
	case *p2p.MsgPiece:
		w.kind, w.index, w.begin, w.data = 7, x.Index(), x.Begin(), x.Block()
	default:
		return w, false
	}
	return w, true
}

func sameMsg(a, b wmsg) bool {
	return a.kind == b.kind && a.index == b.index && a.begin == b.begin && a.reqlen == b.reqlen && bytes.Equal(a.data, b.data)
}

// checkMsg checks a decoded message in all it says.
func (c *C) checkMsg(m p2p.Message, want wmsg, in []byte) {
	if m == nil {
		c.Fail("no message from %s", quote(in))
	}
	got, ok := fields(m)
	if !ok || !sameMsg(got, want) {
		c.Fail("decoding %s gave %v (%T), want %v", quote(in), got, m, want)
	}
	enc := want.encode()
	if m.Length() != uint32(len(enc)-4) {
		c.Fail("decoding %s gave length %d, want %d", quote(in), m.Length(), len(enc)-4)
	}
	if m.Mtype() != want.kind {
		c.Fail("decoding %s gave type %d, want %d", quote(in), m.Mtype(), want.kind)
	}
	if b, is := m.(*p2p.MsgBitfield); is && b.Bitfield().Nbits() != int64(8*len(want.data)) {
		c.Fail("decoding %s gave %d bits", quote(in), b.Bitfield().Nbits())
	}
	if again := m.Encode(); !bytes.Equal(again, enc) {
		c.Fail("decoding %s and encoding again gave %s", quote(in), quote(again))
	}
	_ = m.String()
}

func (c *C) u32(label string) uint32 {
	switch c.intn(0, 3, label+" kind") {
	case 0:
		return uint32(c.intn(0, 20, label))
	case 1:
		return pick(c, label, uint32(0), 1, 255, 256, 65535, 65536, 1<<24, 1<<31-1, 1<<31, 1<<32-1, 16384)
	case 2:
		return uint32(1)<<uint(c.intn(0, 31, label)) + uint32(c.intn(0, 3, label+" off"))
	default:
		return rapid.Uint32().Draw(c.T, label)
	}
}

func (c *C) block(label string) []byte {
	switch c.intn(0, 4, label+" kind") {
	case 0:
		return []byte{}
	case 1, 2:
		return c.bytes(0, 20, label)
	case 3:
		return content(c.seed(label), int64(c.intn(0, 400, label+" len")))
	default:
		return content(c.seed(label), int64(pick(c, label+" len", 16384, 16383, 255, 256, 65535, 65536)))
	}
}

func (c *C) wmsg() wmsg {
	return c.wmsgOf(pick(c, "type", byte(255), 0, 1, 2, 3, 4, 5, 6, 7))
}

func (c *C) wmsgOf(kind byte) wmsg {
	w := wmsg{kind: kind}
	switch w.kind {
	case 4:
		w.index = c.u32("index")
	case 5:
		w.bits = c.intn(1, 100, "bits")
		if c.chance(8, "large") {
			w.bits = c.intn(1, 20000, "bits")
		}
		w.data = content(c.seed("bitfield"), int64((w.bits+7)/8))
		if w.bits%8 != 0 {
			w.data[len(w.data)-1] &= 0xFF << uint(8-w.bits%8)
		}
	case 6:
		w.index, w.begin, w.reqlen = c.u32("index"), c.u32("begin"), c.u32("reqlen")
	case 7:
		w.index, w.begin, w.data = c.u32("index"), c.u32("begin"), c.block("block")
	}
	return w
}

// make builds the message with the code's constructors.
func (w wmsg) make() p2p.Message {
	switch w.kind {
	case 255:
		return &p2p.KeepAliveSingleton
	case 0:
		return p2p.NewMsgChoke()
	case 1:
		return p2p.NewMsgUnchoke()
	case 2:
		return p2p.NewMsgInterested()
	case 3:
		return p2p.NewMsgNotInterested()
	case 4:
		return p2p.NewMsgHave(w.index)
	case 5:
		b := bf.NewBitfield(int64(w.bits))
		for i := 0; i < w.bits; i++ {
			if w.data[i/8]&(0x80>>uint(i%8)) != 0 {
				b.Set(int64(i), true)
			}
		}
		return p2p.NewMsgBitfield(b)
	case 6:
		return p2p.NewMsgRequest(w.index, w.begin, w.reqlen)
	case 7:
		return p2p.NewMsgPiece(w.index, w.begin, append([]byte(nil), w.data...))
	}
	harnessError("make %d", w.kind)
	return nil
}

// ============================================================================
// P14 ========================================================================

func p14RoundTrip(c *C) {
	p14Of(c, c.wmsg())
}

// largeMsg draws a message with a payload of about 2^exp bytes.
func (c *C) largeMsg(exp int) wmsg {
	n := max(1, 1<<uint(exp)+c.intn(-13, 30, "off"))
	if c.bool("bitfield") {
		return wmsg{kind: 5, bits: 8 * n, data: content(c.seed("bitfield"), int64(n))}
	}
	return wmsg{kind: 7, index: c.u32("index"), begin: c.u32("begin"), data: content(c.seed("block"), int64(n))}
}

// p14Large has bitfields and blocks of up to 8 MB.
func p14Large(c *C) {
	w := c.largeMsg(8 + c.index%16)
	p14Of(c, w)
	c.Label("large, type %d", w.kind)
}

func p14Of(c *C, w wmsg) {
	m := w.make()
	want := w.encode()
	for k := 0; k < 2; k++ { // encoding does not use a message up
		if got := m.Encode(); !bytes.Equal(got, want) {
			c.Fail("%v is encoded as %s, want %s", w, quote(got), quote(want))
		}
	}
	if m.Length() != uint32(len(want)-4) || m.Mtype() != w.kind {
		c.Fail("%v has length %d and type %d", w, m.Length(), m.Mtype())
	}
	in := append([]byte(nil), want...)
	if c.bool("followed") {
		in = append(in, c.bytes(0, 10, "following")...)
	}
	r, e := p2p.Decode(in)
	if e != nil {
		c.Fail("Decode(%s): %v", quote(in), e)
	}
	if r.Read != uint64(len(want)) {
		c.Fail("Decode(%s) read %d bytes, want %d", quote(in), r.Read, len(want))
	}
	c.checkMsg(r.Msg, w, in)
	c.Label("type %d", w.kind)
	if len(want) > 5 {
		c.NonTrivial(string(want))
		c.Sample("%v <-> %s", w, quote(want))
	}
}

// p14Together encodes and decodes several messages, keeping what it gets, and then
// all at the same time.
func p14Together(c *C) {
	n := c.intn(2, 8, "messages")
	ws, want := make([]wmsg, n), make([][]byte, n)
	ms, got, back := make([]p2p.Message, n), make([][]byte, n), make([]p2p.Message, n)
	for i := range ws {
		if i > 0 && c.chance(3, "same type") {
			ws[i] = c.wmsgOf(ws[i-1].kind)
		} else {
			ws[i] = c.wmsg()
		}
		want[i] = ws[i].encode()
		ms[i] = ws[i].make()
	}
	for i := range ws {
		got[i] = ms[i].Encode()
	}
	for i := range ws {
		if !bytes.Equal(got[i], want[i]) {
			c.Fail("%v is encoded as %s, after %d more were encoded, want %s", ws[i], quote(got[i]), n-1-i, quote(want[i]))
		}
		r, e := p2p.Decode(want[i])
		if e != nil {
			c.Fail("Decode(%s): %v", quote(want[i]), e)
		}
		back[i] = r.Msg
	}
	for i := range ws {
		c.checkMsg(back[i], ws[i], want[i])
	}

	rounds := c.intn(1, 10, "rounds")
	bad := make([]string, n)
	var wg sync.WaitGroup
	for i := range ws {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				if enc := ms[i].Encode(); !bytes.Equal(enc, want[i]) {
					bad[i] = fmt.Sprintf("%v is encoded as %s, want %s", ws[i], quote(enc), quote(want[i]))
				}
				r, e := p2p.Decode(want[i])
				if e != nil {
					bad[i] = fmt.Sprintf("Decode(%s): %v", quote(want[i]), e)
				} else if w, ok := fields(r.Msg); !ok || !sameMsg(w, ws[i]) {
					bad[i] = fmt.Sprintf("Decode(%s) gave %v, want %v", quote(want[i]), w, ws[i])
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("%d goroutines at once: %s", n, b)
		}
	}
	c.NonTrivial("t", string(want[0]), string(want[1]), n)
}

// ============================================================================
// P15 ========================================================================

// badMsg draws bytes that look like a message, but mostly are not one.
func (c *C) badMsg() []byte {
	switch c.intn(0, 5, "bad kind") {
	case 0: // truncated
		enc := c.wmsg().encode()
		return enc[:c.intn(0, len(enc)-1, "len")]
	case 1: // wrong length for the type
		kind := byte(c.intn(0, 10, "type"))
		return frame(kind, c.bytes(0, 16, "payload"))
	case 2: // length prefix that lies
		enc := c.wmsg().encode()
		l := c.u32("length")
		if c.bool("near") {
			l = uint32(int(binary.BigEndian.Uint32(enc)) + c.intn(-3, 3, "off"))
		}
		copy(enc, be32(l))
		return enc
	case 3: // any type
		return frame(byte(c.intn(0, 255, "type")), c.bytes(0, 20, "payload"))
	case 4:
		enc := c.wmsg().encode()
		if len(enc) > 64 {
			enc = enc[:64]
		}
		return c.mutate(enc, "\x00\x01\x04\x05\x06\x07\x0d\xff", 3)
	default:
		return c.bytes(0, 24, "bytes")
	}
}

func p15Single(c *C) {
	in := c.badMsg()
	if c.checkSingle(in) {
		c.Label("valid")
		return
	}
	c.Label("refused")
	c.NonTrivial("s", string(in))
	c.Sample("Decode(%s)", quote(in))
}

// checkSingle decodes one message, and tells whether it is one.
func (c *C) checkSingle(in []byte) bool {
	// Something plausible lies behind the input, which must not be used
	buf := append(append([]byte(nil), in...), frame(4, be32(0x55555555))...)
	buf = append(buf, bytes.Repeat([]byte{0x55}, 40)...)
	keep := append([]byte(nil), buf...)
	r, e := p2p.Decode(buf[:len(in)])
	if !bytes.Equal(buf, keep) {
		c.Fail("Decode(%s) changed its input", quote(in))
	}
	want, n, ok := refMsg(in)
	switch {
	case ok && e != nil:
		c.Fail("Decode(%s): %v", quote(in), e)
	case !ok && e == nil:
		c.Fail("Decode(%s) gave a message: %T", quote(in), r.Msg)
	case ok:
		if r.Read != uint64(n) {
			c.Fail("Decode(%s) read %d bytes, want %d", quote(in), r.Read, n)
		}
		c.checkMsg(r.Msg, want, in)
	}
	return ok
}

func p15Batch(c *C) {
	var in []byte
	n := c.intn(1, 6, "messages")
	bad := false
	for i := 0; i < n; i++ {
		if c.chance(3, "bad") {
			in = append(in, c.badMsg()...)
			bad = true
		} else if c.chance(6, "unknown") {
			in = append(in, c.unknownMsg()...)
			bad = true
		} else {
			in = append(in, c.wmsg().encode()...)
		}
	}
	c.checkBatch(in)
	if bad {
		c.NonTrivial("b", string(in))
	}
}

// unknownMsg draws a well framed message of a type that is not handled, with a
// payload in which messages could be seen.
func (c *C) unknownMsg() []byte {
	var payload []byte
	switch c.intn(0, 3, "unknown kind") {
	case 0:
		payload = make([]byte, c.intn(0, 40, "zeros"))
	case 1:
		payload = be32(c.u32("a"), c.u32("b"), c.u32("c"))
	case 2:
		payload = c.bytes(0, 30, "payload")
	case 3:
		for n := c.intn(1, 3, "inner"); n > 0; n-- {
			payload = append(payload, c.wmsg().encode()...)
		}
	}
	return frame(byte(pick(c, "unknown type", 8, 9, 10, 13, 14, 15, 16, 17, 20, 21, 127, 128, 255, c.intn(8, 255, "type"))), payload)
}

// checkBatch checks what DecodeAll makes of any input: all messages up to the
// first that is malformed, and afterwards only such whose bytes are there, one
// after the other.
func (c *C) checkBatch(in []byte) {
	var want []wmsg // Before anything malformed
	pos := 0
	for pos < len(in) {
		w, n, ok := refMsg(in[pos:])
		if !ok {
			break
		}
		want = append(want, w)
		pos += n
	}
	clean := pos == len(in)

	// After a well framed message of an unknown type, nothing or some of the
	// messages that follow may be decoded, and not what its payload looks like.
	var after []wmsg
	unknown := false
	if w, n, _ := refMsg(in[pos:]); n > 5 || n == 5 {
		unknown = w.kind >= 8
		for at := pos + n; unknown && at < len(in); {
			w, n, ok := refMsg(in[at:])
			if !ok {
				unknown = false // who knows what else
			}
			after = append(after, w)
			at += n
		}
	}

	r := p2p.DecodeAll(in)
	if len(r.Msgs) < len(want) || clean && len(r.Msgs) != len(want) {
		c.Fail("DecodeAll(%s) gave %d messages, there are %d before anything malformed", quote(in), len(r.Msgs), len(want))
	}
	read := pos
	for i, m := range r.Msgs {
		if m == nil {
			c.Fail("DecodeAll(%s): message %d is nil", quote(in), i)
		}
		if i < len(want) {
			c.checkMsg(m, want[i], in)
			continue
		}
		w, ok := fields(m)
		if !ok {
			c.Fail("DecodeAll(%s): message %d is a %T", quote(in), i, m)
		}
		enc := w.encode()
		at := bytes.Index(in[pos:], enc)
		if at < 0 {
			c.Fail("DecodeAll(%s): message %d (%v) is not in the input", quote(in), i, w)
		}
		c.checkMsg(m, w, in)
		if unknown {
			for len(after) > 0 && !sameMsg(after[0], w) {
				after = after[1:]
			}
			if len(after) == 0 {
				c.Fail("DecodeAll(%s): message %d (%v) was made from other bytes than those of a message, after one of an unknown type", quote(in), i, w)
			}
			after = after[1:]
		}
		pos += at + len(enc)
		read += len(enc)
	}
	if r.Read != uint64(read) {
		c.Fail("DecodeAll(%s) read %d bytes, the messages have %d", quote(in), r.Read, read)
	}
}

// ============================================================================
// P16 ========================================================================

func p16Batch(c *C) {
	var want []wmsg
	for n := c.intn(0, 8, "messages"); n > 0; n-- {
		want = append(want, c.wmsg())
	}
	c.p16(want)
}

// p16Many decodes batches of up to thousands of messages.
func p16Many(c *C) {
	var some []wmsg
	for n := c.intn(1, 6, "kinds"); n > 0; n-- {
		w := c.wmsg()
		if len(w.data) > 100 && !c.chance(4, "with data") {
			w.data, w.bits = w.data[:8], 64
		}
		some = append(some, w)
	}
	n := c.intn(9, pick(c, "most", 70, 300, 3000), "messages")
	if c.chance(3, "round") {
		n = 1<<uint(c.intn(3, 11, "exp")) + c.intn(0, 2, "off")
	}
	seed := content(c.seed("order"), int64(n))
	var want []wmsg
	size := 0
	for i := 0; i < n && size < 2<<20; i++ {
		w := some[int(seed[i])%len(some)]
		size += len(w.data)
		want = append(want, w)
	}
	c.p16(want)
}

// p16Huge decodes batches with messages of up to 8 MB, or of more messages than
// sixteen bits count.
func p16Huge(c *C) {
	var want []wmsg
	if c.index%4 == 0 {
		some := []wmsg{c.wmsgOf(4), {kind: 255}, c.wmsgOf(6), c.wmsgOf(pick(c, "kind", byte(0), 1, 2, 3))}
		seed := content(c.seed("order"), 1<<uint(14+c.index/4%4)+int64(c.intn(-2, 300, "messages")))
		for _, x := range seed {
			want = append(want, some[int(x)%len(some)])
		}
	} else {
		for n := c.intn(1, 3, "large"); n > 0; n-- {
			for k := c.intn(0, 2, "small"); k > 0; k-- {
				want = append(want, c.wmsg())
			}
			want = append(want, c.largeMsg(12+c.index/4%12))
		}
		want = append(want, c.wmsg())
	}
	c.p16(want)
	c.Label("huge")
}

func (c *C) p16(want []wmsg) {
	var in []byte
	n := len(want)
	payload := false
	for _, w := range want {
		in = append(in, w.encode()...)
		payload = payload || len(w.data) > 0
	}
	full := len(in)
	if c.chance(3, "truncated") {
		enc := c.wmsg().encode()
		in = append(in, enc[:c.intn(1, len(enc)-1, "len")]...)
		c.Label("truncated")
	}
	orig := append([]byte(nil), in...)
	r := p2p.DecodeAll(in)
	if len(r.Msgs) != n {
		c.Fail("DecodeAll(%s) gave %d messages, want %d", quote(orig), len(r.Msgs), n)
	}
	if r.Read != uint64(full) {
		c.Fail("DecodeAll(%s) read %d bytes, want %d", quote(orig), r.Read, full)
	}
	for i := range want {
		c.checkMsg(r.Msgs[i], want[i], orig)
	}
	// Also one after the other
	single := []p2p.Message{}
	for pos := 0; pos < full; {
		d, e := p2p.Decode(in[pos:])
		if e != nil || d.Read == 0 {
			c.Fail("Decode(%s): %v", quote(in[pos:]), e)
		}
		single = append(single, d.Msg)
		pos += int(d.Read)
	}
	// What was decoded stays when the buffer is used again
	for i := range in {
		in[i] = ^in[i]
	}
	// Or when other messages are decoded, as many or others
	other := append([]wmsg(nil), want...)
	for i, j := 0, len(other)-1; i < j; i, j = i+1, j-1 {
		other[i], other[j] = other[j], other[i]
	}
	if c.bool("others") {
		if len(other) > 0 {
			other = other[:c.intn(0, len(other), "of the same")]
		}
		for k := c.intn(0, 3, "new ones"); k > 0; k-- {
			other = append(other, c.wmsg())
		}
	}
	in = in[:0]
	for _, w := range other {
		in = append(in, w.encode()...)
	}
	orig2 := append([]byte(nil), in...)
	r2 := p2p.DecodeAll(in)
	if len(r2.Msgs) != len(other) || r2.Read != uint64(len(in)) {
		c.Fail("DecodeAll(%s) gave %d messages and read %d bytes", quote(orig2), len(r2.Msgs), r2.Read)
	}
	for i := range other {
		c.checkMsg(r2.Msgs[i], other[i], orig2)
	}
	for i := range want {
		c.checkMsg(r.Msgs[i], want[i], orig)
		c.checkMsg(single[i], want[i], orig)
	}
	if n >= 2 && payload {
		c.NonTrivial(string(orig))
		c.Sample("%d messages, %s", n, quote(orig))
	}
}
