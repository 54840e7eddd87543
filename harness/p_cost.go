package main

import (
	"bytes"
	"fmt"
	stdio "io"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"gotor/bencode"
	"gotor/bf"
	"gotor/p2p"
	"gotor/tracker"
	"gotor/utils"
	"gotor/utils/ds"
)

func init() {
	register(&Prop{
		ID: "P42",
		Rule: "An input is generated that grows with a number (more elements, longer elements, more of both), the same work is done on it 16 times and on an input that is 16 times as large, and the processor time of both is compared; " +
			"non-trivial: the larger input has at least 8000 elements (distinct by the work, the shape of the input and its size).",
		NeedOpts: true,
		Init:     startTracker,
		Subs: []Sub{
			{"bencode", 400, 4000, p42Bencode},
			{"torrent", 150, 1500, p42Torrent},
			{"messages", 300, 3000, p42Messages},
			{"answer", 100, 1000, p42Answer},
			{"structures", 200, 2000, p42Structures},
			{"stream", 100, 1000, p42Stream},
		},
	})
}

// cpu is the processor time that the clock shows.
func cpu(clock uintptr) time.Duration {
	var ts syscall.Timespec
	if _, _, e := syscall.Syscall(syscall.SYS_CLOCK_GETTIME, clock, uintptr(unsafe.Pointer(&ts)), 0); e != 0 {
		harnessError("%v", e)
	}
	return time.Duration(ts.Nano())
}

const (
	processTime uintptr = 2
	threadTime  uintptr = 3

	times    = 16
	most     = 7 // In proportion is 1, quadratic is 16
	shortest = 4 * time.Millisecond
)

// proportional compares what 16 times prepare(n)() costs with what prepare(16 n)() does.
func (c *C) proportional(who uintptr, what string, n int, prepare func(n int) func()) {
	if who == threadTime {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
	}
	// measure adds up what some runs take, the least of several times
	measure := func(n, runs, best int) time.Duration {
		least := time.Hour
		for i := 0; i < best; i++ {
			sum := time.Duration(0)
			for k := 0; k < runs; k++ {
				f := prepare(n)
				before := cpu(who)
				f()
				sum += cpu(who) - before
			}
			least = min(least, sum)
		}
		return least
	}
	large := measure(times*n, 1, 1)
	small := time.Duration(0)
	if large > most*shortest {
		// What takes next to no time cannot be compared
		small = max(measure(n, times, 1), shortest)
		if large > most*small {
			large = min(large, measure(times*n, 1, 3))
			small = max(small, measure(n, times, 1))
		}
		if large > most*small {
			c.FailTiming("%s: size %d, %d times, takes %v of the processor's time, and size %d takes %v (%.1f times as much)", what, n, times, small, times*n, large, float64(large)/float64(small))
		}
		c.Label("%d times as much or more", large/small)
	} else {
		c.Label("too fast to tell")
	}
	if times*n >= 8000 {
		c.NonTrivial(what, n)
	}
	c.Sample("%s, size %d: %v (size %d, %d times: %v)", what, times*n, large, n, times, small)
}

// ============================================================================
// P42 ========================================================================

// growing draws a function that makes a bencoding of some size.
func (c *C) growing() (string, func(n int) []byte) {
	seed := c.seed("content")
	kind := c.intn(0, 9, "shape")
	k := c.intn(1, 30, "k")
	rep := func(s string, n int) string { return strings.Repeat(s, n) }
	key := func(i, n int) string { return fmt.Sprintf("%0*d", 7+k, i) }
	switch kind {
	case 0:
		return "a list of integers", func(n int) []byte { return []byte("l" + rep("i-12345678e", n) + "e") }
	case 1:
		return "a list of strings", func(n int) []byte {
			return []byte("l" + rep(fmt.Sprintf("%d:%s", k, rep("x", k)), n) + "e")
		}
	case 2:
		return "one string", func(n int) []byte {
			x := content(seed, int64(n)*64)
			return append([]byte(fmt.Sprintf("%d:", len(x))), x...)
		}
	case 3, 4:
		order := kind == 4
		return fmt.Sprintf("a dictionary with keys of %d, sorted %v", 7+k, order), func(n int) []byte {
			var b bytes.Buffer
			b.WriteByte('d')
			for i := 0; i < n; i++ {
				j := i
				if !order {
					j = int(uint64(i) * 7919 % uint64(n))
				}
				fmt.Fprintf(&b, "%d:%si%de", 7+k, key(j, n), i)
			}
			b.WriteByte('e')
			return b.Bytes()
		}
	case 5:
		return "a list of lists and dictionaries", func(n int) []byte { return []byte("l" + rep("lded1:aleee", n) + "e") }
	case 6:
		return fmt.Sprintf("lists nested %d deep, again and again", k), func(n int) []byte {
			return []byte("l" + rep(rep("l", k)+rep("e", k), 1+n/k) + "e")
		}
	case 7:
		u := pick(c, "digits", "i", "i-", "", "l", "d")
		return "digits after " + u, func(n int) []byte {
			return []byte(u + rep("1", n*20) + pick2(kind+k, "e", ":", ""))
		}
	case 8:
		return "something that is not closed", func(n int) []byte { return []byte(rep("l", k) + rep("1:ai0e", n)) }
	default:
		return "a dictionary with a list", func(n int) []byte {
			return []byte("d4:listl" + rep("d2:ip9:127.0.0.17:peer id20:aaaaaaaaaaaaaaaaaaaa4:porti1ee", n) + "e4:zzzzi1ee")
		}
	}
}

func pick2(n int, s ...string) string { return s[n%len(s)] }

func p42Bencode(c *C) {
	shape, grow := c.growing()
	n := c.intn(1000, 5000, "n")
	switch c.intn(0, 2, "work") {
	case 0:
		c.proportional(threadTime, "decoding "+shape, n, func(n int) func() {
			data := grow(n)
			return func() { _, _ = bencode.Decode(data) }
		})
	case 1:
		c.proportional(threadTime, "looking for a part of "+shape, n, func(n int) func() {
			data := grow(n)
			return func() { _, _ = bencode.DictValueBytes(data, "zzzz") }
		})
	default:
		c.proportional(threadTime, "encoding "+shape, n, func(n int) func() {
			v, e := bencode.Decode(grow(n))
			return func() {
				if e == nil {
					_, _ = bencode.Encode(v)
				}
			}
		})
	}
}

func p42Torrent(c *C) {
	kind := c.intn(0, 4, "kind")
	k := c.intn(1, 20, "k")
	seed := c.seed("content")
	n := c.intn(500, 2000, "n")
	what := []string{"many files", "many pieces", "many parts of a path", "many other keys", "files and pieces"}[kind]
	c.proportional(threadTime, fmt.Sprintf("loading a torrent with %s (%d)", what, k), n, func(n int) func() {
		info := &bdict{[]bpair{{"name", "n"}, {"piece length", int64(1000)}}}
		d := &bdict{[]bpair{{"announce", "http://x/"}, {"info", info}}}
		files := []any{}
		total := 0
		single := func(length int) {
			info.set("length", int64(length))
			info.set("pieces", string(content(seed, int64((length+999)/1000*20))))
		}
		switch kind {
		case 0, 4:
			for i := 0; i < n; i++ {
				size := k
				if kind == 4 {
					size = 600 + i*7%800
				}
				total += size
				files = append(files, &bdict{[]bpair{{"length", int64(size)}, {"path", []any{fmt.Sprint("d", i%k), fmt.Sprint(i)}}}})
			}
		case 1:
			single(n * 1000)
		case 2:
			path := []any{}
			for i := 0; i < n; i++ {
				path = append(path, strings.Repeat("a", k))
			}
			files, total = append(files, &bdict{[]bpair{{"length", int64(5)}, {"path", path}}}), 5
		case 3:
			single(10)
			in := d
			if seed%2 == 0 {
				in = info
			}
			for i := 0; i < n; i++ {
				in.pairs = append(in.pairs, bpair{fmt.Sprintf("x%08d", i), strings.Repeat("v", k)})
			}
		}
		if len(files) > 0 {
			info.set("files", files)
			info.set("pieces", string(content(seed, int64((total+999)/1000*20))))
		}
		info.sort()
		d.sort()
		data := refEncode(d)
		return func() { _, _ = c.loadTorrent(data, "/nowhere/wd") }
	})
}

func p42Messages(c *C) {
	n := c.intn(1000, 5000, "n")
	one := c.bool("one message")
	typ := byte(pick(c, "type", 0, 4, 5, 6, 7, 8, 20, 99))
	k := int64(c.intn(0, 40, "k"))
	payload := map[byte]int64{0: 0, 4: 4, 6: 12, 8: 12, 7: 8 + k, 5: 1 + k}
	size, ok := payload[typ]
	if !ok {
		size = k
	}
	seed := c.seed("content")
	whole := c.bool("whole")
	c.proportional(threadTime, fmt.Sprintf("decoding messages of type %d (%d), one %v, whole %v", typ, size, one, whole), n, func(n int) func() {
		var data []byte
		if one {
			data = frame(typ, content(seed, int64(n)*50))
		} else {
			data = bytes.Repeat(frame(typ, content(seed, size)), n)
		}
		if !whole {
			data = data[:len(data)-1]
		}
		return func() {
			p2p.DecodeAll(data)
			if r, e := p2p.Decode(data); e == nil && r.Msg != nil {
				r.Msg.Encode()
			}
		}
	})
}

func p42Answer(c *C) {
	n := c.intn(500, 2000, "n")
	kind := c.intn(0, 2, "kind")
	seed := c.seed("content")
	// The other side of the connection is in this process, so nothing but
	// the processor's time of all is known; it is in proportion, too
	c.proportional(processTime, "reading an answer with many "+[]string{"compact peers", "peers", "other keys"}[kind], n, func(n int) func() {
		d := answer(60, nil)
		switch kind {
		case 0:
			d.set("peers", string(content(seed, 12*int64(n))))
		case 1:
			l := make([]any, 0, n)
			for i := 0; i < n; i++ {
				l = append(l, &bdict{[]bpair{{"ip", fmt.Sprintf("10.%d.%d.1", i>>8&255, i&255)}, {"peer id", "-XX0000-012345678901"}, {"port", int64(1 + i%60000)}}})
			}
			d.set("peers", l)
		case 2:
			for i := 0; i < n; i++ {
				d.pairs = append(d.pairs, bpair{fmt.Sprintf("x%08d", i), int64(i)})
			}
		}
		d.sort()
		theTracker.set(refEncode(d), false, false)
		return func() {
			_, _ = tracker.Get(c.asker(), tracker.NewStats(0, 0, 0), 1, "-GT0000-abcdefghijkl")
		}
	})
}

func p42Structures(c *C) {
	n := c.intn(1000, 4000, "n")
	step := c.intn(1, 9, "step")
	kind := c.intn(0, 3, "kind")
	c.proportional(threadTime, "using "+[]string{"a bitfield", "a set", "segments and hashes", "bitfield messages"}[kind]+fmt.Sprint(" ", step), n, func(n int) func() {
		return func() {
			switch kind {
			case 0:
				b := bf.NewBitfield(int64(8 * n))
				b.Fill()
				for i := int64(0); i < b.Nbits(); i += int64(step) {
					b.Set(i, i%2 == 0)
					_ = b.Get(i) && b.Complete() && b.Nset() == i
				}
				b.SetNbits(int64(8*n) - int64(step%8))
			case 1:
				s := ds.MakeSet[*keyed]()
				keys := make([]*keyed, n)
				for i := range keys {
					keys[i] = &keyed{key: fmt.Sprint(i * step)}
					s.Add(keys[i])
				}
				for i := 0; i < n; i += 2 {
					s.Has(keys[i])
					s.Remove(keys[i])
				}
				s.Size()
			case 2:
				utils.SHA1(make([]byte, 50*n))
				utils.SegmentData(make([]byte, 50*n), int64(step*10))
			case 3:
				b := bf.NewBitfield(int64(80 * n))
				m := p2p.NewMsgBitfield(b)
				_, _ = p2p.Decode(m.Encode())
			}
		}
	})
}

// p42Stream has a peer send a lot to a session.
func p42Stream(c *C) {
	w := c.memWorld()
	defer w.close()
	var unit []byte
	for k := c.intn(1, 3, "messages"); k > 0; k-- {
		unit = append(unit, w.bearable()...)
	}
	n := c.intn(500, 1500, "times")
	n = max(1, min(n, (4<<20)/len(unit)/times))
	ids := 0
	c.proportional(processTime, fmt.Sprintf("%s, owned %v: a session with many times %s", w.t, w.owned, quote(unit)), n, func(n int) func() {
		ids++
		h := newHose(ids)
		h.first = w.handshake(c.firstId())
		h.unit = unit
		h.left = int64(n) * int64(len(unit))
		return func() {
			done := h.run(w)
			ok, _ := h.drained()
			h.more(0, stdio.EOF)
			select {
			case <-done:
			case <-time.After(patience):
				ok = false
			}
			if !ok {
				c.FailTiming("the client does not read on, or the session does not end\n%s, %d times %s", w.t, n, quote(unit))
			}
		}
	})
}

func (c *C) firstId() string { return "-DD0000-abcdefghijkl" }
