package main

import (
	"bytes"
	"fmt"
	stdio "io"
	"strings"
	"time"

	"gotor/io"
)

func init() {
	register(&Prop{
		ID:       "P37",
		NeedOpts: true,
		Rule: "Sessions of peers that say something at generated intervals, of milliseconds to just under two minutes, whole messages or parts of them, then fall silent, leave or stay, on a clock of their own that is read at every step; " +
			"non-trivial: a peer that stays for more than two minutes or falls silent (distinct by script). Also peers that take what they are sent at any pace or not at all, and a few sessions in real time (thorough tier). And peers that stay for hours to weeks.",
		Subs: []Sub{
			{"clock", 2400, 24000, p37Clock},
			{"taking", 1200, 12000, p37Taking},
			{"days", 40, 400, p37Days},
			{"real", 0, 6, p37Real},
		},
	})
}

const (
	silenceLeast = 118 * time.Second // A peer may be silent for so long
	silenceMost  = 130 * time.Second // but not for so long
	keepAlive    = 121 * time.Second // We are not
	sendEvery    = keepAlive         // It takes us so long to have something to send
)

// ============================================================================
// P37 ========================================================================

// idler is a peer that says little.
type idler struct {
	*session
	name   string
	left   []byte // The rest of a message it has begun
	isReq  bool   // That is a request
	reqs   []wmsg
	script []string
	next   time.Time // When it does something
	turns  int       // until it ends
	end    string
	quiet  int       // 1: just fell silent, 2: is to be dropped
	last   time.Time // When it said something
	begin  time.Time
	gone   time.Time // When it ended
}

func (l *idler) String() string { return l.name + ": " + strings.Join(l.script, ", ") }

// say draws what the peer says.
func (l *idler) say() {
	c, w := l.w.c, l.w
	if len(l.left) == 0 {
		var m []byte
		what := ""
		switch c.intn(0, 5, "says") {
		case 0, 1:
			m, what = be32(0), "keep-alive"
		case 2:
			m = frame(byte(c.intn(20, 22, "type")), make([]byte, c.intn(0, 60, "length")))
			what = "unknown message"
		case 3:
			r := wmsg{kind: byte(c.intn(0, 3, "kind"))}
			m, what = r.encode(), r.String()
		default:
			if w.nset() == 0 {
				m, what = be32(0), "keep-alive"
				break
			}
			r := w.goodRequest("request")
			l.reqs = append(l.reqs, r)
			m, what = r.encode(), r.String()
		}
		l.left, l.isReq = m, strings.HasPrefix(what, "{type 6")
		l.script = append(l.script, what)
	}
	n := len(l.left)
	if c.chance(3, "in parts") {
		n = c.intn(1, n, "part")
		l.script = append(l.script, fmt.Sprintf("%d bytes", n))
	}
	l.send(l.left[:n])
	l.left = l.left[n:]
	l.last = time.Now()
}

// gap draws how long the peer is silent.
func (l *idler) gap() {
	c := l.w.c
	ms := 0
	switch c.intn(0, 3, "gap") {
	case 0:
		ms = c.intn(1, 3000, "ms")
	case 1:
		ms = pick(c, "round", 1000, 30000, 59999, 60000, 60001, 90000, 100000, 117000)
	default:
		ms = c.intn(30000, 117500, "ms")
	}
	l.next = time.Now().Add(time.Duration(ms) * time.Millisecond)
	l.script = append(l.script, fmt.Sprintf("%.3f s", float64(ms)/1000))
}

func p37Clock(c *C) {
	t := c.smallSess()
	w := c.newWorld(t, c.ownSome(t))
	c.virtual(func() { p37Peers(c, w) })
}

func p37Peers(c *C, w *world) {
	defer w.close()
	var all []*idler
	ctx := func() string {
		var s []string
		for _, l := range all {
			s = append(s, l.String())
		}
		return strings.Join(s, "\n")
	}
	for k := c.intn(1, 4, "peers"); k > 0; k-- {
		l := &idler{session: w.incoming(), name: fmt.Sprint("peer ", len(all))}
		l.turns = c.intn(0, 8, "turns")
		if c.chance(5, "long session") {
			l.turns = c.intn(9, 60, "turns")
		}
		l.end = pick(c, "end", "silence", "silence", "close", "stays")
		all = append(all, l)
		l.send(w.handshake(c.peerId("id")))
		settle()
		select {
		case <-l.up:
		default:
			c.Fail("the client does not answer the handshake")
		}
		if l.err != nil {
			c.Fail("handshake refused: %v", l.err)
		}
		c.check(l.checkOpening(true), false)
		l.begin, l.last = time.Now(), time.Now()
		l.gap()
		if c.bool("join later") {
			time.Sleep(time.Duration(c.intn(0, 1000, "ms")) * time.Millisecond)
		}
	}
	// alive checks a peer that should be connected
	alive := func(l *idler) {
		if l.closed() {
			c.Fail("%s was dropped although it spoke %v ago\n%s", l.name, time.Since(l.last), ctx())
		}
		msg, timing := l.serve(l.reqsWhole())
		c.check(msg, timing, ctx())
	}
	long := false
	for {
		// Whose turn is it?
		var cur *idler
		for _, l := range all {
			if l.gone.IsZero() && (cur == nil || l.next.Before(cur.next)) {
				cur = l
			}
		}
		if cur == nil {
			break
		}
		time.Sleep(time.Until(cur.next))
		settle()
		for _, l := range all {
			if l.gone.IsZero() && time.Since(l.last) <= silenceLeast {
				alive(l)
			}
		}
		if cur.quiet == 2 {
			if !cur.closed() {
				c.Fail("%s is silent for %v but still connected\n%s", cur.name, silenceMost, ctx())
			}
			cur.gone = cur.last.Add(silenceLeast)
			long = true
			continue
		}
		if cur.quiet == 1 {
			if cur.closed() {
				c.Fail("%s was dropped after less than %v of silence\n%s", cur.name, silenceLeast, ctx())
			}
			cur.next, cur.quiet = cur.last.Add(silenceMost), 2
			continue
		}
		cur.turns--
		if cur.turns >= 0 {
			cur.say()
			cur.gap()
			settle()
			alive(cur)
			continue
		}
		switch cur.end {
		case "close":
			cur.hangUp()
			cur.script = append(cur.script, "close")
			settle()
			cur.gone = time.Now()
			if !cur.closed() {
				c.Fail("the connection of %s, which left, is still open\n%s", cur.name, ctx())
			}
		case "silence":
			cur.script = append(cur.script, "silence")
			cur.next, cur.quiet = cur.last.Add(silenceLeast), 1
		case "stays":
			// Some more turns
			cur.end = "silence"
			cur.turns = c.intn(1, 4, "more")
			cur.say()
			cur.gap()
		}
	}
	for _, l := range all {
		select {
		case <-l.done:
		default:
			c.Fail("the session of %s still runs\n%s", l.name, ctx())
		}
		c.check(l.spoken(), false, ctx())
		long = long || l.gone.Sub(l.begin) > keepAlive
	}
	w.quiet(ctx())
	if long {
		c.NonTrivial(ctx())
		c.Sample("%s", ctx())
	}
}

// reqsWhole are the requests that were sent in full.
func (l *idler) reqsWhole() []wmsg {
	if len(l.left) > 0 && l.isReq {
		return l.reqs[:len(l.reqs)-1]
	}
	return l.reqs
}

// spoken checks that the client was never silent for long, and what it sent.
func (l *idler) spoken() string {
	msgs, rest := l.messages()
	if len(rest) > 0 {
		return fmt.Sprintf("%s got messages and then %s, which is none", l.name, quote(rest))
	}
	for _, m := range msgs {
		if m.kind > 9 && m.kind != 255 {
			return fmt.Sprintf("%s got an unknown message %v", l.name, m)
		}
	}
	at := l.begin
	l.conn.mu.Lock()
	defer l.conn.mu.Unlock()
	for _, x := range append(append([]wrote(nil), l.conn.wrote...), wrote{l.gone, 0}) {
		if d := x.at.Sub(at); d > keepAlive {
			return fmt.Sprintf("%s was sent nothing for %v, from %v after the handshake on", l.name, d, at.Sub(l.begin))
		}
		at = x.at
	}
	return ""
}

// p37Days has peers that stay for hours, days or weeks.
func p37Days(c *C) {
	t := c.smallSess()
	w := c.newWorld(t, t.ownAll())
	c.virtual(func() { p37Stay(c, w) })
}

func p37Stay(c *C, w *world) {
	defer w.close()
	turns := 1<<uint(8+c.index%6) + c.intn(0, 60, "turns")
	if c.index%20 == 13 {
		turns = 67000 // Of about a minute
	}
	var all []*session
	var reqs [][]wmsg
	begin := time.Now()
	for k := c.intn(1, 2, "peers"); k > 0; k-- {
		s := w.incoming()
		s.send(w.handshake(c.peerId("id")))
		settle()
		c.check(s.checkOpening(true), false)
		all, reqs = append(all, s), append(reqs, nil)
	}
	gaps := content(c.seed("gaps"), 997)
	kind := c.intn(0, 2, "says")
	for i := 0; i < turns; i++ {
		time.Sleep(50*time.Second + time.Duration(gaps[i%len(gaps)])*200*time.Millisecond)
		for k, s := range all {
			if kind == 1 && i%3 == k || i == turns-1 {
				r := w.goodRequest("request")
				reqs[k] = append(reqs[k], r)
				s.send(r.encode())
				if i != turns-1 {
					kind = 0 // Once is enough
				}
			} else if kind == 2 {
				s.send(wmsg{kind: byte(i % 4)}.encode())
			} else {
				s.send(be32(0))
			}
		}
		settle()
		for k, s := range all {
			if s.closed() {
				c.Fail("peer %d was dropped after %v, in which it was never silent for two minutes", k, time.Since(begin))
			}
			if d := time.Since(s.conn.lastWrote()); d > keepAlive {
				c.Fail("peer %d was sent nothing for %v, after %v", k, d, time.Since(begin))
			}
		}
		if i%256 == 0 {
			note("days", c.index)
		}
	}
	for k, s := range all {
		msg, timing := s.serve(reqs[k])
		c.check(msg, timing, fmt.Sprintf("after %v", time.Since(begin)))
	}
	c.NonTrivial("days", w.t.hashes, turns, kind, len(all))
	c.Sample("%d peers stay for %v", len(all), time.Since(begin))
	c.Label("days, %d and more hours", int(time.Since(begin).Hours())/10*10)
}

// p37Taking has peers that take what they are sent slowly, or not at all.
func p37Taking(c *C) {
	t := c.smallSess()
	owned := t.ownAll()
	if c.bool("incomplete") {
		// Then it asks for pieces as well
		owned = c.ownSome(t)
		owned[c.intn(0, len(owned)-1, "one")] = true
	}
	w := c.newWorld(t, owned)
	c.virtual(func() { p37Takers(c, w) })
}

func p37Takers(c *C, w *world) {
	defer w.close()
	type taker struct {
		*idler
		stops   time.Time // When it took something for the last time, zero if it goes on
		pending bool      // There is something it is to be sent then
		speaks  bool      // It still says something then
	}
	var all []*taker
	ctx := func() string {
		var s []string
		for _, l := range all {
			s = append(s, l.String())
		}
		return strings.Join(s, "\n")
	}
	say := func(l *taker) {
		l.send(be32(0))
		l.last = time.Now()
	}
	ask := func(l *taker, n int) {
		for ; n > 0; n-- {
			r := w.goodRequest("request")
			l.reqs = append(l.reqs, r)
			l.send(r.encode())
			l.script = append(l.script, r.String())
		}
		l.last = time.Now()
	}
	step := func(l *taker, most int) {
		ms := c.intn(1, most, "gap")
		l.next = time.Now().Add(time.Duration(ms) * time.Millisecond)
		l.script = append(l.script, fmt.Sprintf("%.3f s", float64(ms)/1000))
	}
	for k := c.intn(1, 4, "peers"); k > 0; k-- {
		l := &taker{idler: &idler{session: w.incoming(), name: fmt.Sprint("peer ", len(all))}}
		l.turns = c.intn(0, 12, "turns")
		l.end = pick(c, "end", "stops", "stops", "stops", "takes all")
		all = append(all, l)
		opening := 68
		if len(all) == 1 && c.chance(2, "slow from the start") { // The others would wait
			opening = c.intn(0, 67, "opening")
			l.conn.take(opening)
			l.script = append(l.script, fmt.Sprintf("takes %d", opening))
		}
		l.send(w.handshake(c.peerId("id")))
		l.begin, l.last = time.Now(), time.Now()
		if opening < 68 {
			settle()
			time.Sleep(time.Duration(c.intn(1, 117000, "ms")) * time.Millisecond)
			l.conn.take(-1)
		}
		settle()
		if l.closed() {
			c.Fail("the connection is closed during the handshake\n%s", ctx())
		}
		c.check(l.checkOpening(true), false)
		// From now on it takes what it says
		l.conn.take(0)
		if w.nset() < len(w.owned) && c.chance(4, "has nothing") == false {
			l.send(frame(5, bitfieldOf(w.t.ownAll())))
			l.script = append(l.script, "has all")
		}
		if c.bool("asks first") {
			ask(l, c.intn(1, 6, "requests"))
		}
		say(l)
		step(l, 55000)
	}
	dropped := false
	for {
		var cur *taker
		for _, l := range all {
			if l.gone.IsZero() && (cur == nil || l.next.Before(cur.next)) {
				cur = l
			}
		}
		if cur == nil {
			break
		}
		time.Sleep(time.Until(cur.next))
		settle()
		for _, l := range all {
			if l.gone.IsZero() && l.stops.IsZero() && l.closed() {
				c.Fail("%s was dropped although it takes what it is sent and speaks\n%s", l.name, ctx())
			}
			if l.gone.IsZero() && l.closed() {
				if took := time.Since(l.conn.lastWrote()); took < silenceLeast && time.Since(l.last) < silenceLeast {
					c.Fail("%s was dropped %v after it took something\n%s", l.name, took, ctx())
				}
			}
		}
		if !cur.stops.IsZero() {
			most := silenceMost
			if !cur.pending {
				most += sendEvery
			}
			if cur.speaks && time.Since(cur.stops) < most && !cur.closed() {
				say(cur)
				step(cur, 50000)
				cur.script = append(cur.script, "still says something")
				if end := cur.stops.Add(most); cur.next.After(end) {
					cur.next = end
				}
				continue
			}
			if !cur.closed() && time.Since(cur.stops) < most {
				cur.next = cur.stops.Add(most)
				continue
			}
			if !cur.closed() {
				c.Fail("%s took nothing of what it is sent for %v but is still connected\n%s", cur.name, time.Since(cur.stops), ctx())
			}
			cur.gone = time.Now()
			dropped = true
			continue
		}
		cur.turns--
		switch {
		case cur.turns >= 0:
			if c.bool("asks") {
				ask(cur, c.intn(1, 4, "requests"))
			}
			n := c.intn(1, pick(c, "take", 1, 20, 2000, 40000), "n")
			cur.script = append(cur.script, fmt.Sprintf("takes %d", n))
			cur.conn.take(n)
			say(cur)
			step(cur, 55000)
		case cur.end == "takes all":
			cur.conn.take(-1)
			settle()
			msg, timing := cur.serve(cur.reqs)
			c.check(msg, timing, ctx())
			cur.hangUp()
			cur.script = append(cur.script, "takes all and leaves")
			settle()
			cur.gone = time.Now()
			if !cur.closed() {
				c.Fail("the connection of %s, which left, is still open\n%s", cur.name, ctx())
			}
		default:
			cur.conn.take(0)
			cur.pending = c.chance(3, "nothing to send") == false
			if cur.pending {
				ask(cur, c.intn(1, 3, "requests"))
			} else {
				say(cur)
			}
			cur.stops = time.Now()
			cur.speaks = c.bool("speaks on")
			cur.script = append(cur.script, fmt.Sprintf("takes nothing more, speaks %v", cur.speaks))
			cur.next = cur.stops
			if !cur.speaks {
				cur.next = cur.stops.Add(silenceLeast)
			}
		}
	}
	for _, l := range all {
		select {
		case <-l.done:
		default:
			c.Fail("the session of %s still runs\n%s", l.name, ctx())
		}
	}
	w.quiet(ctx())
	c.Label("dropped %v", dropped)
	if dropped {
		c.NonTrivial(ctx())
		c.Sample("%s", ctx())
	}
}

// p37Real does it in real time, with peers over TCP that the client accepts or
// dials.
func p37Real(c *C) {
	t := c.smallSess()
	w := c.newWorld(t, t.ownAll())
	defer w.close()
	type one struct {
		s        *session
		every    time.Duration // 0: silent
		saidAt   time.Time
		gotAt    time.Time
		got      int
		closedAt time.Time
	}
	var all []*one
	for k := c.intn(10, 30, "peers"); k > 0; k-- {
		o := &one{}
		if c.bool("speaks") {
			o.every = time.Duration(c.intn(40, 110, "s")) * time.Second
		}
		if c.bool("dialled") {
			ln := newListener()
			o.s = w.dial(ln.Addr())
			conn := o.s.accepted(ln)
			_ = ln.Close()
			if conn == nil {
				c.FailTiming("the client did not connect")
			}
			o.s.follow()
		} else {
			o.s = w.incoming()
		}
		o.s.send(w.handshake("-PP0000-abcdefghijkl"))
		<-o.s.up
		if o.s.err != nil {
			c.Discard("handshake was late")
		}
		o.saidAt, o.gotAt = time.Now(), time.Now()
		all = append(all, o)
	}
	begin := time.Now()
	for time.Since(begin) < 190*time.Second {
		note("real", c.index)
		for i, o := range all {
			if o.s.closed() && o.closedAt.IsZero() {
				o.closedAt = time.Now()
				if o.every > 0 || time.Since(o.saidAt) < silenceLeast {
					c.FailTiming("peer %d was dropped %v after it spoke (every %v)", i, time.Since(o.saidAt), o.every)
				}
			}
			if !o.closedAt.IsZero() {
				continue
			}
			if n := len(o.s.received()); n != o.got {
				o.got, o.gotAt = n, time.Now()
			}
			if time.Since(o.gotAt) > keepAlive+2*time.Second {
				c.FailTiming("peer %d got nothing for %v", i, time.Since(o.gotAt))
			}
			if o.every > 0 && time.Since(o.saidAt) > o.every {
				o.s.send(be32(0))
				o.saidAt = time.Now()
			}
			if o.every == 0 && time.Since(o.saidAt) > silenceMost {
				c.FailTiming("peer %d is silent for %v but still connected", i, time.Since(o.saidAt))
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
	c.NonTrivial(c.index)
	c.Sample("%d peers in real time", len(all))
}

// ============================================================================
// P17 ========================================================================

// p17Slow has peers whose handshake takes time, on a clock of its own.
func p17Slow(c *C) {
	t := c.sessTor(10, 40)
	w := c.newWorld(t, t.ownAll())
	c.virtual(func() {
		defer w.close()
		var ctx []string
		for n := c.intn(1, 5, "peers"); n > 0; n-- {
			good := c.bool("good")
			stream, what, whole := w.handshake(c.peerId("id")), "valid", true
			if !good {
				stream, what, whole = w.badOpening()
			}
			s := w.incoming()
			left := stream
			total := 0
			var script []string
			for len(left) > 0 {
				// It is all there in time
				k := c.intn(1, len(left), "part")
				s.send(left[:k])
				left = left[k:]
				ms := 0
				if len(left) > 0 && total < 880 && c.bool("pause") {
					ms = c.intn(0, 900-total, "ms")
					total += ms
					time.Sleep(time.Duration(ms) * time.Millisecond)
				}
				script = append(script, fmt.Sprintf("%d bytes, %d ms", k, ms))
				if len(left) > 0 {
					settle()
					if len(s.received()) > 0 && (!good || len(stream)-len(left) < 68) {
						c.Fail("the client sent %s before the handshake was complete\n%s: %q as %v", quote(s.received()), what, stream, script)
					}
				}
			}
			settle()
			line := fmt.Sprintf("%s: %q as %v", what, stream, script)
			ctx = append(ctx, line)
			if !good {
				_ = whole
				time.Sleep(patience) // Whatever is missing does not come
				settle()
				if len(s.received()) > 0 {
					c.Fail("the client sent %s\n%s", quote(s.received()), line)
				}
				if !s.closed() {
					c.Fail("the connection is still open\n%s", line)
				}
				continue
			}
			select {
			case <-s.up:
			default:
				c.Fail("the client does not react to the handshake\n%s", line)
			}
			if s.err != nil {
				c.Fail("the peer was refused: %v\n%s", s.err, line)
			}
			c.check(s.checkOpening(true), false, line)
			r := w.goodRequest("request")
			s.send(r.encode())
			msg, timing := s.serve([]wmsg{r})
			c.check(msg, timing, line)
			// The time limit of the handshake is not one of the session
			time.Sleep(time.Duration(c.intn(0, 100, "s")) * time.Second)
			r2 := w.goodRequest("request later")
			s.send(r2.encode())
			msg, timing = s.serve([]wmsg{r, r2})
			c.check(msg, timing, line)
		}
		c.NonTrivial(strings.Join(ctx, "|"))
		c.Sample("%s", strings.Join(ctx, "\n"))
	})
}

// ============================================================================
// P27 ========================================================================

// p27Clock sends for minutes, on a clock of its own. There is one writer and one
// reader.
func p27Clock(c *C) {
	type spec struct {
		Write bool
		Rate  int64
		Msgs  []int
		Gaps  []int // ms before the message
	}
	draw := func(write bool) *spec {
		s := &spec{Write: write, Rate: pick(c, "rate", int64(-1), 1, 10, 100, 1000, int64(c.intn(1, 3000, "any rate")))}
		ref := max(10, int(s.Rate))
		for k := c.intn(1, 40, "messages"); k > 0; k-- {
			n := c.intn(1, max(1, pick(c, "size", 1, ref/10, ref/2, ref, 3*ref)), "n")
			g := 0
			if c.chance(3, "gap") {
				g = c.intn(0, pick(c, "gap size", 10, 1000, 2500, 20000), "ms")
			}
			s.Msgs, s.Gaps = append(s.Msgs, n), append(s.Gaps, g)
		}
		return s
	}
	specs := []*spec{draw(true), draw(false)}
	held := false
	c.virtual(func() {
		rl := io.NewRateLimitIO()
		rl.SetWriteRate(specs[0].Rate)
		rl.SetReadRate(specs[1].Rate)
		ended := make(chan bool)
		go func() {
			rl.Run()
			close(ended)
		}()
		type event struct {
			asked, at time.Time
			n         int
		}
		results := make([][]event, 2)
		dones := make(chan string, 2)
		sinks := &sink{}
		var sent []byte
		for d, s := range specs {
			go func() {
				src := &source{}
				for i, n := range s.Msgs {
					time.Sleep(time.Duration(s.Gaps[i]) * time.Millisecond)
					asked := time.Now()
					data := content(uint64(i*13+n+d), int64(n))
					var e error
					if s.Write {
						sent = append(sent, data...)
						e = rl.Write(sinks, data)
					} else {
						src.data = append(src.data, data...)
						buf := make([]byte, n)
						e = rl.Read(src, buf)
						if e == nil && !bytes.Equal(buf, data) {
							dones <- fmt.Sprintf("read %s instead of %s", quote(buf), quote(data))
							return
						}
					}
					if e != nil {
						dones <- e.Error()
						return
					}
					results[d] = append(results[d], event{asked, time.Now(), n})
				}
				dones <- ""
			}()
		}
		fail := ""
		for range specs {
			select {
			case msg := <-dones:
				if msg != "" {
					fail = msg
				}
			case <-time.After(100 * time.Hour):
				fail = "messages are held back for hours"
			}
		}
		go rl.Stop()
		<-ended
		if fail != "" {
			c.Fail("%s\n%+v %+v", fail, *specs[0], *specs[1])
		}
		if got := sinks.all(); !bytes.Equal(got, sent) {
			c.Fail("wrote %s but %s arrived\n%+v", quote(sent), quote(got), *specs[0])
		}
		for d, s := range specs {
			most := int64(0)
			for _, n := range s.Msgs {
				most = max(most, int64(n))
			}
			evs := results[d]
			for i, e := range evs {
				if wait := e.at.Sub(e.asked); s.Rate < 0 && wait > 0 {
					c.Fail("a message is held back for %v without a limit\n%+v", wait, *s)
				} else if wait > 1100*time.Millisecond {
					c.Fail("message %d is held back for %v, more than a tick\n%+v", i, wait, *s)
				} else if wait > 0 {
					held = true
				}
				if s.Rate < 0 {
					continue
				}
				// In every interval there is at most one more tick than seconds
				sum := int64(0)
				for j := i; j < len(evs); j++ {
					sum += int64(evs[j].n)
					span := evs[j].at.Sub(e.at)
					if limit := (int64(span/time.Second) + 2) * (s.Rate + most - 1); sum > limit {
						c.Fail("%d bytes were let through in %v, from message %d to %d, with limit %d and messages of at most %d\n%+v", sum, span, i, j, s.Rate, most, *s)
					}
				}
			}
		}
	})
	if held {
		c.NonTrivial(fmt.Sprintf("%+v %+v", *specs[0], *specs[1]))
		c.Sample("%+v %+v", *specs[0], *specs[1])
	}
}

// ============================================================================
// P28 ========================================================================

// p28Clock has data that comes at intervals, on a clock of its own.
func p28Clock(c *C) {
	timeout := time.Duration(pick(c, "timeout", 1, 50, 1000, 120000, c.intn(1, 300000, "any timeout"))) * time.Millisecond
	bufSize := pick(c, "buffer", 1, 3, 16, 1000)
	type step struct {
		Gap  time.Duration
		Data int
		Busy time.Duration // The consumer is busy with each chunk for so long
	}
	var steps []step
	total := 0
	for k := c.intn(0, 12, "steps"); k > 0; k-- {
		s := step{Data: c.intn(1, 40, "n")}
		// Below the timeout, mostly by little
		switch c.intn(0, 2, "gap") {
		case 0:
			s.Gap = timeout / 2
		case 1:
			s.Gap = timeout * time.Duration(c.intn(0, 97, "percent")) / 100
		}
		if c.chance(4, "busy") {
			s.Busy = time.Duration(c.intn(0, 300, "busy percent")) * timeout / 100
		}
		steps = append(steps, s)
		total += s.Data
	}
	end := pick(c, "end", "silence", "silence", "close", "reset", "finish")
	data := content(c.seed("content"), int64(total))
	ctx := fmt.Sprintf("timeout %v, buffer %d, steps %v, end %s", timeout, bufSize, steps, end)
	c.virtual(func() {
		conn := newMemConn(c.index)
		defer conn.stop()
		rl := io.NewReadLoop(int64(bufSize), conn, timeout)
		ended := make(chan bool)
		go func() {
			rl.Run()
			close(ended)
		}()
		defer func() {
			rl.Finish()
			_ = conn.Close()
		}()
		var got []byte
		pos := 0
		// take consumes what is there
		take := func(busy time.Duration) {
			for {
				settle()
				select {
				case chunk := <-rl.ReadData():
					keep := append([]byte(nil), chunk...)
					if busy > 0 {
						time.Sleep(busy)
						settle()
					}
					if !bytes.Equal(keep, chunk) {
						c.Fail("a chunk changed while its consumer was busy: %s, then %s\n%s", quote(keep), quote(chunk), ctx)
					}
					got = append(got, chunk...)
					rl.Ready()
				case e := <-rl.ReadError():
					c.Fail("an error (%v) after %d of %d bytes, without silence\n%s", e, len(got), total, ctx)
				default:
					return
				}
			}
		}
		for _, s := range steps {
			time.Sleep(s.Gap)
			conn.push(data[pos : pos+s.Data])
			pos += s.Data
			take(s.Busy)
			if !bytes.Equal(got, data[:pos]) {
				c.Fail("got %s instead of %s\n%s", quote(got), quote(data[:pos]), ctx)
			}
		}
		last := time.Now()
		switch end {
		case "close":
			conn.finish(stdio.EOF, false)
		case "reset":
			conn.finish(errReset, false)
		case "finish":
			rl.Finish()
		}
		if end == "finish" {
			settle()
			select {
			case <-ended:
			default:
				c.Fail("the loop goes on after Finish\n%s", ctx)
			}
			return
		}
		var e error
		select {
		case chunk := <-rl.ReadData():
			c.Fail("%s was invented\n%s", quote(chunk), ctx)
		case e = <-rl.ReadError():
		case <-time.After(2*timeout + time.Second):
			c.Fail("the end is not reported\n%s", ctx)
		}
		if e == nil {
			c.Fail("the end is reported as nil\n%s", ctx)
		}
		passed := time.Since(last)
		if end == "silence" && passed < timeout*98/100 {
			c.Fail("silence was reported after %v\n%s", passed, ctx)
		}
		if end == "silence" && passed > timeout+timeout/10+10*time.Millisecond {
			c.Fail("silence was reported after %v only\n%s", passed, ctx)
		}
		if end != "silence" && passed > 0 {
			c.Fail("the end was reported %v late\n%s", passed, ctx)
		}
		settle()
		select {
		case <-ended:
		default:
			c.Fail("the loop goes on after the end\n%s", ctx)
		}
		select {
		case e := <-rl.ReadError():
			c.Fail("second error %v\n%s", e, ctx)
		default:
		}
	})
	if len(steps) > 1 {
		c.NonTrivial(ctx)
		c.Sample("%s", ctx)
	}
}
