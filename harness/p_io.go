package main

import (
	"bytes"
	"errors"
	"fmt"
	stdio "io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"gotor/io"
)

func init() {
	register(&Prop{
		ID: "P27",
		Rule: "Limits, writers, readers, message sizes and ticks are generated. Without the ticking goroutine the bytes let through are exact; with it they are bounded by the seconds passed; every message is looked for at its destination; " +
			"non-trivial: a limit below what is sent, so that somebody is held back (distinct by scenario). Also streams that are slow or stuck, on a clock of their own. And more bytes than 32 bits count, before a limit and up to it.",
		Subs: []Sub{
			{"one", 2400, 24000, p27One},
			{"many", 800, 8000, p27Many},
			{"ticks", 24, 160, p27Ticks},
			{"clock", 800, 8000, p27Clock},
			{"giga", 80, 800, p27Giga},
		},
	})
	register(&Prop{
		ID: "P28",
		Rule: "Streams cut into generated segments and ended in generated ways, consumed at generated speed, over scripted connections and TCP; or finished at a generated moment; " +
			"non-trivial: at least two chunks, or a finish while the loop waits for data or for the consumer (distinct by script). And more chunks than sixteen bits count.",
		Subs: []Sub{
			{"stream", 12000, 120000, p28Stream},
			{"finish", 8000, 80000, p28Finish},
			{"tcp", 1200, 12000, p28TCP},
			{"timeout", 16, 80, p28Timeout},
			{"clock", 8000, 80000, p28Clock},
			{"long", 24, 240, p28Long},
		},
	})
}

// patience is how long something may take that should happen at once.
const patience = 10 * time.Second

// ============================================================================
// P27 ========================================================================

// sink keeps what was written to it, each write as a whole.
type sink struct {
	mu    sync.Mutex
	got   [][]byte
	total int64
	err   error
	some  int  // Bytes it still takes before it fails with err
	once  bool // It only fails once
}

func (s *sink) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		n := min(s.some, len(b))
		s.some -= n
		if n < len(b) {
			e := s.err
			if s.once {
				s.err, s.once = nil, false
			}
			return n, e
		}
		return n, nil // not kept
	}
	s.got = append(s.got, append([]byte(nil), b...))
	s.total += int64(len(b))
	return len(b), nil
}

func (s *sink) all() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return bytes.Join(s.got, nil)
}

// stream is a sink that takes its time.
type stream struct {
	*sink
	slow  time.Duration
	stuck chan bool // Nothing goes on until this is closed
}

func (s *stream) Write(b []byte) (int, error) {
	if s.stuck != nil {
		<-s.stuck
	}
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	return s.sink.Write(b)
}

// source gives its data, each read in full.
type source struct {
	mu    sync.Mutex
	data  []byte
	pos   int
	err   error
	slow  time.Duration
	stuck chan bool
}

func (s *source) Read(b []byte) (int, error) {
	if s.stuck != nil {
		<-s.stuck
	}
	if s.slow > 0 {
		time.Sleep(s.slow)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return 0, s.err
	}
	n := copy(b, s.data[s.pos:])
	s.pos += n
	return n, nil
}

// limited is one direction of a RateLimitIO.
type limited struct {
	write bool
	rl    *io.RateLimitIO
	snk   *sink
	src   *source
	sent  []byte
	got   []byte
}

func (l *limited) name() string {
	if l.write {
		return "write"
	}
	return "read"
}

func (l *limited) rate(r int64) {
	if l.write {
		l.rl.SetWriteRate(r)
	} else {
		l.rl.SetReadRate(r)
	}
}

// do lets n bytes through, in its own goroutine.
func (l *limited) do(data []byte, fail error) chan error {
	done := make(chan error, 1)
	go func() {
		if l.write {
			keep := append([]byte(nil), data...)
			e := l.rl.Write(l.snk, data)
			if !bytes.Equal(keep, data) {
				e = errors.New("HARNESS: the data of the caller was changed")
			}
			done <- e
		} else {
			buf := make([]byte, len(data))
			e := l.rl.Read(l.src, buf)
			if e == nil && !bytes.Equal(buf, data) {
				e = fmt.Errorf("HARNESS: read %s instead of %s", quote(buf), quote(data))
			}
			done <- e
		}
	}()
	return done
}

// p27One sends one message after the other. Nothing ticks, so it is known exactly
// which one is held back.
func p27One(c *C) {
	rl := io.NewRateLimitIO()
	dirs := []*limited{
		{write: true, rl: rl, snk: &sink{}},
		{write: false, rl: rl, src: &source{}},
	}
	type state struct {
		rate          int64
		limited, free int64 // bytes let through with and without a limit
		wait          chan error
		waitData      []byte
	}
	st := []*state{{rate: -1}, {rate: -1}}
	var hist []string
	heldBack := false
	failing := errors.New("stream is broken")

	for k := c.intn(1, 14, "ops"); k > 0; k-- {
		d := c.intn(0, 1, "direction")
		l, s := dirs[d], st[d]
		if s.wait != nil {
			// Held back: only a change of the limit can help, as nothing ticks
			switch {
			case c.chance(3, "lift"):
				hist = append(hist, fmt.Sprintf("%s: no limit, while held back", l.name()))
				l.rate(-1)
				s.rate = -1
				select {
				case e := <-s.wait:
					if e != nil {
						c.Fail("%v after %v", e, hist)
					}
				case <-time.After(patience):
					c.FailTiming("still held back after the limit was lifted\n%v", hist)
				}
				s.wait = nil
				s.free += int64(len(s.waitData))
			default:
				select {
				case e := <-s.wait:
					c.Fail("a %s of %d bytes was let through (%v) without a tick, after %d bytes with limit %d\n%v", l.name(), len(s.waitData), e, s.limited, s.rate, hist)
				default:
				}
			}
			continue
		}
		if c.chance(4, "set") {
			// The same limit may be set again. As nothing ticks, what was let
			// through with any limit counts.
			s.rate = pick(c, "rate", -1, s.rate, s.rate, 0, 1, 5, 100, 1000, 20000, int64(c.intn(-3, 3000, "any rate")))
			l.rate(s.rate)
			if s.rate < 0 {
				s.rate = -1
			}
			hist = append(hist, fmt.Sprintf("%s: limit %d", l.name(), s.rate))
		}
		n := c.intn(1, pick(c, "size", 1, 10, 300, 5000), "n")
		if c.chance(20, "large") {
			n = 1<<uint(c.intn(12, 18, "exp")) + c.intn(-2, 5000, "off")
		}
		data := content(uint64(k*7+n), int64(n))
		hist = append(hist, fmt.Sprintf("%s %d", l.name(), n))

		if c.chance(8, "broken") && (s.rate < 0 || s.limited+s.free < s.rate) {
			if c.chance(3, "large") {
				data = content(uint64(k), int64(c.intn(1, 100000, "n")))
			}
			kept := 0
			if l.write {
				kept = len(l.snk.got)
				l.snk.err, l.snk.some = failing, 0
				if c.bool("late") {
					l.snk.some = c.intn(0, len(data)-1, "some")
				}
				l.snk.once = c.bool("once")
				hist[len(hist)-1] += fmt.Sprintf(" broken after %d of %d", l.snk.some, len(data))
			} else {
				l.src.err = failing
			}
			select {
			case e := <-l.do(data, failing):
				if !errors.Is(e, failing) {
					c.Fail("the %s error was not reported, but %v\n%v", l.name(), e, hist)
				}
			case <-time.After(patience):
				c.FailTiming("a %s is held back after %d bytes (limit %d)\n%v", l.name(), s.limited+s.free, s.rate, hist)
			}
			if l.write {
				l.snk.err, l.snk.once = nil, false
				l.snk.got = l.snk.got[:kept]
			} else {
				l.src.err = nil
			}
			s.free += int64(len(data)) // May count or not
			continue
		}

		if !l.write {
			l.src.data = append(l.src.data, data...)
		}
		done := l.do(data, nil)
		mustPass := s.rate < 0 || s.limited+s.free < s.rate
		mustWait := s.rate >= 0 && s.limited >= s.rate
		if mustWait {
			heldBack = true
			select {
			case e := <-done:
				c.Fail("a %s of %d bytes was let through (%v) without a tick, after %d bytes with limit %d\n%v", l.name(), n, e, s.limited, s.rate, hist)
			case <-time.After(time.Duration(c.intn(0, 4, "ms")) * time.Millisecond):
			}
			s.wait, s.waitData = done, data
			l.sent = append(l.sent, data...)
			continue
		}
		limit := patience
		if !mustPass {
			limit = 20 * time.Millisecond
		}
		l.sent = append(l.sent, data...)
		select {
		case e := <-done:
			if e != nil {
				c.Fail("%v after %v", e, hist)
			}
			if s.rate < 0 {
				s.free += int64(n)
			} else {
				s.limited += int64(n)
			}
		case <-time.After(limit):
			if mustPass {
				c.FailTiming("a %s of %d bytes is held back after %d bytes (limit %d)\n%v", l.name(), n, s.limited+s.free, s.rate, hist)
			}
			s.wait, s.waitData = done, data
		}
	}
	// Whoever is held back goes on without a limit
	for d, l := range dirs {
		l.rate(-1)
		if w := st[d].wait; w != nil {
			select {
			case e := <-w:
				if e != nil {
					c.Fail("%v after %v", e, hist)
				}
			case <-time.After(patience):
				c.FailTiming("still held back after the limit was lifted\n%v", hist)
			}
		}
	}
	if got := dirs[0].snk.all(); !bytes.Equal(got, dirs[0].sent) {
		c.Fail("written: %s\nsent: %s\n%v", quote(got), quote(dirs[0].sent), hist)
	}
	if dirs[1].src.pos != len(dirs[1].src.data) {
		c.Fail("%d bytes read of %d\n%v", dirs[1].src.pos, len(dirs[1].src.data), hist)
	}
	if heldBack {
		c.NonTrivial(hist)
		c.Sample("%v", hist)
	}
	c.Label("held back %v", heldBack)
}

// endless takes anything, and gives as much.
type endless struct{ n int64 }

func (s *endless) Write(b []byte) (int, error) { s.n += int64(len(b)); return len(b), nil }
func (s *endless) Read(b []byte) (int, error)  { s.n += int64(len(b)); return len(b), nil }

var gigaBuf []byte

// p27Giga lets more bytes through than 32 bits count, before a limit or up to one.
// As in p27One, nothing ticks.
func p27Giga(c *C) {
	if gigaBuf == nil {
		gigaBuf = make([]byte, 64<<20)
	}
	rl := io.NewRateLimitIO()
	write := c.bool("write")
	var s endless
	rate := int64(-1)
	set := func(r int64) {
		rate = r
		if write {
			rl.SetWriteRate(r)
		} else {
			rl.SetReadRate(r)
		}
	}
	do := func(n int64) chan error {
		done := make(chan error, 1)
		go func() {
			if write {
				done <- rl.Write(&s, gigaBuf[:n])
			} else {
				done <- rl.Read(&s, gigaBuf[:n])
			}
		}()
		return done
	}
	var free, limited int64
	hist := []string{fmt.Sprintf("write %v", write)}
	near := func(label string) int64 {
		return pick(c, label, int64(1)<<31, 1<<32, 1<<30, 3<<30, 1<<33, 1<<16, 1<<24, 5<<30) + int64(c.intn(-2, 2, "off"))
	}
	pass := func(total int64) {
		hist = append(hist, fmt.Sprintf("%d bytes with limit %d", total, rate))
		step := pick(c, "step", int64(64<<20), 64<<20-1, 40000000)
		if total < 1<<26 {
			step = max(1, total/50)
		}
		for left := total; left > 0; {
			n := min(step, left)
			left -= n
			before := s.n
			select {
			case e := <-do(n):
				if e != nil {
					c.Fail("%v\n%v", e, hist)
				}
			case <-time.After(patience):
				set(-1)
				c.FailTiming("held back after %d bytes without a limit and %d with one\n%v", free, limited, hist)
			}
			if s.n != before+n {
				c.Fail("%d bytes instead of %d\n%v", s.n-before, n, hist)
			}
			if rate < 0 {
				free += n
			} else {
				limited += n
			}
		}
	}
	if c.bool("free") {
		pass(near("free"))
	}
	// Up to the limit and not beyond it
	for k := c.intn(1, 3, "limits"); k > 0; k-- {
		set(max(limited+1, near("limit")))
		if room := rate - limited - free; room > 0 {
			pass(room)
		}
		if limited < rate {
			set(limited) // What was let through without a limit may count or not
			hist = append(hist, fmt.Sprintf("limit %d", rate))
		}
		done := do(1)
		select {
		case e := <-done:
			c.Fail("a byte was let through (%v), after %d bytes with limit %d\n%v", e, limited, rate, hist)
		case <-time.After(time.Duration(c.intn(1, 5, "ms")) * time.Millisecond):
		}
		set(-1)
		select {
		case e := <-done:
			if e != nil {
				c.Fail("%v\n%v", e, hist)
			}
		case <-time.After(patience):
			c.FailTiming("still held back after the limit was lifted\n%v", hist)
		}
		free++
	}
	c.NonTrivial(hist)
	c.Sample("%v", hist)
	c.Label("giga, %d GiB", (free+limited)>>30)
}

// crowd is many writers (or readers) that share a limit.
type crowdSpec struct {
	write bool
	rate  int64
	msgs  [][]int // sizes, per goroutine
	total int64
	most  int64
	slow  time.Duration // What the stream of each takes
	stuck bool          // The first message of the first gets stuck in its stream
}

func (c *C) crowdSpec(small bool) *crowdSpec {
	s := &crowdSpec{write: c.chance(3, "read") == false}
	n := c.intn(1, 8, "goroutines")
	for i := 0; i < n; i++ {
		var sizes []int
		for k := c.intn(1, 10, "messages"); k > 0; k-- {
			z := c.intn(1, pick(c, "size", 1, 20, 20, 300, 2000), "n")
			if c.chance(40, "large") {
				z = 1<<uint(c.intn(12, 18, "exp")) + c.intn(-2, 5000, "off")
			}
			sizes = append(sizes, z)
			s.total += int64(z)
			s.most = max(s.most, int64(z))
		}
		s.msgs = append(s.msgs, sizes)
	}
	s.slow = time.Duration(pick(c, "slow", 0, 0, 100, c.intn(0, 2000, "us"))) * time.Microsecond
	s.stuck = n > 1 && c.chance(3, "stuck")
	if small {
		// All is done after few ticks
		s.rate = max(1, s.total/int64(c.intn(1, 3, "ticks"))-int64(c.intn(0, 3, "less")))
	} else {
		s.rate = int64(c.intn(1, int(s.total+s.total/4+1), "rate"))
	}
	return s
}

type crowdRun struct {
	spec    *crowdSpec
	rl      *io.RateLimitIO
	snk     *sink
	passed  atomic.Int64 // bytes
	pending atomic.Int64 // messages
	end     sync.WaitGroup
	mu      sync.Mutex
	err     string
	want    map[string]int
	release chan bool
}

// others tells how many messages have to go through while one is stuck.
func (r *crowdRun) others() bool {
	if r.spec.stuck {
		return r.pending.Load() > int64(len(r.spec.msgs[0]))
	}
	return r.pending.Load() > 0
}

// start lets everybody go.
func (s *crowdSpec) start(rl *io.RateLimitIO, seed int) *crowdRun {
	r := &crowdRun{spec: s, rl: rl, snk: &sink{}, want: map[string]int{}, release: make(chan bool)}
	if s.write {
		rl.SetWriteRate(s.rate)
	} else {
		rl.SetReadRate(s.rate)
	}
	for g, sizes := range s.msgs {
		r.pending.Add(int64(len(sizes)))
		for k, n := range sizes {
			r.want[string(content(uint64(seed*10000+g*100+k), int64(n)))]++
		}
	}
	for g, sizes := range s.msgs {
		r.end.Add(1)
		go func() {
			defer r.end.Done()
			for k, n := range sizes {
				data := content(uint64(seed*10000+g*100+k), int64(n))
				var stuck chan bool
				if s.stuck && g == 0 && k == 0 {
					stuck = r.release
				}
				var e error
				if s.write {
					e = rl.Write(&stream{r.snk, s.slow, stuck}, data)
				} else {
					buf := make([]byte, n)
					e = rl.Read(&source{data: data, slow: s.slow, stuck: stuck}, buf)
					_, _ = r.snk.Write(buf)
				}
				if e != nil {
					r.mu.Lock()
					r.err = fmt.Sprintf("error %v where there is none", e)
					r.mu.Unlock()
				}
				r.passed.Add(int64(n))
				r.pending.Add(-1)
			}
		}()
	}
	return r
}

func (r *crowdRun) through() int64 {
	r.snk.mu.Lock()
	defer r.snk.mu.Unlock()
	return r.snk.total
}

// wait waits until all are done.
func (r *crowdRun) wait(d time.Duration) bool {
	ch := make(chan bool)
	go func() { r.end.Wait(); close(ch) }()
	select {
	case <-ch:
		return true
	case <-time.After(d):
		return false
	}
}

// delivered tells what is wrong with what arrived, or "".
func (r *crowdRun) delivered() string {
	if r.err != "" {
		return r.err
	}
	r.snk.mu.Lock()
	defer r.snk.mu.Unlock()
	got := map[string]int{}
	for _, b := range r.snk.got {
		got[string(b)]++
	}
	for k, n := range r.want {
		if got[k] != n {
			return fmt.Sprintf("message %s arrived %d times instead of %d", quote([]byte(k)), got[k], n)
		}
	}
	if len(got) != len(r.want) {
		return fmt.Sprintf("%d different messages arrived instead of %d", len(got), len(r.want))
	}
	return ""
}

// p27Many has several goroutines at work while nothing ticks.
func p27Many(c *C) {
	s := c.crowdSpec(false)
	rl := io.NewRateLimitIO()
	r := s.start(rl, 1)
	// In the end all is through, or the limit is reached and everybody waits
	deadline := time.Now().Add(patience)
	inside := int64(0) // What may have passed the limit, but is stuck
	if s.stuck {
		inside = int64(s.msgs[0][0])
	}
	for r.others() && r.through()+inside < s.rate {
		if time.Now().After(deadline) {
			c.FailTiming("%d bytes of %d are through with limit %d, the others are held back\n%+v", r.through(), s.total, s.rate, s)
		}
		time.Sleep(50 * time.Microsecond)
	}
	time.Sleep(time.Duration(c.intn(0, 3, "ms")) * time.Millisecond)
	if n := r.through(); n >= s.rate+s.most {
		c.Fail("%d bytes are through without a tick, with limit %d and messages of at most %d\n%+v", n, s.rate, s.most, s)
	}
	if s.write {
		rl.SetWriteRate(-1)
	} else {
		rl.SetReadRate(-1)
	}
	for deadline = time.Now().Add(patience); r.others(); time.Sleep(50 * time.Microsecond) {
		if time.Now().After(deadline) {
			c.FailTiming("%d messages are held back without a limit, %d of them by one that is stuck\n%+v", r.pending.Load(), len(s.msgs[0]), s)
		}
	}
	close(r.release)
	if !r.wait(patience) {
		c.FailTiming("%d messages are still held back without a limit\n%+v", r.pending.Load(), s)
	}
	if d := r.delivered(); d != "" {
		c.Fail("%s\n%+v", d, s)
	}
	if s.rate < s.total {
		c.NonTrivial(*s)
		c.Sample("%+v", *s)
	}
	c.Label("limit is reached %v", s.rate <= s.total)
}

// p27Ticks runs many limiters at once, each with its ticks.
func p27Ticks(c *C) {
	n := c.intn(4, 40, "limiters")
	var specs []*crowdSpec
	var runs []*crowdRun
	var begin []time.Time
	var ended []chan bool
	for i := 0; i < n; i++ {
		s := c.crowdSpec(true)
		if c.chance(6, "huge message") {
			// A message far beyond the limit costs one tick, not many
			s.rate = 1
			s.msgs = [][]int{{5000, 1}, {1}}
			s.total, s.most = 5002, 5000
		}
		specs = append(specs, s)
	}
	for i, s := range specs {
		begin = append(begin, time.Now())
		rl := io.NewRateLimitIO()
		done := make(chan bool)
		go func() {
			rl.Run()
			close(done)
		}()
		ended = append(ended, done)
		runs = append(runs, s.start(rl, i))
	}
	// Samples of what is through, against the time that has passed
	stop := time.Now().Add(5*time.Second + patience)
	left := true
	check := func() {
		left = false
		for i, r := range runs {
			got := r.through()
			t := time.Since(begin[i])
			// The limiter starts anew when it is started and with every tick
			most := (int64(t/time.Second) + 2) * (specs[i].rate + specs[i].most - 1)
			if got > most {
				c.Fail("%d bytes are through after %v, limit %d, messages of at most %d\n%+v", got, t, specs[i].rate, specs[i].most, specs[i])
			}
			left = left || r.others()
		}
	}
	for left && time.Now().Before(stop) {
		check()
		time.Sleep(10 * time.Millisecond)
	}
	if left {
		for i, r := range runs {
			if r.others() {
				c.FailTiming("%d messages are held back for %v, %d bytes are through, limit %d\n%+v", r.pending.Load(), time.Since(begin[i]), r.through(), specs[i].rate, specs[i])
			}
		}
	}
	for i, r := range runs {
		close(r.release)
		if !r.wait(patience) {
			c.FailTiming("writers do not end\n%+v", specs[i])
		}
		if d := r.delivered(); d != "" {
			c.Fail("%s\n%+v", d, specs[i])
		}
		go r.rl.Stop()
	}
	for i := range runs {
		select {
		case <-ended[i]:
		case <-time.After(patience):
			c.FailTiming("Run goes on after Stop")
		}
	}
	c.NonTrivial(specs)
	for _, s := range specs {
		c.NonTrivial(*s)
	}
	c.Sample("%d limiters, the first: %+v", n, *specs[0])
}

// ============================================================================
// P28 ========================================================================

func (c *C) segments(total int, label string) []int {
	var out []int
	most := pick(c, label+" size", 1, 3, 20, 500, 40000)
	for total > 0 && len(out) < 60 {
		n := c.intn(1, most, label)
		out = append(out, n)
		total -= n
	}
	return out
}

func p28Stream(c *C) {
	bufSize := int64(pick(c, "buffer", 1, 2, 7, 64, 1000, 16384))
	total := c.intn(0, pick(c, "total", 10, 200, int(min(bufSize*4, 40000))), "n")
	data := content(c.seed("content"), int64(total))
	early := c.intn(0, total, "early") // This much is there from the start
	if c.bool("all early") {
		early = total
	}
	conn := newMemConn(c.index)
	defer conn.stop()
	segs := c.segments(early, "segment")
	conn.push(data[:early], segs...)
	end, withLast := error(stdio.EOF), c.bool("error with data")
	if c.bool("reset") {
		end = errReset
	}
	if early == total {
		conn.finish(end, withLast)
	}
	rl := io.NewReadLoop(bufSize, conn, time.Hour)
	ended := make(chan bool)
	go func() {
		rl.Run()
		close(ended)
	}()
	script := fmt.Sprintf("buffer %d, %d bytes, %d early in %v, end %v with data %v", bufSize, total, early, segs, end, withLast)

	pos, chunks := 0, 0
	var err error
	for err == nil {
		select {
		case chunk := <-rl.ReadData():
			chunks++
			keep := append([]byte(nil), chunk...)
			if pos+len(chunk) > total || !bytes.Equal(chunk, data[pos:pos+len(chunk)]) {
				c.Fail("chunk %s at %d is not what arrived\n%s", quote(chunk), pos, script)
			}
			if int64(len(chunk)) > bufSize {
				c.Fail("chunk of %d bytes with a buffer of %d", len(chunk), bufSize)
			}
			pos += len(chunk)
			// More arrives while the chunk is in use
			if early < total && c.bool("push") {
				n := c.intn(1, total-early, "n")
				conn.push(data[early:early+n], c.intn(0, n, "cut"))
				early += n
				if early == total {
					conn.finish(end, withLast)
				}
			}
			if c.chance(6, "slow") {
				time.Sleep(time.Duration(c.intn(0, 500, "us")) * time.Microsecond)
			}
			if !bytes.Equal(chunk, keep) {
				c.Fail("a chunk changed before Ready was called\n%s", script)
			}
			rl.Ready()
		case err = <-rl.ReadError():
			if err == nil {
				c.Fail("nil was reported as an error\n%s", script)
			}
		case <-time.After(20 * time.Millisecond):
			if early < total {
				conn.push(data[early:])
				early = total
				conn.finish(end, withLast)
				continue
			}
			select {
			case err = <-rl.ReadError():
			case chunk := <-rl.ReadData():
				if pos+len(chunk) > total || !bytes.Equal(chunk, data[pos:pos+len(chunk)]) {
					c.Fail("chunk %s at %d is not what arrived\n%s", quote(chunk), pos, script)
				}
				pos += len(chunk)
				chunks++
				rl.Ready()
			case <-time.After(patience):
				c.FailTiming("neither data nor an error after %d of %d bytes\n%s", pos, total, script)
			}
		}
	}
	if pos != total || early != total {
		c.Fail("error %v after %d of %d bytes\n%s", err, pos, total, script)
	}
	if err != end && !errors.Is(err, end) {
		c.Fail("error %v instead of %v\n%s", err, end, script)
	}
	// It ends by itself or when it is told to
	fin := make(chan bool)
	go func() {
		rl.Finish()
		close(fin)
	}()
	for _, ch := range []chan bool{fin, ended} {
		select {
		case <-ch:
		case <-time.After(patience):
			c.FailTiming("the loop does not end after the error\n%s", script)
		}
	}
	select {
	case chunk := <-rl.ReadData():
		c.Fail("chunk %s after the error\n%s", quote(chunk), script)
	case e := <-rl.ReadError():
		c.Fail("second error %v\n%s", e, script)
	default:
	}
	if chunks >= 2 {
		c.NonTrivial(script)
		c.Sample("%s, chunks %d", script, chunks)
	}
}

// p28Long has more chunks than sixteen bits count.
func p28Long(c *C) {
	bufSize := int64(c.intn(1, 3, "buffer"))
	chunks := 1<<uint(15+c.index%3) + c.intn(-2, 2000, "chunks")
	total := chunks * int(bufSize)
	if c.bool("part") {
		total--
	}
	data := content(c.seed("content"), int64(total))
	conn := newMemConn(c.index)
	defer conn.stop()
	conn.push(data)
	if c.bool("end there") {
		conn.finish(stdio.EOF, c.bool("with last"))
	}
	rl := io.NewReadLoop(bufSize, conn, time.Hour)
	go rl.Run()
	defer rl.Finish()
	script := fmt.Sprintf("buffer %d, %d bytes", bufSize, total)
	for pos := 0; pos < total; {
		select {
		case chunk := <-rl.ReadData():
			if pos+len(chunk) > total || !bytes.Equal(chunk, data[pos:pos+len(chunk)]) || int64(len(chunk)) > bufSize {
				c.Fail("chunk %s at %d is not what arrived\n%s", quote(chunk), pos, script)
			}
			pos += len(chunk)
			rl.Ready()
		case e := <-rl.ReadError():
			select {
			case chunk := <-rl.ReadData(): // The last one, with the error
				if pos+len(chunk) == total {
					pos = total
					rl.Ready()
					continue
				}
			default:
			}
			c.Fail("error %v after %d of %d bytes\n%s", e, pos, total, script)
		case <-time.After(patience):
			c.FailTiming("neither data nor an error after %d of %d bytes\n%s", pos, total, script)
		}
	}
	conn.finish(stdio.EOF, false)
	c.NonTrivial("long", bufSize, total)
	c.Label("long, %d and more chunks", chunks>>15<<15)
}

// p28Finish stops the loop at some moment.
func p28Finish(c *C) {
	bufSize := int64(pick(c, "buffer", 1, 5, 64))
	total := c.intn(0, 100, "n")
	data := content(c.seed("content"), int64(total))
	conn := newMemConn(c.index)
	defer conn.stop()
	conn.push(data, c.segments(total, "segment")...)
	ends := c.chance(3, "ends")
	if ends {
		conn.finish(stdio.EOF, c.bool("error with data"))
	}
	take := c.intn(0, 6, "take") // Chunks that are consumed
	moment := pick(c, "moment", "before", "at once", "chunk in hand", "chunk not taken", "waiting")
	script := fmt.Sprintf("buffer %d, %d bytes, ends %v, take %d, finish %s", bufSize, total, ends, take, moment)

	rl := io.NewReadLoop(bufSize, conn, time.Hour)
	ended := make(chan bool)
	run := func() {
		rl.Run()
		close(ended)
	}
	pos := 0
	use := func(chunk []byte) {
		if pos+len(chunk) > total || !bytes.Equal(chunk, data[pos:pos+len(chunk)]) {
			c.Fail("chunk %s at %d is not what arrived\n%s", quote(chunk), pos, script)
		}
		pos += len(chunk)
	}
	if moment != "before" {
		go run()
		got := 0
		errored := false
		for !errored && pos < total && (got < take || moment == "waiting") {
			select {
			case chunk := <-rl.ReadData():
				use(chunk)
				got++
				if moment == "chunk in hand" && got == take {
					break
				}
				rl.Ready()
			case e := <-rl.ReadError():
				errored = true
				if !ends || pos != total {
					c.Fail("error %v after %d of %d bytes\n%s", e, pos, total, script)
				}
			case <-time.After(patience):
				c.FailTiming("no data\n%s", script)
			}
		}
		switch {
		case moment == "waiting" && !ends:
			if !conn.wait(patience, func() bool { return conn.reading > 0 }) {
				c.FailTiming("the loop does not read\n%s", script)
			}
		case moment == "chunk not taken":
			time.Sleep(time.Duration(c.intn(0, 300, "us")) * time.Microsecond)
		}
	}
	fin := make(chan bool)
	go func() {
		rl.Finish()
		close(fin)
	}()
	select {
	case <-fin:
	case <-time.After(patience):
		c.FailTiming("Finish does not return\n%s", script)
	}
	if moment == "before" {
		go run()
	}
	select {
	case <-ended:
	case <-time.After(patience):
		c.FailTiming("the loop goes on after Finish\n%s", script)
	}
	// What was not taken yet is still what arrived
	select {
	case chunk := <-rl.ReadData():
		use(chunk)
	default:
	}
	if moment == "waiting" && !ends || moment == "chunk in hand" && take > 0 && total > 0 || moment == "chunk not taken" && total > 0 {
		c.NonTrivial(script)
		c.Sample("%s", script)
	}
	c.Label("finish %s", moment)
}

// p28TCP reads from a real connection.
func p28TCP(c *C) {
	bufSize := int64(pick(c, "buffer", 1, 7, 100, 4096, 16384))
	total := c.intn(0, int(min(60000, bufSize*200)), "n")
	data := content(c.seed("content"), int64(total))
	ln, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		harnessError("%v", e)
	}
	defer ln.Close()
	peer, e := net.Dial("tcp", ln.Addr().String())
	if e != nil {
		harnessError("%v", e)
	}
	defer peer.Close()
	conn, e := ln.Accept()
	if e != nil {
		harnessError("%v", e)
	}
	defer conn.Close()
	segs := c.segments(total, "segment")
	how := pick(c, "end", "close", "finish", "finish early")
	script := fmt.Sprintf("buffer %d, %d bytes in %v, %s", bufSize, total, segs, how)
	go func() {
		rest := data
		for _, n := range segs {
			n = min(n, len(rest))
			_, _ = peer.Write(rest[:n])
			rest = rest[n:]
		}
		_, _ = peer.Write(rest)
		if how == "close" {
			_ = peer.Close()
		}
	}()
	rl := io.NewReadLoop(bufSize, conn, time.Hour)
	ended := make(chan bool)
	go func() {
		rl.Run()
		close(ended)
	}()
	pos, chunks := 0, 0
	until := total
	if how == "finish early" {
		until = c.intn(0, total, "until")
	}
	var err error
	for err == nil && (pos < until || how == "close") {
		select {
		case chunk := <-rl.ReadData():
			if pos+len(chunk) > total || !bytes.Equal(chunk, data[pos:pos+len(chunk)]) {
				c.Fail("chunk %s at %d is not what arrived\n%s", quote(chunk), pos, script)
			}
			pos += len(chunk)
			chunks++
			rl.Ready()
		case err = <-rl.ReadError():
		case <-time.After(patience):
			c.FailTiming("no data after %d of %d bytes\n%s", pos, total, script)
		}
	}
	if how == "close" && (pos != total || !errors.Is(err, stdio.EOF)) {
		c.Fail("%d of %d bytes, then %v\n%s", pos, total, err, script)
	}
	if how != "close" && err != nil {
		c.Fail("error %v after %d of %d bytes\n%s", err, pos, total, script)
	}
	fin := make(chan bool)
	go func() {
		rl.Finish()
		close(fin)
	}()
	for _, ch := range []chan bool{fin, ended} {
		select {
		case <-ch:
		case <-time.After(patience):
			c.FailTiming("the loop does not end\n%s", script)
		}
	}
	if chunks >= 2 || how == "finish early" {
		c.NonTrivial(script)
		c.Sample("%s, chunks %d", script, chunks)
	}
}

// p28Timeout lets connections fall silent, many at once.
func p28Timeout(c *C) {
	n := c.intn(5, 40, "connections")
	type one struct {
		conn     *memConn
		rl       *io.ReadLoop
		data     []byte
		ended    chan bool
		lateWant time.Duration
		start    time.Time
	}
	var all []*one
	for i := 0; i < n; i++ {
		o := &one{conn: newMemConn(i), data: content(uint64(i), int64(c.intn(0, 30, "n"))), ended: make(chan bool)}
		o.conn.push(o.data, 3, 5)
		o.lateWant = time.Duration(c.intn(200, 600, "ms")) * time.Millisecond
		o.rl = io.NewReadLoop(8, o.conn, o.lateWant)
		o.start = time.Now()
		all = append(all, o)
		go func() {
			o.rl.Run()
			close(o.ended)
		}()
	}
	for _, o := range all {
		var got []byte
		var err error
		for err == nil {
			select {
			case chunk := <-o.rl.ReadData():
				got = append(got, chunk...)
				o.rl.Ready()
			case err = <-o.rl.ReadError():
			case <-time.After(patience):
				c.FailTiming("a silent connection is not reported after %v, timeout %v", time.Since(o.start), o.lateWant)
			}
		}
		if !bytes.Equal(got, o.data) {
			c.FailTiming("got %s of %s before %v", quote(got), quote(o.data), err)
		}
		if t := time.Since(o.start); t < o.lateWant {
			c.Fail("timeout %v reported after %v: %v", o.lateWant, t, err)
		}
		select {
		case <-o.ended:
		case <-time.After(patience):
			c.FailTiming("the loop goes on after the timeout")
		}
		select {
		case e := <-o.rl.ReadError():
			c.Fail("second error %v", e)
		default:
		}
		o.conn.stop()
	}
	c.NonTrivial(n, c.index)
	c.Sample("%d silent connections", n)
}
