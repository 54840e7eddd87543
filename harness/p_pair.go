package main

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register(&Prop{
		ID: "P39",
		Rule: "Two to four clients of the same generated torrent, each with pieces of its own, are started; the tracker tells one of them of the others, in generated order and answers, and everything they say to each other is recorded on its way, which cuts it up, delays it or ends; " +
			"non-trivial: a client that has a piece the other one needs (distinct by torrent and pieces).",
		Init: startTracker,
		Subs: []Sub{
			{"pair", 600, 6000, p39Pair},
			{"circle", 300, 3000, p39Circle},
		},
	})
}

// link is the way between two clients.
type link struct {
	ln       *net.TCPListener
	to       *program
	cuts     []int
	delay    time.Duration
	from     *leech   // What the client says that dials
	back     *session // What the other one says
	mu       sync.Mutex
	conns    int
	up, cut  bool
	finished sync.WaitGroup
}

// newLink is a way to a client, which may be one that is yet to be started.
func (c *C) newLink() *link {
	l := &link{ln: newListener(), from: &leech{session: &session{}}, back: &session{}}
	for k := c.intn(0, 3, "link cuts"); k > 0; k-- {
		l.cuts = append(l.cuts, pick(c, "link cut", 1, 3, 4, 5, 67, 68, 69, 100, 16384, c.intn(1, 20000, "any link cut")))
	}
	if c.chance(4, "slow link") {
		l.delay = time.Duration(c.intn(1, 30, "link ms")) * time.Millisecond
	}
	return l
}

// run passes on what the first client that dials and the other one say. Others are
// sent away.
func (l *link) run() {
	for {
		conn, e := l.ln.Accept()
		if e != nil {
			return
		}
		l.mu.Lock()
		l.conns++
		first := l.conns == 1
		l.mu.Unlock()
		if !first {
			_ = conn.Close()
			continue
		}
		other, e := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", l.to.port))
		if e != nil {
			_ = conn.Close()
			continue
		}
		l.mu.Lock()
		l.from.tcp, l.back.tcp, l.up = conn, other, true
		l.mu.Unlock()
		l.finished.Add(2)
		go l.pass(l.from.session, l.back)
		go l.pass(l.back, l.from.session)
	}
}

func (l *link) pass(from, to *session) {
	defer l.finished.Done()
	buf := make([]byte, 65536)
	k := 0
	for {
		n, e := from.tcp.Read(buf)
		from.tcpMu.Lock()
		from.out = append(from.out, buf[:n]...)
		from.gone = e != nil
		from.tcpMu.Unlock()
		if e != nil {
			_ = to.tcp.Close()
			return
		}
		data := buf[:n]
		time.Sleep(l.delay)
		for len(l.cuts) > 0 && k < 20 && len(data) > l.cuts[k%len(l.cuts)] {
			_, _ = to.tcp.Write(data[:l.cuts[k%len(l.cuts)]])
			data = data[l.cuts[k%len(l.cuts)]:]
			k++
			time.Sleep(200 * time.Microsecond)
		}
		_, _ = to.tcp.Write(data)
	}
}

func (l *link) isUp() bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.up
}

func (l *link) end() {
	_ = l.ln.Close()
	if l.isUp() {
		_ = l.from.tcp.Close()
		_ = l.back.tcp.Close()
		l.finished.Wait()
	}
}

// client starts another client, in a directory of its own.
func (c *C) client(dir string, t *tor, owned []bool, peers *bdict, label string) *program {
	port := freePort()
	if !c.chance(4, label+" is the program") {
		// Without the main loop of the program, which keeps a processor busy
		childPort = port
		defer func() { childPort = 0 }()
	}
	return c.startOn(port, dir, t, owned, peers)
}

// answered checks the answers to what was asked on the way.
func (l *link) answered() (msg string, complete bool) {
	got := l.back.answers()
	reqs := l.from.requests()
	if len(got) > len(reqs) {
		return fmt.Sprintf("%d requests got %d answers", len(reqs), len(got)), false
	}
	for i := range got {
		if want := l.to.answer(reqs[i]); !bytes.Equal(got[i].payload, want) {
			return fmt.Sprintf("the answer to %v is %v\ninstead of %s", reqs[i], got[i], quote(want)), false
		}
	}
	return "", len(got) == len(reqs)
}

func (p *program) sameFiles(ctx string) {
	off := int64(0)
	for i, f := range p.t.files {
		b, e := os.ReadFile(filepath.Join(p.dir, "wd", p.t.path(i)))
		if e != nil || !bytes.Equal(b, p.disk[off:off+f.length]) {
			p.c.Fail("file %d is %s (%v) instead of %s\n%s", i, quote(b), e, quote(p.disk[off:off+f.length]), ctx)
		}
		off += f.length
	}
}

// exchange waits until the client that dialled has asked for what it can, and got
// it.
func (c *C) exchange(p *program, links []*link, ctx string) {
	var all []*leech
	for _, l := range links {
		l.from.session.w = p.world
		l.back.w = l.to.world
		l.from.have = l.to.owned
		l.from.said = true
		all = append(all, l.from)
	}
	end := time.Now().Add(patience)
	for {
		wait := idle(all)
		for k, l := range links {
			if l.cut {
				continue
			}
			if !l.isUp() {
				wait = fmt.Sprintf("client %d is not dialled", k)
				continue
			}
			msg, full := l.from.wantsBlocks()
			if msg != "" {
				p.alive(msg)
				c.Fail("of client %d: %s\n%s", k, msg, ctx)
			}
			if !full {
				wait = fmt.Sprintf("not all the blocks of a piece are asked of client %d", k)
			}
			if msg, full = l.answered(); msg != "" {
				c.Fail("client %d: %s\n%s", k, msg, ctx)
			}
			if !full {
				wait = fmt.Sprintf("client %d answered %d of %d requests", k, len(l.back.answers()), len(l.from.requests()))
			}
			for _, s := range []*session{l.from.session, l.back} {
				opening := s.checkOpening(s == l.back)
				if opening == "" {
					for _, r := range s.requests() {
						if s == l.back {
							c.Fail("client %d asks %v of a client that did not announce anything\n%s", k, r, ctx)
						}
					}
					msgs, _ := s.messages()
					told := false
					for _, m := range msgs {
						told = told || m.kind == 1
					}
					if !told {
						opening = "there is no unchoke"
					}
				}
				if opening != "" {
					wait = fmt.Sprintf("to and from client %d (%v): %s", k, s == l.back, opening)
				}
				if s.closed() {
					wait = fmt.Sprintf("the connection with client %d ended, %s", k, wait)
				}
			}
		}
		if msg := exclusive(all); msg != "" {
			c.Fail("%s\n%s", msg, ctx)
		}
		if wait == "" {
			return
		}
		if time.Now().After(end) {
			p.alive(wait + "\n" + ctx)
			for _, l := range links {
				l.to.alive(wait + "\n" + ctx)
			}
			c.FailTiming("%s after %v\n%s", wait, patience, ctx)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// needed tells whether one client has a piece that another one needs.
func needed(have, owned []bool) bool {
	for i := range have {
		if have[i] && !owned[i] {
			return true
		}
	}
	return false
}

// p39Pair has a client told of the others.
func p39Pair(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.blockTor()
	n := int(t.npieces())
	owned := c.lacking(t, 0)
	var links []*link
	var addrs []net.Addr
	var running []*program
	defer func() {
		for _, l := range links {
			l.end()
		}
		for _, p := range running {
			p.kill()
		}
	}()
	say := []string{fmt.Sprintf("%s\nthe client has %x of %d pieces", t, bitfieldOf(owned), n)}
	some := false
	for k := c.intn(1, 3, "others"); k > 0; k-- {
		have := c.haveSet(n, owned, "have")
		some = some || needed(have, owned)
		l := c.newLink()
		links = append(links, l)
		l.to = c.client(filepath.Join(dir, fmt.Sprint(k)), t, have, answer(60, nil), "other")
		running = append(running, l.to)
		addrs = append(addrs, l.ln.Addr())
		say = append(say, fmt.Sprintf("another one has %x; cuts %v, %v", bitfieldOf(have), l.cuts, l.delay))
		go l.run()
	}
	if c.chance(3, "nobody there") {
		a, release := closedAddr()
		defer release()
		i := c.intn(0, len(addrs), "nobody at")
		addrs = append(addrs[:i], append([]net.Addr{a}, addrs[i:]...)...)
	}
	peers := answer(60, compactPeers(addrs...))
	p := c.client(filepath.Join(dir, "client"), t, owned, peers, "client")
	running = append(running, p)
	ctx := strings.Join(say, "\n")
	c.exchange(p, links, ctx)
	if c.chance(3, "one goes") {
		l := links[c.intn(0, len(links)-1, "goes")]
		l.cut = true
		l.from.gone = true
		_ = l.back.tcp.Close()
		_ = l.from.tcp.Close()
		if c.bool("ends") {
			l.to.kill()
			for i := range running {
				if running[i] == l.to {
					running = append(running[:i], running[i+1:]...)
					break
				}
			}
		}
		c.exchange(p, links, ctx+"\nand one goes")
	}
	for _, p := range running {
		p.alive(ctx)
		p.visit(ctx)
		p.sameFiles(ctx)
	}
	if some {
		c.NonTrivial(t.hashes, ctx)
		total := 0
		for _, l := range links {
			total += len(l.from.requests())
		}
		c.Sample("%s\n%d blocks were asked for and sent", ctx, total)
		c.Label("blocks: %d", min(total, 20))
	}
	c.Label("others: %d", len(links))
}

// p39Circle has clients that are told of one another.
func p39Circle(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.blockTor()
	n := int(t.npieces())
	var running []*program
	links := map[*program][]*link{} // Those that the client dials
	var all []*link
	defer func() {
		for _, l := range all {
			l.end()
		}
		for _, p := range running {
			p.kill()
		}
	}()
	say := []string{t.String()}
	some := false
	for k := c.intn(2, 4, "clients"); k > 0; k-- {
		owned := c.lacking(t, 0)
		if c.chance(4, "has all") {
			owned = t.ownAll()
		}
		// All those before it are listed
		var addrs []net.Addr
		var mine []*link
		for _, o := range running {
			some = some || needed(o.owned, owned)
			l := c.newLink()
			l.to = o
			go l.run()
			mine = append(mine, l)
			all = append(all, l)
			addrs = append(addrs, l.ln.Addr())
		}
		say = append(say, fmt.Sprintf("client %d has %x of %d pieces", len(running), bitfieldOf(owned), n))
		p := c.client(filepath.Join(dir, fmt.Sprint(k)), t, owned, answer(60, compactPeers(addrs...)), "client")
		running = append(running, p)
		links[p] = mine
	}
	ctx := strings.Join(say, "\n")
	for _, p := range running {
		c.exchange(p, links[p], ctx)
	}
	for _, p := range running {
		p.alive(ctx)
		p.visit(ctx)
		p.sameFiles(ctx)
	}
	if some {
		c.NonTrivial(t.hashes, ctx)
		c.Sample("%s", ctx)
	}
	c.Label("clients: %d", len(running))
}
