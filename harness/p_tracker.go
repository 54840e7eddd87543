package main

import (
	"compress/gzip"
	"encoding/binary"
	"math"
	"net"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"gotor/torrent"
	"gotor/tracker"
)

func init() {
	register(&Prop{
		ID: "P29",
		Rule: "Torrents, peer ids of any bytes, totals with their changes, ports and announce URLs are generated; a local HTTP server keeps the request line, which is taken apart by the harness; unusable URLs and trackers that break off must give errors; " +
			"non-trivial: an answered announce whose peer id or infohash needs escaping (distinct by request line).",
		Init: startTracker,
		Subs: []Sub{
			{"announce", 12000, 120000, p29Announce},
			{"unusable", 3000, 30000, p29Unusable},
		},
	})
	register(&Prop{
		ID: "P30",
		Rule: "Tracker answers, compact and with dictionaries, are generated, and broken in generated ways; " +
			"non-trivial: answers with at least one peer, or broken in one place (distinct by answer). Answers are sent whole or in pieces, with a length, in chunks or up to the end of the connection, up to thousands of peers, several at the same time. Answers of up to megabytes, with more peers than sixteen bits count.",
		Init: startTracker,
		Subs: []Sub{
			{"good", 12000, 120000, p30Good},
			{"together", 2000, 20000, p30Together},
			{"large", 300, 3000, p30Large},
			{"huge", 24, 240, p30Huge},
			{"failure", 2000, 20000, p30Failure},
			{"bad", 10000, 100000, p30Bad},
			{"garbage", 4000, 60000, p30Garbage},
		},
	})
}

// ============================================================================
// Tracker ====================================================================

// httpTracker answers announces.
type httpTracker struct {
	ln   net.Listener
	base string // http://127.0.0.1:port
	mu   sync.Mutex
	reqs []*http.Request
	body []byte
	// Instead of an answer
	drop  bool   // Close the connection
	noise bool   // Send something else than HTTP
	style string // How the answer is sent
	cuts  []int
}

func newTracker() *httpTracker {
	ln, e := net.Listen("tcp", "127.0.0.1:0")
	if e != nil {
		harnessError("%v", e)
	}
	t := &httpTracker{ln: ln, base: "http://" + ln.Addr().String()}
	t.body = refEncode(answer(60, nil))
	srv := &http.Server{Handler: t}
	go func() { _ = srv.Serve(ln) }()
	return t
}

func (t *httpTracker) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	t.mu.Lock()
	t.reqs = append(t.reqs, r)
	body, drop, noise := t.body, t.drop, t.noise
	style, cuts := t.style, t.cuts
	t.mu.Unlock()
	if style == "redirected" && !drop && !noise {
		if to := "/moved/here"; r.URL.Path != to {
			http.Redirect(w, r, to+"?"+r.URL.RawQuery, []int{301, 302, 303, 307, 308}[len(body)%5])
			return
		}
		style = ""
	}
	if !drop && !noise {
		// Trackers say all sorts of things about an answer
		if ct := []string{"text/plain", "", "text/html", "application/octet-stream", "application/x-bittorrent"}[len(body)%5]; ct != "" {
			w.Header().Set("Content-Type", ct)
		}
		if style == "compressed" && strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			w.Header().Set("Content-Encoding", "gzip")
			z := gzip.NewWriter(w)
			_, _ = z.Write(body)
			_ = z.Close()
			return
		}
	}
	if style != "" && !drop && !noise {
		if style == "until closed" {
			conn, _, e := w.(http.Hijacker).Hijack()
			if e == nil {
				_, _ = conn.Write([]byte("HTTP/1.0 200 OK\r\nContent-Type: text/plain\r\n\r\n"))
				for len(cuts) > 0 {
					_, _ = conn.Write(body[:cuts[0]])
					body, cuts = body[cuts[0]:], cuts[1:]
				}
				_, _ = conn.Write(body)
				_ = conn.Close()
			}
			return
		}
		if style == "in pieces" {
			w.Header().Set("Content-Length", strconv.Itoa(len(body)))
		} // else chunked
		for len(cuts) > 0 {
			_, _ = w.Write(body[:cuts[0]])
			w.(http.Flusher).Flush()
			body, cuts = body[cuts[0]:], cuts[1:]
		}
		_, _ = w.Write(body)
		if style == "chunked" {
			w.(http.Flusher).Flush()
		}
		return
	}
	if drop || noise {
		conn, _, e := w.(http.Hijacker).Hijack()
		if e == nil {
			if noise {
				_, _ = conn.Write([]byte("\x00\x01garbage\r\n\r\n"))
			}
			_ = conn.Close()
		}
		return
	}
	w.Header().Set("Content-Length", strconv.Itoa(len(body)))
	_, _ = w.Write(body)
}

// set says what the next requests get, and forgets the ones so far.
func (t *httpTracker) set(body []byte, drop, noise bool) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.reqs, t.body, t.drop, t.noise = nil, body, drop, noise
	t.style, t.cuts = "", nil
}

// sent says how the answer is sent.
func (t *httpTracker) sent(style string, cuts []int) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.style, t.cuts = style, cuts
}

func (t *httpTracker) requests() []*http.Request {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]*http.Request(nil), t.reqs...)
}

// answer is a tracker answer with compact peers.
func answer(interval int64, peers []byte) *bdict {
	return &bdict{[]bpair{{"complete", int64(1)}, {"incomplete", int64(2)}, {"interval", interval}, {"peers", string(peers)}}}
}

// compactPeers is the compact form of addresses of TCP listeners.
func compactPeers(addrs ...net.Addr) []byte {
	var out []byte
	for _, a := range addrs {
		t := a.(*net.TCPAddr)
		out = append(out, t.IP.To4()...)
		out = binary.BigEndian.AppendUint16(out, uint16(t.Port))
	}
	return out
}

var theTracker *httpTracker

func startTracker() { theTracker = newTracker() }

// ============================================================================
// P29 ========================================================================

// unescape undoes percent-encoding, by hand.
func unescape(s string, plus bool) (string, bool) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s)+0 && i+2 > len(s)-1 {
				return "", false
			}
			n, e := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if e != nil {
				return "", false
			}
			b.WriteByte(byte(n))
			i += 2
		case s[i] == '+' && plus:
			b.WriteByte(' ')
		case s[i] <= ' ' || s[i] > '~':
			return "", false
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String(), true
}

type qpair struct{ k, v string }

// query takes a raw query apart.
func splitQuery(raw string) ([]qpair, bool) {
	var out []qpair
	if raw == "" {
		return nil, true
	}
	for _, p := range strings.Split(raw, "&") {
		if p == "" {
			continue
		}
		k, v, _ := strings.Cut(p, "=")
		uk, ok1 := unescape(k, true)
		uv, ok2 := unescape(v, true)
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, qpair{uk, uv})
	}
	return out, true
}

func splitPath(p string) ([]string, bool) {
	if p == "" {
		p = "/"
	}
	var out []string
	for _, s := range strings.Split(p, "/") {
		u, ok := unescape(s, false)
		if !ok {
			return nil, false
		}
		out = append(out, u)
	}
	return out, true
}

// peerId draws a peer id, with bytes that need escaping.
func (c *C) peerId(label string) string {
	switch c.intn(0, 4, label+" kind") {
	case 0:
		return "-GT0000-abcdefghijkl"
	case 1:
		return string(c.bytes(20, 20, label))
	case 2:
		const odd = "&=+%# ?;/:@!$'()*,[]~-_.\x00\n\xff\x80aZ09\""
		b := make([]byte, 20)
		for i := range b {
			b[i] = odd[c.intn(0, len(odd)-1, label)]
		}
		return string(b)
	case 3:
		return string(content(c.seed(label), 20))
	default:
		return "%41%42%2B++&left=7=#"
	}
}

// urlPart draws some letters and escapes.
func (c *C) urlPart(label string) string {
	var b strings.Builder
	for n := c.intn(1, 6, label+" len"); n > 0; n-- {
		b.WriteString(pick(c, label, "a", "b", "Z", "0", "-", ".", "_", "~", "%20", "%2F", "%26", "%3D", "%25", "%C3%A9", "%00", "%2B", "x", "y"))
	}
	return b.String()
}

// torrentOf loads t, that has an announce URL.
func (c *C) torrentOf(t *tor) *torrent.Torrent {
	tt, e := c.loadTorrent(t.encode(), "/nowhere")
	if e != nil {
		c.Fail("cannot load a torrent: %v\n%s", e, t)
	}
	return tt
}

// smallTor is a torrent with some infohash.
func (c *C) smallTor() *tor {
	t := &tor{name: "n" + strconv.FormatUint(c.seed("name"), 36), pieceLen: 1, single: true, total: 1, announce: "http://x/"}
	t.files = []tfile{{[]string{t.name}, 1}}
	t.fakeHashes(c.seed("hash"))
	return t
}

type statsModel struct{ dn, up, left uint64 }

// stats draws totals and changes of them.
func (c *C) stats() (*tracker.Stats, statsModel) {
	num := func(label string) uint64 {
		switch c.intn(0, 4, label+" kind") {
		case 0:
			return 0
		case 1:
			return uint64(c.intn(0, 1000, label))
		case 2:
			return uint64(c.intn(0, math.MaxInt64, label))
		case 3:
			return pick(c, label, uint64(1<<32), 1<<53+1, math.MaxInt64, 1<<63, math.MaxUint32)
		default:
			return math.MaxUint64 >> uint(c.intn(0, 63, label))
		}
	}
	m := statsModel{num("dn"), num("up"), num("left")}
	s := tracker.NewStats(m.dn, m.up, m.left)
	for k := c.intn(0, 8, "changes"); k > 0; k-- {
		n := num("amount")
		switch c.intn(0, 2, "change") {
		case 0:
			if m.up+n >= m.up {
				s.IncUploaded(n)
				m.up += n
			}
		case 1:
			if m.dn+n >= m.dn {
				s.IncDnloaded(n)
				m.dn += n
			}
		case 2:
			if c.bool("around") {
				n = m.left + uint64(c.intn(-1, 1, "off"))
			}
			s.DecLeft(n)
			if n > m.left {
				m.left = 0
			} else {
				m.left -= n
			}
		}
	}
	if s.Uploaded() != m.up || s.Dnloaded() != m.dn || s.Left() != m.left {
		c.Fail("totals are up %d down %d left %d, instead of %+v", s.Uploaded(), s.Dnloaded(), s.Left(), m)
	}
	return s, m
}

// checkAnnounce checks a request against what it should say.
func (c *C) checkAnnounce(r *http.Request, announce, infohash, id string, port uint16, m statsModel) {
	uri := r.RequestURI
	if r.Method != "GET" {
		c.Fail("the announce is a %s", r.Method)
	}
	rest := announce[strings.Index(announce, "://")+3:]
	if i := strings.IndexByte(rest, '#'); i >= 0 {
		rest = rest[:i]
	}
	wantPath, wantQuery := "", ""
	if i := strings.IndexAny(rest, "/?"); i >= 0 {
		wantPath, wantQuery, _ = strings.Cut(rest[i:], "?")
	}
	path, query, _ := strings.Cut(uri, "?")
	p1, ok1 := splitPath(path)
	p2, ok2 := splitPath(wantPath)
	if !ok1 || !ok2 || strings.Join(p1, "\x00/") != strings.Join(p2, "\x00/") {
		c.Fail("path of %q is not that of the announce URL %q", uri, announce)
	}
	got, ok1 := splitQuery(query)
	own, ok2 := splitQuery(wantQuery)
	if !ok1 || !ok2 {
		c.Fail("query of %q is malformed", uri)
	}
	want := append(own,
		qpair{"info_hash", infohash}, qpair{"peer_id", id}, qpair{"port", strconv.Itoa(int(port))},
		qpair{"uploaded", strconv.FormatUint(m.up, 10)}, qpair{"downloaded", strconv.FormatUint(m.dn, 10)},
		qpair{"left", strconv.FormatUint(m.left, 10)}, qpair{"compact", "1"})
	// What else is there is no concern of ours
	left := append([]qpair(nil), got...)
	for _, w := range want {
		found := false
		for i, g := range left {
			if g == w {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			c.Fail("%q lacks %q = %q\nparameters %q\nannounce URL %q", uri, w.k, w.v, got, announce)
		}
	}
	for _, g := range left {
		for _, w := range want[len(own):] {
			if g.k == w.k {
				c.Fail("%q has %q twice\nannounce URL %q", uri, g.k, announce)
			}
		}
	}
}

func p29Announce(c *C) {
	t := c.smallTor()
	t.announce = theTracker.base
	switch c.intn(0, 3, "path kind") {
	case 0:
		t.announce += "/announce"
	case 1:
	case 2:
		for n := c.intn(1, 4, "parts"); n > 0; n-- {
			t.announce += "/" + c.urlPart("path")
		}
	case 3:
		t.announce += "/" + c.urlPart("path") + "/"
	}
	if c.bool("query") {
		t.announce += "?"
		for n := c.intn(0, 3, "pairs"); n > 0; n-- {
			t.announce += "k" + c.urlPart("key")
			if !c.chance(4, "no value") {
				t.announce += "=" + pick(c, "value kind", "", c.urlPart("value"))
			}
			if n > 1 {
				t.announce += "&"
			}
		}
	}
	id := c.peerId("id")
	port := uint16(pick(c, "port", 0, 1, 6881, 60666, 65535, c.intn(0, 65535, "any port")))
	stats, m := c.stats()
	tt := c.torrentOf(t)

	theTracker.set(refEncode(answer(60, nil)), false, false)
	_, e := tracker.Get(tt, stats, port, id)
	reqs := theTracker.requests()
	if e != nil {
		c.Fail("announce to %q: %v", t.announce, e)
	}
	if len(reqs) != 1 {
		c.Fail("%d requests for one announce to %q", len(reqs), t.announce)
	}
	c.checkAnnounce(reqs[0], t.announce, t.infohash(), id, port, m)
	if strings.Contains(reqs[0].RequestURI, "%") {
		c.NonTrivial(reqs[0].RequestURI)
		c.Sample("announce URL %q id %q: %s", t.announce, id, reqs[0].RequestURI)
	}
}

// timed runs f, that should end soon.
func (c *C) timed(what string, f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			c.Fail("%s: panic: %v", what, r)
		}
	case <-time.After(patience):
		c.FailTiming("%s does not end", what)
	}
}

func p29Unusable(c *C) {
	t := c.smallTor()
	kind := c.intn(0, 5, "kind")
	theTracker.set(refEncode(answer(60, nil)), kind == 4, kind == 5)
	switch kind {
	case 0:
		t.announce = pick(c, "url", "", "udp://127.0.0.1:1/announce", "http://", "http:///announce", "://", "announce", "/announce", "127.0.0.1:80",
			"127.0.0.1/announce", "http//127.0.0.1", "ftp://127.0.0.1/x", "http://[::1", "http://[::1/announce", "http://127.0.0.1:99999/announce", "http://127.0.0.1:-1/",
			"http://127.0.0.1:x/", "http:// /", "%", "http://%zz/", "http://127.0.0.1\x00/", "\x00", "http://127.0.0.1:1\n/", ":", "?", "#", "//", "wss://127.0.0.1/", "http:127.0.0.1", "javascript:1",
			"http://127.0.0.1/%zz", "http://127.0.0.1/\x7f")
	case 1: // anything, without a scheme that works
		t.announce = "x" + string(c.bytes(0, 20, "garbage"))
	case 2: // Nobody listens
		addr, release := closedAddr()
		defer release()
		t.announce = "http://" + addr.String() + "/announce"
	case 3: // a good one, damaged
		t.announce = string(c.mutate([]byte("udp://127.0.0.1:1/announce?x=1"), ":/?#[]@%\x00 \n\xff", 4))
		if strings.Contains(strings.ToLower(t.announce), "http") {
			c.Discard("usable after all")
		}
	default: // The tracker breaks off
		t.announce = theTracker.base + "/announce"
	}
	tt, e := c.loadTorrent(t.encode(), "/nowhere")
	if e != nil {
		// Refused earlier
		c.Label("refused by the loader")
		return
	}
	stats, _ := c.stats()
	id := c.peerId("id")
	c.timed("announce to "+strconv.Quote(t.announce), func() {
		_, e = tracker.Get(tt, stats, 1, id)
	})
	if e == nil {
		c.Fail("announce to %q gives no error", t.announce)
	}
	if e.Error() == "" {
		c.Fail("announce to %q gives an empty error", t.announce)
	}
	c.Label("unusable %d", kind)
	c.NonTrivial(t.announce, kind)
	c.Sample("announce URL %q: %v", t.announce, e)
}

// ============================================================================
// P30 ========================================================================

type listed struct {
	id   string
	ip   net.IP
	port uint16
}

func (c *C) uintv(label string) int64 {
	return pick(c, label, 0, 1, 60, 1800, int64(c.intn(0, 100000, label+" n")), math.MaxInt32, math.MaxUint32, 1<<53+1, math.MaxInt64)
}

func (c *C) ip4(label string) net.IP {
	b := c.bytes(4, 4, label)
	return net.IPv4(b[0], b[1], b[2], b[3])
}

// ipText writes an address in one of the ways it can be written.
func (c *C) ipText(label string) (string, net.IP) {
	switch c.intn(0, 4, label+" kind") {
	case 0, 1:
		ip := c.ip4(label)
		return ip.String(), ip
	case 2:
		s := pick(c, label, "::1", "::", "fe80::1", "2001:db8::1", "2001:DB8:0:0:0:0:0:1", "ff02::2", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "64:ff9b::192.0.2.33")
		return s, net.ParseIP(s)
	case 3:
		b := net.IP(c.bytes(16, 16, label))
		return b.String(), b
	default:
		b := net.IP(c.bytes(16, 16, label))
		var p []string
		for i := 0; i < 16; i += 2 {
			p = append(p, strconv.FormatUint(uint64(b[i])<<8|uint64(b[i+1]), 16))
		}
		return strings.Join(p, ":"), b
	}
}

// goodAnswer draws a well-formed answer.
func (c *C) goodAnswer() (*bdict, []listed, bool) {
	d := &bdict{}
	d.set("interval", c.uintv("interval"))
	d.set("complete", c.uintv("complete"))
	d.set("incomplete", c.uintv("incomplete"))
	if c.bool("warning") {
		d.set("warning message", c.bstr(0, "warning"))
	}
	if c.bool("min interval") {
		d.set("min interval", c.uintv("min interval"))
	}
	for n := c.intn(0, 2, "unknown"); n > 0; n-- {
		d.set(pick(c, "unknown", "tracker id", "x", "external ip", "zzz", "downloaded", "peers6", "A"), c.bval(2, 0))
	}
	for n := c.intn(0, 2, "in common use"); n > 0; n-- {
		x := pick(c, "common", bpair{"tracker id", "abc"}, bpair{"external ip", "\x7f\x00\x00\x01"}, bpair{"downloaded", 12}, bpair{"crypto_flags", "\x01\x00"}, bpair{"retry in", 5},
			bpair{"retry in", "never"}, bpair{"warning", "other"}, bpair{"info_hash", "01234567890123456789"}, bpair{"name", "other"}, bpair{"external_ip", "127.0.0.1"}, bpair{"min_request_interval", 1})
		d.set(x.k, x.v)
	}
	var peers []listed
	n := c.intn(0, 6, "peers")
	if c.chance(12, "many") {
		n = c.intn(0, 300, "peers")
	}
	compact := c.bool("compact")
	if compact {
		var raw []byte
		for i := 0; i < n; i++ {
			b := c.bytes(6, 6, "peer")
			raw = append(raw, b...)
			peers = append(peers, listed{"", net.IPv4(b[0], b[1], b[2], b[3]), uint16(b[4])<<8 | uint16(b[5])})
		}
		d.set("peers", string(raw))
	} else {
		l := []any{}
		for i := 0; i < n; i++ {
			s, ip := c.ipText("ip")
			p := listed{c.peerId("peer id"), ip, uint16(pick(c, "port", 1, 80, 6881, 65535, 255, 256, c.intn(0, 65535, "any port")))}
			pd := &bdict{[]bpair{{"ip", s}, {"peer id", p.id}, {"port", int64(p.port)}}}
			if c.chance(6, "extra") {
				pd.set("x", c.bval(1, 0))
			}
			if c.chance(6, "in common use") {
				x := pick(c, "common", bpair{"id", "01234567890123456789"}, bpair{"crypto", 1}, bpair{"ipv4", "\x7f\x00\x00\x01"}, bpair{"ipv6", "0123456789012345"}, bpair{"upload", 1}, bpair{"complete", 1})
				pd.set(x.k, x.v)
			}
			pd.sort()
			l = append(l, pd)
			peers = append(peers, p)
		}
		d.set("peers", l)
	}
	d.sort()
	return d, peers, compact
}

// ask announces, and gets the answer.
func (c *C) ask(body []byte) (resp *tracker.Response, e error) {
	theTracker.set(body, false, false)
	if c.chance(3, "sent in some way") {
		var cuts []int
		left := len(body)
		for k := c.intn(0, 4, "cuts"); k > 0 && left > 0; k-- {
			n := c.intn(1, left, "cut")
			cuts = append(cuts, n)
			left -= n
		}
		style := pick(c, "style", "chunked", "in pieces", "until closed", "compressed", "redirected")
		theTracker.sent(style, cuts)
		c.Label("%s", style)
	}
	c.asker()
	c.timed("answer "+quote(body), func() {
		resp, e = tracker.Get(theAsker, tracker.NewStats(0, 0, 0), 1, "-GT0000-abcdefghijkl")
	})
	if e == nil && (resp == nil || resp.State == nil) {
		c.Fail("neither an error nor a response for %s", quote(body))
	}
	return resp, e
}

var theAsker *torrent.Torrent

// asker is the torrent that is asked for.
func (c *C) asker() *torrent.Torrent {
	if theAsker == nil {
		t := &tor{name: "n", pieceLen: 1, single: true, total: 1, announce: theTracker.base + "/announce", files: []tfile{{[]string{"n"}, 1}}}
		t.fakeHashes(1)
		theAsker = c.torrentOf(t)
	}
	return theAsker
}

func p30Good(c *C) {
	d, peers, compact := c.goodAnswer()
	body := refEncode(d)
	resp, e := c.ask(body)
	if e != nil {
		c.Fail("error %v for the answer %s", e, quote(body))
	}
	c.checkAnswer(resp, d, peers)
	if len(peers) > 0 {
		c.NonTrivial(string(body))
		c.Sample("%d peers: %s", len(peers), quote(body))
	}
	c.Label("compact %v", compact)
	c.Label("peers %d", min(len(peers), 3))
}

// p30Large reads answers with many peers, or a long warning.
func p30Large(c *C) {
	n := int64(c.intn(0, pick(c, "most", 1000, 12000, 60000), "peers"))
	compact := c.bool("compact")
	if !compact {
		n = min(n, 5000)
	}
	p30Many(c, compact, n)
}

// p30Huge does it with answers of up to megabytes.
func p30Huge(c *C) {
	compact := c.index%2 == 0
	n := 1<<uint(15+c.index/2%4) + c.intn(-2, 2000, "peers")
	if !compact {
		n = min(n, 1<<16+2000)
	}
	p30Many(c, compact, int64(n))
}

func p30Many(c *C, compact bool, n int64) {
	d, _, _ := c.goodAnswer()
	raw := content(c.seed("peers"), 6*n)
	var peers []listed
	l := []any{}
	for ; len(raw) > 0 && !compact; raw = raw[6:] {
		p := listed{string(content(uint64(len(l)), 20)), net.IPv4(raw[0], raw[1], raw[2], raw[3]), uint16(raw[4])<<8 | uint16(raw[5])}
		peers = append(peers, p)
		l = append(l, &bdict{[]bpair{{"ip", p.ip.String()}, {"peer id", p.id}, {"port", int64(p.port)}}})
	}
	if compact {
		d.set("peers", string(raw))
		for b := raw; len(b) > 0; b = b[6:] {
			peers = append(peers, listed{"", net.IPv4(b[0], b[1], b[2], b[3]), uint16(b[4])<<8 | uint16(b[5])})
		}
	} else {
		d.set("peers", l)
	}
	if c.chance(4, "long warning") {
		d.set("warning message", string(content(1, int64(c.intn(1, 300000, "length")))))
	}
	d.sort()
	resp, e := c.ask(refEncode(d))
	if e != nil {
		c.Fail("error %v for an answer with %d peers (compact %v)", e, len(peers), compact)
	}
	c.checkAnswer(resp, d, peers)
	c.Label("large, %d and more peers", len(peers)/5000*5000)
	c.NonTrivial("large", compact, len(peers))
}

// p30Together keeps several answers.
func p30Together(c *C) {
	n := c.intn(2, 5, "answers")
	ds, peers := make([]*bdict, n), make([][]listed, n)
	got := make([]*tracker.Response, n)
	for i := range ds {
		ds[i], peers[i], _ = c.goodAnswer()
		var e error
		got[i], e = c.ask(refEncode(ds[i]))
		if e != nil {
			c.Fail("error %v for the answer %s", e, quote(refEncode(ds[i])))
		}
	}
	for i := range ds {
		c.checkAnswer(got[i], ds[i], peers[i])
	}
	if len(peers[0]) > 0 && len(peers[1]) > 0 {
		c.NonTrivial("t", string(refEncode(ds[0])), string(refEncode(ds[1])))
	}
}

// checkAnswer compares what was read with what the tracker sent.
func (c *C) checkAnswer(resp *tracker.Response, d *bdict, peers []listed) {
	body := refEncode(d)
	num := func(key string) uint64 {
		v, ok := d.get(key)
		if !ok {
			return 0
		}
		return uint64(v.(int64))
	}
	warn, _ := d.get("warning message")
	if warn == nil {
		warn = ""
	}
	s := resp.State
	if s.Interval() != num("interval") || s.MinInterval() != num("min interval") || s.Seeders() != num("complete") || s.Leechers() != num("incomplete") || s.Warning() != warn {
		c.Fail("read as interval %d min %d seeders %d leechers %d warning %q: %s", s.Interval(), s.MinInterval(), s.Seeders(), s.Leechers(), s.Warning(), quote(body))
	}
	if len(resp.Peers) != len(peers) {
		c.Fail("%d peers instead of %d: %s", len(resp.Peers), len(peers), quote(body))
	}
	for i := range peers {
		p, w := resp.Peers[i], peers[i]
		if p.Id() != w.id || !p.Ip().Equal(w.ip) || p.Port() != w.port {
			c.Fail("peer %d is %q %v %d instead of %q %v %d", i, p.Id(), p.Ip(), p.Port(), w.id, w.ip, w.port)
		}
		host, port, e := net.SplitHostPort(p.Addr())
		if e != nil || !net.ParseIP(host).Equal(w.ip) || port != strconv.Itoa(int(w.port)) {
			c.Fail("peer %v port %d has the address %q (%v)", w.ip, w.port, p.Addr(), e)
		}
	}
}

func p30Failure(c *C) {
	d := &bdict{}
	if c.bool("with more") {
		d, _, _ = c.goodAnswer()
	}
	why := c.bstr(0, "why")
	d.set("failure reason", why)
	d.sort()
	body := refEncode(d)
	_, e := c.ask(body)
	if e == nil {
		c.Fail("no error for %s", quote(body))
	}
	if !strings.Contains(e.Error(), why) {
		c.Fail("error %q does not contain the reason %q", e.Error(), why)
	}
	if why != "" {
		c.NonTrivial(string(body))
		c.Sample("%s: %v", quote(body), e)
	}
}

func p30Bad(c *C) {
	d, peers, compact := c.goodAnswer()
	what := ""
	var body []byte
	notInt := func() any { return pick[any](c, "type", "x", "5", "", []any{}, &bdict{}) }
	negative := func() any {
		return pick[any](c, "negative", int64(-1), -60, int64(math.MinInt64), int64(math.MinInt32))
	}
	list := func() []any {
		if v, _ := d.get("peers"); v != nil {
			if l, ok := v.([]any); ok && len(l) > 0 {
				return l
			}
		}
		l := []any{&bdict{[]bpair{{"ip", "1.2.3.4"}, {"peer id", "-XX0000-abcdefghijkl"}, {"port", int64(1)}}}}
		d.set("peers", l)
		return l
	}
	switch c.intn(0, 9, "what") {
	case 0:
		k := pick(c, "key", "interval", "complete", "incomplete", "peers")
		d.del(k)
		what = "missing " + k
	case 1:
		k := pick(c, "key", "interval", "complete", "incomplete")
		d.set(k, notInt())
		what = "mistyped " + k
	case 2:
		k := pick(c, "key", "interval", "complete", "incomplete")
		d.set(k, negative())
		what = "negative " + k
	case 3:
		d.set("peers", pick[any](c, "type", int64(0), int64(6), int64(-1), &bdict{}, &bdict{[]bpair{{"ip", "1.2.3.4"}}}))
		what = "mistyped peers"
	case 4:
		n := c.intn(1, 100, "n")
		if n%6 == 0 {
			n++
		}
		d.set("peers", string(c.bytes(n, n, "peers")))
		what = "compact length"
	case 5:
		l := list()
		l[c.intn(0, len(l)-1, "which")] = pick[any](c, "type", int64(1), "1.2.3.4", []any{}, "")
		what = "peer is no dictionary"
	case 6:
		l := list()
		p := l[c.intn(0, len(l)-1, "which")].(*bdict)
		k := pick(c, "key", "ip", "port")
		p.del(k)
		what = "peer without " + k
	case 7:
		l := list()
		p := l[c.intn(0, len(l)-1, "which")].(*bdict)
		if c.bool("ip") {
			p.set("ip", pick[any](c, "type", int64(1), []any{}, &bdict{}))
		} else {
			p.set("port", notInt())
		}
		what = "mistyped field of a peer"
	case 8:
		l := list()
		p := l[c.intn(0, len(l)-1, "which")].(*bdict)
		p.set("port", pick[any](c, "port", int64(65536), int64(65537), int64(-1), int64(1<<16+80), int64(1<<32+80), int64(math.MaxInt64), int64(math.MinInt64), int64(-65535), int64(c.intn(65536, 1<<40, "n"))))
		what = "port out of range"
	case 9:
		what = "no dictionary"
		body = refEncode(pick[any](c, "value", []any{}, "d8:intervali1ee", int64(5), []any{d}, ""))
	}
	if body == nil {
		d.sort()
		body = refEncode(d)
	}
	resp, e := c.ask(body)
	if e == nil {
		c.Fail("no error (%s), but interval %d seeders %d leechers %d peers %v: %s", what, resp.State.Interval(), resp.State.Seeders(), resp.State.Leechers(), resp.Peers, quote(body))
	}
	c.Label("%s", what)
	c.NonTrivial(string(body))
	c.Sample("%s: %s: %v", what, quote(body), e)
	_, _ = peers, compact
}

// p30Garbage damages the bytes of an answer. If they are no bencoding there must
// be an error, otherwise at least no crash and no peers out of nowhere.
func p30Garbage(c *C) {
	d, _, _ := c.goodAnswer()
	body := refEncode(d)
	switch c.intn(0, 3, "kind") {
	case 0:
		body = c.bytes(0, 60, "garbage")
	case 1:
		body = body[:c.intn(0, len(body)-1, "cut")]
	default:
		body = c.mutate(body, "dlei0123456789:-\x00", 4)
	}
	c.checkAnyAnswer(body)
}

// checkAnyAnswer gives the client an answer of any sort.
func (c *C) checkAnyAnswer(body []byte) {
	resp, e := c.ask(body)
	v, _, ok, grey := refDecode(body)
	top, isDict := v.(*bdict)
	switch {
	case grey:
		c.Label("grey")
	case !ok || !isDict:
		if e == nil {
			c.Fail("no error for %s", quote(body))
		}
		c.NonTrivial(string(body))
		c.Sample("%s: %v", quote(body), e)
	case e == nil:
		p, _ := top.get("peers")
		n := -1
		switch p := p.(type) {
		case string:
			n = len(p) / 6
			if len(p)%6 != 0 {
				n = -1
			}
		case []any:
			n = len(p)
		}
		if n != len(resp.Peers) {
			c.Fail("%d peers for %s", len(resp.Peers), quote(body))
		}
		for _, key := range []string{"interval", "complete", "incomplete"} {
			x, _ := top.get(key)
			if i, ok := x.(int64); !ok || i < 0 {
				c.Fail("no error with %s %v: %s", key, x, quote(body))
			}
		}
	}
}
