package main

import (
	"fmt"
	"net"
	"runtime"
	"sync"
	"sync/atomic"

	"gotor/bf"
	"gotor/io"
	"gotor/peer"
	"gotor/swarm"
	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"gotor/tracker"
)

func init() {
	register(&Prop{
		ID: "P23",
		Rule: "Histories of peers announcing pieces (bitfields and single ones, again and again), leaving, coming back and asking for work, up to 90 peers, compared with a model after every step; " +
			"non-trivial: at least two assignments, and a peer that leaves while it holds one or a piece that 64 peers have (distinct by history). Also up to 330 peers, and up to 262144 pieces.",
		Subs: []Sub{
			{"history", 12000, 150000, p23History},
			{"crowd", 1200, 12000, p23Crowd},
			{"pieces", 240, 2400, p23Pieces},
			{"many", 40, 400, p23Many},
		},
	})
	register(&Prop{
		ID: "P24",
		Rule: "Goroutines of several peers announce, ask and leave at the same time, under the race detector; every assignment is checked against the owners at that moment, and the rest is counted when all is quiet; " +
			"non-trivial: at least two peers announce a common piece that we lack (distinct by plan).",
		Subs: []Sub{{"concurrent", 1600, 16000, p24Concurrent}},
	})
}

// pptWorld makes peer handlers that are not connected to anything.
type pptWorld struct {
	sw *swarm.Swarm
}

func newPptWorld() *pptWorld {
	files := []filesd.EntryBase{filesd.MakeFileEntry("f", 1)}
	ti, e := info.NewTorInfo("f", 1, "01234567890123456789", files)
	if e != nil {
		harnessError("%v", e)
	}
	t, e := torrent.NewTorrent(ti, "http://x/")
	if e != nil {
		harnessError("%v", e)
	}
	b := bf.NewBitfield(1)
	return &pptWorld{&swarm.Swarm{
		State: &tracker.State{}, Stats: tracker.NewStats(0, 0, 1), Tor: t, RLIO: io.NewRateLimitIO(),
		Bf: b, PPT: swarm.NewPeerPieceTracker(1, b), Id: "-GT0000-abcdefghijkl", Port: 1, ChErr: make(chan error, 1),
	}}
}

var theWorld *pptWorld

// peer makes a peer handler. Different numbers are different peers.
func (w *pptWorld) peer(n int) *swarm.PeerHandler {
	inf := peer.MakePeer(fmt.Sprintf("-XX0000-%012d", n), net.IPv4(10, 1, byte(n>>8), byte(n)), uint16(1000+n))
	return swarm.NewPeerHandler(inf, w.sw, nil)
}

// pptModel says what the tracker should do.
type pptModel struct {
	need     []bool
	have     []map[int]bool // peers that announced the piece
	assigned []int          // peer that was assigned the piece, or -1
}

func newPptModel(need []bool) *pptModel {
	m := &pptModel{need: need}
	for range need {
		m.have = append(m.have, map[int]bool{})
		m.assigned = append(m.assigned, -1)
	}
	return m
}

func (m *pptModel) avail(i int) int { return min(63, len(m.have[i])) }

// candidates returns the pieces that may be assigned to a peer.
func (m *pptModel) candidates(p int) []int {
	var out []int
	least := 1 << 30
	for i := range m.need {
		if !m.need[i] || m.assigned[i] >= 0 || !m.have[i][p] {
			continue
		}
		if a := m.avail(i); a < least {
			least, out = a, nil
		}
		if m.avail(i) == least {
			out = append(out, i)
		}
	}
	return out
}

func (m *pptModel) leave(p int) (held int) {
	for i := range m.need {
		delete(m.have[i], p)
		if m.assigned[i] == p {
			m.assigned[i] = -1
			held++
		}
	}
	return held
}

func in(x int, list []int) bool {
	for _, y := range list {
		if x == y {
			return true
		}
	}
	return false
}

type pptRun struct {
	c       *C
	ppt     *swarm.PeerPieceTracker
	bf      *bf.Bitfield
	m       *pptModel
	peers   []*swarm.PeerHandler
	who     []int // whom they are connected to
	hist    []string
	assigns int
	left    bool
}

func (c *C) newPptRun(npieces, npeers int) *pptRun {
	if theWorld == nil {
		theWorld = newPptWorld()
	}
	r := &pptRun{c: c, bf: bf.NewBitfield(int64(npieces))}
	need := make([]bool, npieces)
	mode := c.intn(0, 3, "needs")
	for i := range need {
		need[i] = mode != 0 || c.bool("need")
		if !need[i] {
			r.bf.Set(int64(i), true)
		}
	}
	r.m = newPptModel(need)
	r.ppt = swarm.NewPeerPieceTracker(uint32(npieces), r.bf)
	r.who = c.sessions(npeers)
	for _, n := range r.who {
		r.peers = append(r.peers, theWorld.peer(n))
	}
	r.hist = append(r.hist, fmt.Sprintf("need %v", need))
	return r
}

// sessions draws who is connected. We may have several sessions with one peer.
func (c *C) sessions(n int) []int {
	who := make([]int, n)
	same := c.chance(3, "same peers")
	for i := range who {
		who[i] = i
		if same && c.chance(3, "same") {
			who[i] = c.intn(0, i, "as")
		}
	}
	return who
}

func (r *pptRun) note(format string, args ...any) {
	r.hist = append(r.hist, fmt.Sprintf(format, args...))
}

func (r *pptRun) next(p int) {
	cand := r.m.candidates(p)
	got, ok := r.ppt.NextPiece(r.peers[p])
	r.note("next(%d)=%d,%v", p, got, ok)
	switch {
	case !ok && len(cand) > 0:
		r.c.Fail("peer %d got no piece, it could have one of %v\n%v", p, cand, r.tail())
	case ok && int(got) >= len(r.m.need):
		r.c.Fail("peer %d got piece %d of %d\n%v", p, got, len(r.m.need), r.tail())
	case ok && !in(int(got), cand):
		i := int(got)
		r.c.Fail("peer %d got piece %d (needed %v, has it %v, assigned to %d, availability %d), rarest are %v\n%v",
			p, got, r.m.need[i], r.m.have[i][p], r.m.assigned[i], len(r.m.have[i]), cand, r.tail())
	case ok:
		r.m.assigned[got] = p
		r.assigns++
	}
}

func (r *pptRun) tail() []string {
	if len(r.hist) > 60 {
		return append([]string{r.hist[0], "..."}, r.hist[len(r.hist)-58:]...)
	}
	return r.hist
}

func (r *pptRun) announce(p int, bitfield bool, pieces []int) {
	if bitfield {
		b := bf.NewBitfield(int64(len(r.m.need)))
		for _, i := range pieces {
			b.Set(int64(i), true)
		}
		r.ppt.RegisterBF(r.peers[p], b)
	} else {
		var list []uint32
		for _, i := range pieces {
			list = append(list, uint32(i))
		}
		r.ppt.Register(r.peers[p], list...)
	}
	for _, i := range pieces {
		r.m.have[i][p] = true
	}
	r.note("announce(%d)%v", p, pieces)
}

func (r *pptRun) leave(p int, anew bool) {
	r.ppt.Unregister(r.peers[p])
	if r.m.leave(p) > 0 {
		r.left = true
	}
	if anew { // It comes back as another session
		r.peers[p] = theWorld.peer(r.who[p])
	}
	r.note("leave(%d)", p)
}

func (c *C) pieces(n int, label string) []int {
	var out []int
	switch c.intn(0, 3, label+" kind") {
	case 0: // all
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
	case 1: // one
		out = []int{c.intn(0, n-1, label)}
	case 2: // a few, maybe one twice
		for k := c.intn(0, 4, label+" count"); k > 0; k-- {
			out = append(out, c.intn(0, n-1, label))
		}
	case 3:
		for i := 0; i < n; i++ {
			if c.bool(label) {
				out = append(out, i)
			}
		}
	}
	return out
}

func p23History(c *C) {
	np := c.intn(1, 10, "pieces")
	npeers := c.intn(1, 6, "peers")
	r := c.newPptRun(np, npeers)
	for k := c.intn(1, 50, "ops"); k > 0; k-- {
		p := c.intn(0, npeers-1, "peer")
		switch op := c.intn(0, 11, "op"); {
		case op < 4:
			r.announce(p, c.bool("bitfield"), c.pieces(np, "pieces"))
		case op < 9:
			r.next(p)
		case op < 11:
			r.leave(p, c.bool("anew"))
		case op == 11:
			// A piece is complete, or was lost
			i := c.intn(0, np-1, "piece")
			r.bf.Set(int64(i), r.m.need[i])
			r.m.need[i] = !r.m.need[i]
			r.note("need %d %v", i, r.m.need[i])
		}
	}
	// Whatever is left is assigned in the end
	for p := range r.peers {
		for k := 0; k <= np; k++ {
			r.next(p)
		}
	}
	if r.assigns >= 2 && r.left {
		c.NonTrivial(r.hist)
		c.Sample("%v", r.hist)
	}
	c.Label("a peer left while assigned %v", r.left)
}

// p23Crowd has so many peers that the availability exceeds what the tracker tells
// apart.
func p23Crowd(c *C) {
	np := c.intn(1, 5, "pieces")
	npeers := c.intn(60, 90, "peers")
	if c.chance(10, "many") {
		npeers = c.intn(250, 330, "peers")
	}
	r := c.newPptRun(np, npeers)
	crowded := false
	for k := c.intn(1, 14, "ops"); k > 0; k-- {
		// Several peers in a row do the same
		lo := c.intn(0, npeers-1, "from")
		hi := min(npeers-1, lo+c.intn(0, 20, "count"))
		if c.bool("all") {
			lo, hi = 0, npeers-1-c.intn(0, 3, "not")
		}
		switch op := c.intn(0, 9, "op"); {
		case op < 5:
			pieces := c.pieces(np, "pieces")
			for p := lo; p <= hi; p++ {
				r.announce(p, k%2 == 0, pieces)
			}
		case op < 7:
			for p := lo; p <= min(hi, lo+3); p++ {
				r.next(p)
			}
		case op < 9:
			for p := lo; p <= hi; p++ {
				r.leave(p, k%2 == 0)
			}
		}
		for i := range r.m.have {
			crowded = crowded || len(r.m.have[i]) >= 64
		}
	}
	for p := range r.peers {
		r.next(p)
	}
	for p := range r.peers {
		r.leave(p, false)
	}
	for p := range r.peers {
		r.next(p) // Nobody has anything
	}
	// One peer with everything gets everything
	r.announce(0, true, c.pieces(np, "last"))
	for i := 0; i <= np; i++ {
		r.next(0)
	}
	if r.assigns >= 2 && crowded {
		c.NonTrivial(r.hist)
		c.Sample("%d peers, %d pieces: %v", npeers, np, r.tail())
	}
	c.Label("64 peers have a piece %v", crowded)
}

// p23Pieces has peers with so many pieces assigned that none of the sizes in use
// is enough, who then leave.
func p23Pieces(c *C) {
	np := pick(c, "size", 40, 70, 140, 300, 1100)
	np = c.intn(np/2, np, "pieces")
	npeers := c.intn(1, 4, "peers")
	r := c.newPptRun(np, npeers)
	most := 0
	for p := range r.peers {
		r.announce(p, c.bool("bitfield"), c.pieces(np, "pieces"))
	}
	take := func(p, n int) {
		for before := r.assigns; n > 0; n-- {
			r.next(p)
			if r.assigns == before {
				break
			}
			before = r.assigns
		}
	}
	for k := c.intn(1, 8, "ops"); k > 0; k-- {
		p := c.intn(0, npeers-1, "peer")
		switch c.intn(0, 3, "op") {
		case 0:
			r.announce(p, c.bool("bitfield"), c.pieces(np, "pieces"))
		case 1, 2:
			take(p, np-c.intn(0, np, "not"))
		case 3:
			n := 0
			for _, q := range r.m.assigned {
				if q == p {
					n++
				}
			}
			most = max(most, n)
			r.leave(p, c.bool("anew"))
		}
	}
	for p := range r.peers {
		take(p, np+1)
	}
	r.leave(0, true)
	all := make([]int, np)
	for i := range all {
		all[i] = i
	}
	r.announce(0, true, all)
	take(0, np+1)
	if r.assigns >= 2 && r.left {
		c.NonTrivial(r.hist)
		c.Sample("%d peers, %d pieces: %v", npeers, np, r.tail())
	}
	c.Label("a peer left with %d and more pieces", most/64*64)
}

// p23Many has more pieces than sixteen bits count. We lack some of them.
func p23Many(c *C) {
	np := 1<<uint(15+c.index%4) + pick(c, "off", 0, 1, -1, 200, 4464, 9)
	if theWorld == nil {
		theWorld = newPptWorld()
	}
	r := &pptRun{c: c, bf: bf.NewBitfield(int64(np))}
	lack := map[int]bool{}
	for k := c.intn(1, 25, "lacking"); k > 0; k-- {
		i := pick(c, "near", 0, 255, 256, np/2, 1<<15, 1<<16, 1<<17, np-1, np-256) + c.intn(-2, 2, "off")
		lack[max(0, min(i, np-1))] = true
	}
	need := make([]bool, np)
	for i := range need {
		need[i] = lack[i]
		r.bf.Set(int64(i), !lack[i])
	}
	r.m = newPptModel(need)
	r.ppt = swarm.NewPeerPieceTracker(uint32(np), r.bf)
	npeers := c.intn(2, 3, "peers")
	r.who = c.sessions(npeers)
	for _, n := range r.who {
		r.peers = append(r.peers, theWorld.peer(n))
	}
	for p := range r.peers {
		var own, rest []int
		which := c.intn(0, 2, "which")
		for i := range need {
			switch {
			case which == 0, lack[i] && (i+p)%3 != 0, !lack[i] && i%7 == p:
				own = append(own, i)
			default:
				rest = append(rest, i)
			}
		}
		r.announce(p, c.chance(2, "bitfield"), own)
		r.hist = nil
		if len(rest) > 0 && c.bool("later") {
			r.announce(p, false, rest[len(rest)-1:])
		}
	}
	r.hist = []string{fmt.Sprintf("%d pieces, lacking %v", np, lack)}
	for k := c.intn(1, 20, "ops"); k > 0; k-- {
		p := c.intn(0, npeers-1, "peer")
		if c.chance(6, "leave") {
			r.leave(p, true)
		} else {
			r.next(p)
		}
	}
	for p := range r.peers {
		for k := 0; k <= len(lack); k++ {
			r.next(p)
		}
	}
	c.NonTrivial(r.hist)
	c.Sample("%v", r.tail())
	c.Label("%d and more pieces", np>>15<<15)
}

// ============================================================================
// P24 ========================================================================

func p24Concurrent(c *C) {
	if theWorld == nil {
		theWorld = newPptWorld()
	}
	np := c.intn(1, 40, "pieces")
	npeers := c.intn(2, 10, "peers")
	need := make([]bool, np)
	ours := bf.NewBitfield(int64(np))
	for i := range need {
		need[i] = !c.chance(5, "have")
		ours.Set(int64(i), !need[i])
	}
	ppt := swarm.NewPeerPieceTracker(uint32(np), ours)

	type round struct {
		announce [][]int
		bitfield bool
		asks     int
		leave    bool
	}
	plans := make([][]round, npeers)
	for p := range plans {
		for k := c.intn(1, 5, "rounds"); k > 0; k-- {
			r := round{bitfield: c.bool("bitfield"), asks: c.intn(0, 8, "asks"), leave: c.chance(3, "leave")}
			for j := c.intn(1, 3, "announces"); j > 0; j-- {
				r.announce = append(r.announce, c.pieces(np, "pieces"))
			}
			plans[p] = append(plans[p], r)
		}
	}

	var mu sync.Mutex
	msg := ""
	fail := func(format string, args ...any) {
		mu.Lock()
		if msg == "" {
			msg = fmt.Sprintf(format, args...)
		}
		mu.Unlock()
	}
	owner := make([]atomic.Int32, np) // peer + 1
	announced := make([][]atomic.Bool, npeers)
	handlers := make([]*swarm.PeerHandler, npeers)
	who := c.sessions(npeers)
	var all sync.WaitGroup
	start := make(chan bool)
	for p := range plans {
		announced[p] = make([]atomic.Bool, np)
		handlers[p] = theWorld.peer(who[p])
		all.Add(1)
		go func(p int) {
			defer all.Done()
			ph := handlers[p]
			<-start
			for _, r := range plans[p] {
				// The two loops of a session
				var two sync.WaitGroup
				two.Add(2)
				go func() {
					defer two.Done()
					for _, pieces := range r.announce {
						for _, i := range pieces {
							announced[p][i].Store(true)
						}
						if r.bitfield {
							b := bf.NewBitfield(int64(np))
							for _, i := range pieces {
								b.Set(int64(i), true)
							}
							ppt.RegisterBF(ph, b)
						} else {
							for _, i := range pieces {
								ppt.Register(ph, uint32(i))
							}
						}
					}
				}()
				go func() {
					defer two.Done()
					for k := 0; k < r.asks; k++ {
						i, ok := ppt.NextPiece(ph)
						if !ok {
							runtime.Gosched()
							continue
						}
						if int(i) >= np || !need[i] || !announced[p][i].Load() {
							fail("peer %d was assigned piece %d of %d, which it does not have or we do not need", p, i, np)
							return
						}
						if !owner[i].CompareAndSwap(0, int32(p)+1) {
							fail("piece %d was assigned to peer %d while peer %d has it", i, p, owner[i].Load()-1)
							return
						}
					}
				}()
				two.Wait()
				if r.leave {
					for i := range owner {
						announced[p][i].Store(false)
						owner[i].CompareAndSwap(int32(p)+1, 0)
					}
					ppt.Unregister(ph)
				}
			}
		}(p)
	}
	close(start)
	all.Wait()
	if msg != "" {
		c.Fail("%s", msg)
	}

	// Now that it is quiet, nothing is lost
	for p, ph := range handlers {
		for k := 0; k <= np; k++ {
			i, ok := ppt.NextPiece(ph)
			if !ok {
				break
			}
			if int(i) >= np || !need[i] || !announced[p][i].Load() || !owner[i].CompareAndSwap(0, int32(p)+1) {
				c.Fail("when all was quiet, peer %d was assigned piece %d", p, i)
			}
		}
	}
	common := 0
	for i := 0; i < np; i++ {
		n := 0
		for p := range handlers {
			if announced[p][i].Load() {
				n++
			}
		}
		if n > 1 && need[i] {
			common++
		}
		if n > 0 && need[i] && owner[i].Load() == 0 {
			c.Fail("piece %d is needed and announced, but nobody is assigned it", i)
		}
	}
	if common > 0 {
		c.NonTrivial(np, need, plans)
		c.Sample("%d peers, %d pieces, first plan %+v", npeers, np, plans[0])
	}
	c.Label("common pieces %v", common > 0)
}
