package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math"
	"sort"
	"strings"

	"gotor/utils"
	"gotor/utils/ds"
)

func init() {
	register(&Prop{
		ID: "P32",
		Rule: "Histories of operations on a set (elements with shared keys) and on several linked lists (insertion, removal, moving nodes, clearing), compared with a map and with slices after every step; " +
			"non-trivial: at least two removals that changed something (distinct by history).",
		Subs: []Sub{
			{"set", 60000, 600000, p32Set},
			{"list", 60000, 600000, p32List},
			{"large", 60, 600, p32Large},
		},
	})
	register(&Prop{
		ID: "P33",
		Rule: "Drawn data, segment sizes, slices and sizes around powers of 1024; " +
			"non-trivial: more than one segment with a shorter last one, a removal from at least two elements, or a size of at least 1024 (distinct by input). Data of up to 4 MB in up to hundreds of thousands of segments.",
		Subs: []Sub{
			{"segments", 60000, 600000, p33Segments},
			{"removeswap", 40000, 400000, p33RemoveSwap},
			{"peerid", 4000, 40000, p33PeerId},
			{"sizes", 60000, 600000, p33Sizes},
			{"large", 80, 800, p33Large},
		},
	})
}

// ============================================================================
// P32 ========================================================================

type keyed struct {
	key string
	id  int
}

func (k *keyed) Key() string { return k.key }

func p32Set(c *C) {
	s := ds.MakeSet[*keyed]()
	model := map[string]*keyed{}
	keys := []string{"", "a", "b", "ab", "a\x00", "A", "é", c.bstr(0, "key")}
	var hist []string
	removed := 0
	for k := c.intn(1, 30, "ops"); k > 0; k-- {
		key := keys[c.intn(0, len(keys)-1, "which")]
		x := &keyed{key, k}
		_, had := model[key]
		switch op := c.intn(0, 5, "op"); {
		case op < 3:
			hist = append(hist, fmt.Sprintf("add %q", key))
			if s.Add(x) == had {
				c.Fail("%v: Add says %v", hist, had)
			}
			if !had {
				model[key] = x
			}
		case op < 5:
			hist = append(hist, fmt.Sprintf("remove %q", key))
			if s.Remove(x) != had {
				c.Fail("%v: Remove says %v", hist, !had)
			}
			if had {
				removed++
			}
			delete(model, key)
		default:
			if s.Has(x) != had {
				c.Fail("%v: Has(%q) says %v", hist, key, !had)
			}
		}
		if s.Size() != len(model) {
			c.Fail("%v: size %d, want %d", hist, s.Size(), len(model))
		}
		for _, key := range keys {
			if _, has := model[key]; s.Has(&keyed{key, -1}) != has {
				c.Fail("%v: Has(%q) says %v", hist, key, !has)
			}
		}
		items := s.Items()
		if len(items) != len(model) {
			c.Fail("%v: %d items, want %d", hist, len(items), len(model))
		}
		seen := map[string]bool{}
		for _, it := range items {
			if it == nil || seen[it.key] || model[it.key] != it {
				c.Fail("%v: wrong item %v", hist, it)
			}
			seen[it.key] = true
		}
	}
	if removed >= 2 {
		c.NonTrivial(hist)
		c.Sample("set: %v", hist)
	}
}

// p32Large does it with many elements.
func p32Large(c *C) {
	s := ds.MakeSet[*keyed]()
	l := ds.Make[int]()
	model := map[string]*keyed{}
	var nodes []*ds.Node[int] // back first
	name := func(i int) string { return fmt.Sprint("k", i) }
	var hist []string
	size := func() int {
		if c.bool("round") {
			return pick(c, "size", 100, 128, 255, 256, 1000, 1024, 4096, 10000, 65535, 65536, 70000, 131072) + c.intn(-1, 1, "off")
		}
		return c.intn(1, 3000, "size")
	}
	for k := c.intn(1, 5, "ops"); k > 0; k-- {
		from, n := 0, size()
		if c.bool("beyond") {
			from = c.intn(0, len(model), "from")
		}
		add := c.chance(3, "remove") == false
		if c.index%4 == 0 && len(hist) < 3 { // Very many, most of which go again
			from, n, add = 0, 1<<uint(16+c.index/4%2)+c.intn(-1, 5000, "more"), len(hist)%2 == 0
		}
		hist = append(hist, fmt.Sprintf("add %v: %d from %d on", add, n, from))
		for i := from; i < from+n; i++ {
			x := &keyed{name(i), i}
			_, had := model[x.key]
			if add {
				if s.Add(x) == had {
					c.Fail("%v: Add(%q) says %v", hist, x.key, had)
				}
				if !had {
					model[x.key] = x
				}
				nodes = append(nodes, l.AddDataFront(i))
				continue
			}
			if s.Remove(x) != had {
				c.Fail("%v: Remove(%q) says %v", hist, x.key, !had)
			}
			delete(model, x.key)
		}
		if !add && len(nodes) > 0 { // Every other one of the last nodes, or almost all
			at := max(0, len(nodes)-n)
			keep := 2
			if c.index%4 == 0 || c.bool("almost all") {
				at, keep = 0, pick(c, "keep", 1000, 20000, 65000, 200000)
			}
			hist[len(hist)-1] += fmt.Sprintf(" and nodes from %d on, keeping one of %d", at, keep)
			kept := append([]*ds.Node[int](nil), nodes[:at]...)
			for i, x := range nodes[at:] {
				if i%keep != keep-1 {
					l.Remove(x)
				} else {
					kept = append(kept, x)
				}
			}
			nodes = kept
		}
		if s.Size() != len(model) {
			c.Fail("%v: size %d, want %d", hist, s.Size(), len(model))
		}
		items := s.Items()
		if len(items) != len(model) {
			c.Fail("%v: %d items, want %d", hist, len(items), len(model))
		}
		seen := map[string]bool{}
		for _, it := range items {
			if it == nil || seen[it.key] || model[it.key] != it {
				c.Fail("%v: wrong item %v", hist, it)
			}
			seen[it.key] = true
		}
		for i := 0; i < 50; i++ {
			key := name(c.intn(0, from+n+10, "key"))
			if _, had := model[key]; s.Has(&keyed{key, -1}) != had {
				c.Fail("%v: Has(%q) says %v", hist, key, !had)
			}
		}
		want := make([]*ds.Node[int], len(nodes))
		for i, x := range nodes {
			want[len(nodes)-1-i] = x
		}
		c.checkList(&l, want, hist)
		note("large", c.index)
	}
	c.NonTrivial(hist)
	c.Sample("large: %v", hist)
}

func p32List(c *C) {
	nl := c.intn(1, 3, "lists")
	lists := make([]ds.LinkedList[int], nl)
	for i := range lists {
		if c.bool("made") {
			lists[i] = ds.Make[int]()
		}
	}
	model := make([][]*ds.Node[int], nl) // front first
	var free []*ds.Node[int]             // in no list
	var hist []string
	removed, next := 0, 0
	for k := c.intn(1, 30, "ops"); k > 0; k-- {
		li := c.intn(0, nl-1, "list")
		l := &lists[li]
		take := func() *ds.Node[int] {
			i := c.intn(0, len(model[li])-1, "node")
			n := model[li][i]
			l.Remove(n)
			model[li] = append(append([]*ds.Node[int]{}, model[li][:i]...), model[li][i+1:]...)
			removed++
			hist = append(hist, fmt.Sprintf("%d.remove(%d)", li, i))
			return n
		}
		put := func(lj int, n *ds.Node[int]) {
			lists[lj].AddNodeFront(n)
			model[lj] = append([]*ds.Node[int]{n}, model[lj]...)
			hist = append(hist, fmt.Sprintf("%d.addnode", lj))
		}
		switch op := c.intn(0, 8, "op"); {
		case op < 3:
			n := l.AddDataFront(next)
			if n == nil || n.Data != next {
				c.Fail("%v: AddDataFront(%d) gave %v", hist, next, n)
			}
			model[li] = append([]*ds.Node[int]{n}, model[li]...)
			hist = append(hist, fmt.Sprintf("%d.add", li))
			next++
		case op < 5:
			if len(model[li]) > 0 {
				free = append(free, take())
			}
		case op < 7: // move, possibly within the list
			if len(model[li]) > 0 {
				put(c.intn(0, nl-1, "to"), take())
			}
		case op == 7:
			if len(free) > 0 {
				n := free[len(free)-1]
				free = free[:len(free)-1]
				put(li, n)
			}
		case op == 8:
			if c.chance(3, "clear") {
				l.Clear()
				free = append(free, model[li]...)
				model[li] = nil
				hist = append(hist, fmt.Sprintf("%d.clear", li))
			}
		}
		for i := range lists {
			c.checkList(&lists[i], model[i], hist)
		}
	}
	if removed >= 2 {
		c.NonTrivial(hist)
		c.Sample("list: %v", hist)
	}
}

func (c *C) checkList(l *ds.LinkedList[int], want []*ds.Node[int], hist []string) {
	cur := l.Head()
	var last *ds.Node[int]
	for i, w := range want {
		if cur != w {
			c.Fail("%v: wrong node at %d", hist, i)
		}
		last = cur
		cur = cur.Next()
	}
	if cur != nil {
		c.Fail("%v: list goes on after %d nodes", hist, len(want))
	}
	for i := len(want) - 1; i >= 0; i-- {
		if last != want[i] {
			c.Fail("%v: wrong node at %d, going backwards", hist, i)
		}
		last = last.Prev()
	}
	if last != nil {
		c.Fail("%v: list goes on before its head", hist)
	}
}

// ============================================================================
// P33 ========================================================================

func p33Segments(c *C) {
	size := int64(c.intn(1, 50, "size"))
	var n int64
	switch c.intn(0, 2, "len kind") {
	case 0:
		n = size*int64(c.intn(0, 6, "segments")) + int64(c.intn(-1, 1, "off"))
	default:
		n = int64(c.intn(0, 300, "len"))
	}
	if c.chance(20, "huge size") {
		size = pick(c, "size", int64(1000), 1<<31, 1<<40, math.MaxInt64)
	}
	n = max(0, n)
	data := content(c.seed("data"), n)
	keep := append([]byte(nil), data...)
	segs := utils.SegmentData(data, size)
	desc := fmt.Sprintf("SegmentData(%d bytes, %d)", n, size)
	var all []byte
	for i, s := range segs {
		if int64(len(s)) > size || i < len(segs)-1 && int64(len(s)) != size || len(s) == 0 {
			c.Fail("%s: segment %d of %d has %d bytes", desc, i, len(segs), len(s))
		}
		all = append(all, s...)
	}
	if !bytes.Equal(all, keep) || !bytes.Equal(data, keep) {
		c.Fail("%s: concatenation has %d bytes, or other ones", desc, len(all))
	}
	var want strings.Builder
	for _, s := range segs {
		h := sha1.Sum(s)
		want.Write(h[:])
		if utils.SHA1(s) != string(h[:]) {
			c.Fail("SHA1 of %d bytes is wrong", len(s))
		}
	}
	if utils.HashSlices(segs) != want.String() {
		c.Fail("%s: hashes of the segments are wrong", desc)
	}
	// Of any slices, empty ones too
	var slices [][]byte
	want.Reset()
	for k := c.intn(0, 5, "slices"); k > 0; k-- {
		x := c.bytes(0, 4, "slice")
		if len(x) == 0 && c.bool("nil") {
			x = nil
		}
		if c.chance(3, "part") {
			// Slices may overlap
			from := c.intn(0, len(data), "from")
			x = data[from:c.intn(from, len(data), "to")]
		}
		slices = append(slices, x)
		h := sha1.Sum(x)
		want.Write(h[:])
	}
	utils.HashSlices(slices)
	if len(slices) > 0 && len(slices[0]) > 0 {
		// Other contents in the same place
		x := slices[0]
		x[c.intn(0, len(x)-1, "changed")] ^= 1
		want.Reset()
		for _, x := range slices {
			h := sha1.Sum(x)
			want.Write(h[:])
		}
	}
	if got := utils.HashSlices(slices); got != want.String() {
		c.Fail("HashSlices(%q) is %x, want %x", slices, got, want.String())
	}
	if n > size && n%size != 0 {
		c.NonTrivial("seg", n, size, string(data))
		c.Sample("%s: %d segments", desc, len(segs))
	}
}

// p33Large has up to megabytes of data, in few segments or in very many.
func p33Large(c *C) {
	n := int64(1)<<uint(15+c.index%8) + int64(c.intn(-2, 3000, "off"))
	size := pick(c, "size", int64(1), 3, 16, 1000, 1<<16, 1<<20) + int64(c.intn(0, 2, "more"))
	size = max(size, n>>18)
	data := content(c.seed("data"), n)
	desc := fmt.Sprintf("SegmentData(%d bytes, %d)", n, size)
	segs := utils.SegmentData(data, size)
	if want := (n + size - 1) / size; int64(len(segs)) != want {
		c.Fail("%s: %d segments, want %d", desc, len(segs), want)
	}
	pos := int64(0)
	var hashes []byte
	for i, s := range segs {
		if want := min(size, n-pos); int64(len(s)) != want || !bytes.Equal(s, data[pos:pos+want]) {
			c.Fail("%s: segment %d has %d bytes, or others than the data at %d", desc, i, len(s), pos)
		}
		pos += int64(len(s))
		h := sha1.Sum(s)
		if utils.SHA1(s) != string(h[:]) {
			c.Fail("SHA1 of %d bytes is wrong", len(s))
		}
		hashes = append(hashes, h[:]...)
	}
	if got := utils.HashSlices(segs); got != string(hashes) {
		c.Fail("%s: hashes of the segments are wrong (%d bytes, want %d)", desc, len(got), len(hashes))
	}
	h := sha1.Sum(data)
	if utils.SHA1(data) != string(h[:]) {
		c.Fail("SHA1 of %d bytes is wrong", n)
	}

	// A long slice
	s := make([]int64, n)
	for i := range s {
		s[i] = int64(i)
	}
	i := pick(c, "index", 0, 1<<15, 1<<16, n/2, n-1) + int64(c.intn(-1, 1, "off"))
	i = max(0, min(i, n-1))
	got := utils.RemoveSwap(s, i)
	if int64(len(got)) != n-1 {
		c.Fail("RemoveSwap of one of %d elements left %d", n, len(got))
	}
	seen := make([]bool, n)
	for _, x := range got {
		if x < 0 || x >= n || x == i || seen[x] {
			c.Fail("RemoveSwap of element %d of %d left element %d (again)", i, n, x)
		}
		seen[x] = true
	}
	c.NonTrivial("large", n, size, i)
	c.Sample("%s: %d segments", desc, len(segs))
}

func p33RemoveSwap(c *C) {
	n := c.intn(1, 12, "len")
	s := make([]int, n, n+c.intn(0, 2, "room"))
	for i := range s {
		s[i] = c.intn(0, 5, "value")
	}
	i := c.intn(0, n-1, "index")
	want := append(append([]int{}, s[:i]...), s[i+1:]...)
	desc := fmt.Sprintf("RemoveSwap(%v, %d)", s, i)
	got := append([]int{}, utils.RemoveSwap(s, int64(i))...)
	g := append([]int{}, got...)
	sort.Ints(g)
	sort.Ints(want)
	if fmt.Sprint(g) != fmt.Sprint(want) {
		c.Fail("%s gave %v", desc, got)
	}
	if n >= 2 {
		c.NonTrivial(desc)
		c.Sample("%s", desc)
	}
}

func p33PeerId(c *C) {
	n := c.intn(1, 50, "n")
	ids := map[string]bool{}
	for k := 0; k < n; k++ {
		id := utils.NewPeerId()
		ids[id] = true
		if len(id) != 20 || !strings.HasPrefix(id, "-GT0000-") {
			c.Fail("peer id %q", id)
		}
		for _, b := range []byte(id[8:]) {
			if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z') {
				c.Fail("peer id %q", id)
			}
		}
		c.NonTrivial(id)
	}
	// They are drawn at random
	if 2*len(ids) < n {
		c.Fail("only %d of %d peer ids differ", len(ids), n)
	}
}

func p33Sizes(c *C) {
	var n int64
	switch c.intn(0, 3, "kind") {
	case 0:
		n = int64(c.intn(0, 5000, "n"))
	case 1: // around a power of 1024
		n = int64(1)<<uint(10*c.intn(0, 6, "exp")) + int64(c.intn(-3, 3, "off"))
	case 2:
		n = int64(c.intn(1, 1023, "m")) << uint(10*c.intn(0, 5, "exp"))
	default:
		n = c.i64("n")
	}
	if n < 0 {
		n = -(n + 1)
	}
	v, unit := utils.Bytes4Humans(n)
	exp := -1
	for i, u := range []string{"B", "KiB", "MiB", "GiB", "TiB", "PiB", "EiB"} {
		if u == unit {
			exp = i
		}
	}
	if exp < 0 {
		c.Fail("Bytes4Humans(%d) has unit %q", n, unit)
	}
	back := v * math.Pow(1024, float64(exp))
	if math.Abs(back-float64(n)) > math.Abs(float64(n))*1e-12 {
		c.Fail("Bytes4Humans(%d) is %v %s", n, v, unit)
	}
	want := 0
	for x := n; x >= 1024; x /= 1024 {
		want++
	}
	// Floating point numbers do not tell large sizes from the next unit
	if exp != want && !(n > 1<<50 && exp == want+1 && v == 1) {
		c.Fail("Bytes4Humans(%d) is %v %s, which is the wrong unit", n, v, unit)
	}
	if n >= 1024 {
		c.NonTrivial("size", n)
		c.Sample("Bytes4Humans(%d) = %v %s", n, v, unit)
	}
}
