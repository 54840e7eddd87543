package main

import (
	"bytes"
	"crypto/sha1"
	"errors"
	"fmt"
	stdio "io"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"syscall"

	"gotor/swarm"
	"gotor/torrent/fileio"
	"gotor/torrent/info"
	"gotor/utils"
)

// Files of several GiB, almost all of which is holes.

// spot is data somewhere in otherwise empty content.
type spot struct {
	off  int64
	data []byte
}

// spots are the data of some content. Later ones lie over earlier ones.
type spots []spot

func (s *spots) put(off int64, data []byte) {
	*s = append(*s, spot{off, append([]byte(nil), data...)})
}

// get returns the bytes from off on.
func (s spots) get(off, n int64) []byte {
	out := make([]byte, n)
	for _, x := range s {
		from, to := max(off, x.off), min(off+n, x.off+int64(len(x.data)))
		if from < to {
			copy(out[from-off:to-off], x.data[from-x.off:])
		}
	}
	return out
}

// cut forgets what lies in [off, off+n) and moves nothing.
func (s *spots) cut(off, n int64) {
	if n > 0 {
		var out spots
		for _, x := range *s {
			if a := min(int64(len(x.data)), off-x.off); a > 0 {
				out = append(out, spot{x.off, x.data[:a]})
			}
			if b := max(0, off+n-x.off); b < int64(len(x.data)) {
				out = append(out, spot{x.off + b, x.data[b:]})
			}
		}
		*s = out
	}
}

// makeHoles makes a file that is one hole.
func makeHoles(path string, n int64) {
	mustWrite(path, nil)
	if e := os.Truncate(path, n); e != nil {
		harnessError("%v", e)
	}
}

// putAt writes into a file that is there.
func putAt(path string, off int64, data []byte) {
	f, e := os.OpenFile(path, os.O_WRONLY, 0)
	if e == nil {
		_, e = f.WriteAt(data, off)
		_ = f.Close()
	}
	if e != nil {
		harnessError("%v", e)
	}
}

// checkHoles compares a file that is mostly holes with what should be in it.
func (c *C) checkHoles(path string, length int64, want func(off, n int64) []byte, known spots, when string) {
	f, e := os.Open(path)
	if e != nil {
		c.Fail("%s: %v", when, e)
	}
	defer f.Close()
	fi, e := f.Stat()
	if e != nil {
		harnessError("%v", e)
	}
	if fi.Size() != length {
		c.Fail("%s: %s has %d bytes instead of %d", when, filepath.Base(path), fi.Size(), length)
	}
	cmp := func(off, n int64) {
		for n > 0 {
			k := min(n, 1<<20)
			got := make([]byte, k)
			if _, e := f.ReadAt(got, off); e != nil {
				c.Fail("%s: %s cannot be read at %d: %v", when, filepath.Base(path), off, e)
			}
			if w := want(off, k); !bytes.Equal(got, w) {
				i := int64(0)
				for got[i] == w[i] {
					i++
				}
				c.Fail("%s: %s has %d at byte %d instead of %d", when, filepath.Base(path), got[i], off+i, w[i])
			}
			off, n = off+k, n-k
		}
	}
	const seekData, seekHole = 3, 4
	for off := int64(0); off < length; {
		from, e := syscall.Seek(int(f.Fd()), off, seekData)
		if errors.Is(e, syscall.ENXIO) {
			break // Only a hole is left
		}
		if e != nil {
			harnessError("SEEK_DATA: %v", e)
		}
		to, e := syscall.Seek(int(f.Fd()), from, seekHole)
		if e != nil {
			harnessError("SEEK_HOLE: %v", e)
		}
		cmp(from, to-from)
		off = to
	}
	for _, x := range known {
		if n := min(int64(len(x.data)), length-x.off); n > 0 {
			cmp(x.off, n)
		}
	}
}

// bigLen draws a length around one where 31 or 32 bits are used up.
func (c *C) bigLen(label string, least, most int64) int64 {
	n := pick(c, label, int64(1)<<31, 1<<32, 1<<32, 1<<32+1<<31, 1<<33, 5e9)
	switch c.intn(0, 2, label+" kind") {
	case 0:
		n += int64(c.intn(-3, 3, label+" off"))
	case 1:
		n += int64(c.intn(-1<<22, 1<<22, label+" off"))
	default:
		n += int64(c.intn(0, 1<<30, label+" more"))
	}
	return max(least, min(n, most))
}

// bigTor draws a torrent of several GiB with hashes of nothing, and makes files
// for it that are holes.
func (c *C) bigTor(dir string, pieceLen, most int64) *tor {
	t := &tor{announce: "http://127.0.0.1:1/announce", name: "big", pieceLen: pieceLen}
	t.single = c.chance(3, "single")
	if t.single {
		t.total = c.bigLen("length", 1<<32+1, most)
		t.files = []tfile{{[]string{t.name}, t.total}}
	} else {
		for k := c.intn(1, 4, "files"); k >= 0; k-- {
			n := c.bigLen("length", 1, most)
			if c.chance(3, "small") {
				n = int64(c.intn(0, 1<<21, "small length"))
			}
			n = min(n, most-t.total)
			t.files = append(t.files, tfile{[]string{fmt.Sprintf("f%d", k)}, n})
			t.total += n
		}
		if short := 1<<32 + 5 - t.total; short > 0 {
			t.files = append(t.files, tfile{[]string{"rest"}, short})
			t.total += short
		}
	}
	for i, f := range t.files {
		makeHoles(filepath.Join(dir, t.path(i)), f.length)
	}
	return t
}

// bigPieces draws pieces of t, mostly at places that are telling.
func (c *C) bigPieces(t *tor, most int) []int64 {
	at := []int64{0, t.total - 1, 1 << 31, 1 << 32, 1<<31 - 1, 1<<32 - 1, 1<<32 + t.pieceLen}
	off := int64(0)
	for _, f := range t.files {
		off += f.length
		at = append(at, off, off-1, off-f.length+1<<31, off-f.length+1<<32)
	}
	seen := map[int64]bool{}
	var out []int64
	for k := c.intn(2, most, "pieces"); k > 0; k-- {
		i := int64(0)
		if c.chance(4, "any piece") {
			i = int64(c.intn(0, int(t.npieces()-1), "piece"))
		} else {
			i = pick(c, "at", at...) / t.pieceLen
		}
		if i = max(0, min(i, t.npieces()-1)); !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

// setHash makes data the right one for piece i.
func (t *tor) setHash(i int64, data []byte) {
	h := sha1.Sum(data)
	t.hashes = t.hashes[:20*i] + string(h[:]) + t.hashes[20*i+20:]
}

// checkBigDisk compares all the files of t.
func (c *C) checkBigDisk(t *tor, dir string, model spots, when string) {
	off := int64(0)
	for i, f := range t.files {
		start := off
		var known spots
		for _, x := range model {
			from, to := max(x.off, off), min(x.off+int64(len(x.data)), off+f.length)
			if from < to {
				known = append(known, spot{from - off, x.data[from-x.off : to-x.off]})
			}
		}
		c.checkHoles(filepath.Join(dir, t.path(i)), f.length, func(o, n int64) []byte { return model.get(start+o, n) }, known, when)
		off += f.length
	}
}

// p08Big stores and reads pieces of torrents that have more bytes than 32 bits
// can count.
func p08Big(c *C) {
	dir, done := tempDir()
	defer done()
	pieceLen, most := pick(c, "pieceLen", int64(1)<<20, 1<<21, 1<<22, 1<<20+1, 3<<20-7, 1<<21-1), 7
	if c.index%8 == 7 { // Long pieces
		pieceLen, most = int64(1)<<uint(22+c.index/8%5)+int64(c.intn(-1, 300, "more")), 3
	}
	t := c.bigTor(dir, pieceLen, 12<<30)
	t.fakeHashes(c.seed("hashes"))
	pieces := c.bigPieces(t, most)
	seed := c.seed("content")
	data := map[int64][]byte{}
	for _, i := range pieces {
		data[i] = content(seed+uint64(i), t.plen(i))
		t.setHash(i, data[i])
	}
	var model spots
	// Something was there before
	for k := c.intn(0, 4, "old"); k > 0; k-- {
		off := t.total - 1 - int64(c.intn(0, int(t.total-1), "old at"))
		old := content(c.seed("old data"), min(int64(c.intn(1, 9000, "old length")), t.total-off))
		start := int64(0)
		for i, f := range t.files {
			from, to := max(off, start), min(off+int64(len(old)), start+f.length)
			if from < to {
				putAt(filepath.Join(dir, t.path(i)), from-start, old[from-off:to-off])
			}
			start += f.length
		}
		model.put(off, old)
	}
	ti := c.torInfoOf(t, dir)
	open := func() *fileio.FileIO {
		fio := fileio.NewFileIO(ti)
		if e := fio.OCATAll(ti.Files()); e != nil {
			c.Fail("OCATAll(%s): %v", t, e)
		}
		return fio
	}
	fio := open()
	defer func() { _ = fio.CloseAll() }()
	read := func(i int64) {
		buf := bytes.Repeat([]byte{0xEE}, int(t.pieceLen))
		n, e := fio.ReadPiece(i, buf)
		if e != nil || n != t.plen(i) {
			c.Fail("ReadPiece(%d) of %s: %d bytes, want %d, error %v", i, t, n, t.plen(i), e)
		}
		if !bytes.Equal(buf[:n], model.get(i*t.pieceLen, n)) {
			c.Fail("ReadPiece(%d) of %s: wrong bytes", i, t)
		}
	}
	for _, i := range pieces {
		if n, e := fio.WritePiece(i, append([]byte(nil), data[i]...)); e != nil || n != t.plen(i) {
			c.Fail("WritePiece(%d) of %s: %d bytes, want %d, error %v", i, t, n, t.plen(i), e)
		}
		model.put(i*t.pieceLen, data[i])
		read(i)
	}
	c.checkBigDisk(t, dir, model, fmt.Sprintf("after pieces %v of %s were stored", pieces, t))
	if c.bool("reopen") {
		if e := fio.CloseAll(); e != nil {
			c.Fail("CloseAll: %v", e)
		}
		fio = open()
	}
	for _, i := range append(pieces, c.bigPieces(t, 4)...) {
		read(i)
	}
	c.checkBigDisk(t, dir, model, fmt.Sprintf("after pieces %v of %s were read", pieces, t))
	c.NonTrivial("big", t.String(), pieces, seed)
	c.Sample("%s: %v", t, pieces)
}

// p10Big prepares files of several GiB, most of which are there.
func p10Big(c *C) {
	dir, done := tempDir()
	defer done()
	path := filepath.Join(dir, "d", "f")
	length := c.bigLen("length", 0, 12<<30)
	old := length
	switch c.intn(0, 3, "old kind") {
	case 0: // The same
	case 1: // A little shorter
		old = max(0, length-int64(c.intn(1, 3<<20, "shorter by")))
	case 2: // A little longer
		old = length + int64(c.intn(1, 3<<20, "longer by"))
	case 3: // Longer
		old = length + c.bigLen("longer by", 1, 8<<30)
	}
	makeHoles(path, old)
	var model spots
	put := func(off int64) {
		off = max(0, min(off, old-1))
		data := content(c.seed("data"), min(int64(c.intn(1, 5000, "data length")), old-off))
		putAt(path, off, data)
		model.put(off, data)
	}
	for k := c.intn(0, 4, "data"); k > 0; k-- {
		switch c.intn(0, 2, "data at") {
		case 0:
			put(int64(c.intn(0, int(old-1), "at")))
		case 1:
			put(length - int64(c.intn(1, 5000, "before the end")))
		case 2:
			put(pick(c, "round", int64(0), 1<<31, 1<<32, 1<<32-1, 1<<31-1) + int64(c.intn(-5000, 5, "off")))
		}
	}
	model.cut(length, math.MaxInt64-length)
	desc := fmt.Sprintf("OCAT(%d), %d bytes before", length, old)
	check := func(when string) {
		c.checkHoles(path, length, model.get, model, desc+": "+when)
	}
	f, e := utils.OCAT(path, length)
	if e != nil {
		c.Fail("%s: %v", desc, e)
	}
	check("prepared")
	at := int64(c.intn(0, int(length-1), "write at"))
	patch := content(c.seed("patch"), min(length-at, 30))
	if _, e := f.WriteAt(patch, at); e != nil {
		c.Fail("%s: handle cannot write: %v", desc, e)
	}
	model.put(at, patch)
	_ = f.Close()
	check("after a write")
	f, e = utils.OCAT(path, length)
	if e != nil {
		c.Fail("%s again: %v", desc, e)
	}
	got := make([]byte, len(patch))
	if _, e := f.ReadAt(got, at); e != nil && e != stdio.EOF || !bytes.Equal(got, patch) {
		c.Fail("%s: handle reads %x at %d instead of %x: %v", desc, got, at, patch, e)
	}
	_ = f.Close()
	check("again")
	if old != length {
		c.NonTrivial("big", desc, model)
		c.Sample("%s", desc)
	}
}

// bigWorld starts a client on several GiB, mostly zeros. It owns all but a few
// pieces.
func (c *C) bigWorld(missing int) *world {
	clearSess()
	// All files are read at start, so there is not much above 4 GiB
	t := c.bigTor(sessDir, pick(c, "pieceLen", int64(1)<<22, 1<<23, 5000001), 1<<32+50000000)
	np := t.npieces()
	t.zeroHashes()
	var model spots
	seed := c.seed("content")
	for _, i := range append(c.bigPieces(t, 8), np-1) {
		data := content(seed+uint64(i), t.plen(i))
		t.setHash(i, data)
		model.put(i*t.pieceLen, data)
		t.putPiece(sessDir, i, data)
	}
	w := &world{c: c, t: t, owned: t.ownAll()}
	t.big = func(i int64) []byte { return model.get(i*t.pieceLen, t.plen(i)) }
	for ; missing > 0; missing-- {
		i := int64(c.intn(0, int(np-1), "missing"))
		t.setHash(i, []byte("no"))
		w.owned[i] = false
	}
	t.announce = theTracker.base + "/announce"
	mustWrite(sessTorrent, t.encode())
	theTracker.set(refEncode(answer(60, nil)), false, false)
	sw, e := swarm.NewSwarm(utils.GetOpts())
	if e != nil {
		c.Fail("the client does not start: %v\n%s", e, t)
	}
	w.sw, w.id = sw, sw.Id
	return w
}

func dropBig() { clearSess() }

// p12Big starts a client with more bytes than 32 bits can count.
func p12Big(c *C) {
	defer dropBig()
	w := c.bigWorld(c.intn(1, 6, "missing"))
	defer w.close()
	t := w.t
	if c.bool("nothing") {
		// And once more with other files
		note("big", c.index)
		_ = w.sw.Fileio.CloseAll()
		clearSess()
		for i, f := range t.files {
			makeHoles(filepath.Join(sessDir, t.path(i)), f.length)
		}
		for i := range w.owned {
			w.owned[i] = false
		}
		t.fakeHashes(c.seed("hashes"))
		mustWrite(sessTorrent, t.encode())
		theTracker.set(refEncode(answer(60, nil)), false, false)
		sw, e := swarm.NewSwarm(utils.GetOpts())
		if e != nil {
			c.Fail("the client does not start: %v\n%s", e, t)
		}
		w.sw = sw
	}
	left := int64(0)
	for i, o := range w.owned {
		if got := w.sw.Bf.Get(int64(i)); got != o {
			c.Fail("piece %d of %d is intact %v, but counts as owned %v\n%s", i, len(w.owned), o, got, t)
		}
		if !o {
			left += t.plen(int64(i))
		}
	}
	reqs := theTracker.requests()
	if len(reqs) != 1 {
		c.Fail("%d announces", len(reqs))
	}
	if got := reqs[0].URL.Query()["left"]; len(got) != 1 || got[0] != strconv.FormatInt(left, 10) {
		c.Fail("left is announced as %v, it is %d of %d\n%s", got, left, t.total, t)
	}
	c.NonTrivial("big", t.String(), left)
	c.Sample("%s: %d of %d bytes left", t, left, t.total)
}

// p19Big asks for blocks that are far behind the start of the content.
func p19Big(c *C) {
	defer dropBig()
	w := c.bigWorld(1)
	defer w.close()
	s := w.incoming()
	s.send(w.handshake(c.peerId("id")))
	var reqs []wmsg
	for _, i := range append(c.bigPieces(w.t, 6), w.t.npieces()-1) {
		for k := c.intn(1, 3, "requests"); k > 0; k-- {
			p := int(w.t.plen(i))
			b := c.intn(0, p-1, "begin")
			reqs = append(reqs, wmsg{kind: 6, index: uint32(i), begin: uint32(b), reqlen: uint32(min(p-b, c.intn(1, 20000, "len")))})
		}
	}
	sort.Slice(reqs, func(i, j int) bool { return (i*7)%5 < (j*7)%5 })
	for _, r := range reqs {
		s.send(r.encode())
	}
	msg, timing := s.serve(reqs)
	c.check(msg, timing, w.t)
	c.NonTrivial("big", w.t.String(), reqs)
	c.Sample("%s: %v", w.t, reqs)
}

// p07Big creates metadata from more bytes than 32 bits can count.
func p07Big(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.bigTor(dir, pick(c, "pieceLen", int64(1)<<22, 1<<23, 5000001, 1<<26), 1<<32+50000000)
	t.zeroHashes()
	seed := c.seed("content")
	for _, i := range c.bigPieces(t, 6) {
		data := content(seed+uint64(i), t.plen(i))
		t.setHash(i, data)
		t.putPiece(dir, i, data)
	}
	var paths []string
	for _, f := range t.files {
		paths = append(paths, f.path[0])
	}
	ti, e := info.CreateTorInfo(paths, dir, t.name, t.pieceLen)
	if e != nil {
		c.Fail("CreateTorInfo(%s): %v", t, e)
	}
	c.checkFields(ti, t, dir)
	c.NonTrivial("big", t.String(), t.hashes)
	c.Sample("%s", t)
}

// zeroHashes are those of zeros.
func (t *tor) zeroHashes() {
	np := t.npieces()
	zero := sha1.Sum(make([]byte, t.pieceLen))
	last := sha1.Sum(make([]byte, t.plen(np-1)))
	t.hashes = string(bytes.Repeat(zero[:], int(np-1))) + string(last[:])
}

// putPiece writes a piece into the files, which are there.
func (t *tor) putPiece(dir string, i int64, data []byte) {
	start := int64(0)
	for k, f := range t.files {
		from, to := max(i*t.pieceLen, start), min(i*t.pieceLen+t.plen(i), start+f.length)
		if from < to {
			putAt(filepath.Join(dir, t.path(k)), from-start, data[from-i*t.pieceLen:to-i*t.pieceLen])
		}
		start += f.length
	}
}
