package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"gotor/torrent/fileio"
	"gotor/torrent/info"
	"gotor/utils"
)

func init() {
	register(&Prop{
		ID: "P08",
		Rule: "Histories of piece writes, re-writes, reads and reopenings over drawn file layouts and initial disk states, compared with an in-memory model after every step; " +
			"non-trivial: at least one write of a piece that spans files and one read after it (distinct by layout and history). Also files that are closed, cut short or fail under the client (sealed memory files), files that are released, and sparse torrents beyond 4 GiB.",
		Subs: []Sub{
			{"history", 6000, 60000, p08History},
			{"faults", 3000, 30000, p08Faults},
			{"big", 64, 800, p08Big},
		},
	})
	register(&Prop{
		ID: "P09",
		Rule: "Writes of wrong data (bit flips, truncations, extensions, other pieces' data, wrong indices, pieces whose hash was made from data of another length) followed by right ones; " +
			"non-trivial: wrong data of the right length or right data of the wrong length (distinct by layout and data). Checked on the disk after every write.",
		Subs: []Sub{{"refuse", 8000, 80000, p09Refuse}},
	})
	register(&Prop{
		ID: "P10",
		Rule: "Files absent, empty, shorter, equal or longer than wanted, lengths up to 3 MiB with 1 MiB boundaries, among other files; " +
			"non-trivial: the file exists with another length, or is made in a missing directory (distinct by lengths and content). Also paths that are blocked by files or directories, devices without space, files that refuse to grow, and sparse files beyond 4 GiB. Thousands of files at once.",
		Subs: []Sub{
			{"small", 12000, 120000, p10Small},
			{"large", 160, 1600, p10Large},
			{"all", 3000, 30000, p10All},
			{"blocked", 3000, 30000, p10Blocked},
			{"errors", 3000, 30000, p10Errors},
			{"big", 120, 1200, p10Big},
			{"many", 16, 160, p10Many},
		},
	})
	register(&Prop{
		ID:   "P11",
		Rule: "Goroutines read and write drawn sequences of pieces of one torrent at the same time, under the race detector; non-trivial: at least two goroutines use pieces that share a file (distinct by layout and schedule drawn).",
		Subs: []Sub{{"concurrent", 1200, 12000, p11Concurrent}},
	})
}

// torInfoOf makes metadata for a torrent whose files are in dir.
func (c *C) torInfoOf(t *tor, dir string) *info.TorInfo {
	ti, e := info.NewTorInfo(t.name, t.pieceLen, t.hashes, t.entries(dir))
	if e != nil {
		c.Fail("NewTorInfo(%s): %v", t, e)
	}
	return ti
}

// diskState puts the files of t into dir in any state, and returns what they
// hold once they were prepared.
func (c *C) diskState(t *tor, dir string) []byte {
	model := make([]byte, 0, t.total)
	for i, f := range t.files {
		kind := c.intn(0, 5, "disk")
		var data []byte
		switch kind {
		case 0: // absent
		case 1: // right
			data = t.fileContent(i)
		case 2: // anything of the right length
			data = content(c.seed("junk"), f.length)
		case 3: // shorter
			data = append([]byte(nil), t.fileContent(i)[:c.intn(0, int(f.length), "len")]...)
		case 4: // longer
			data = append(append([]byte(nil), t.fileContent(i)...), content(c.seed("junk"), int64(c.intn(1, 50, "more")))...)
		case 5: // damaged in one byte
			data = append([]byte(nil), t.fileContent(i)...)
			if len(data) > 0 {
				data[c.intn(0, len(data)-1, "where")] ^= 1 << uint(c.intn(0, 7, "bit"))
			}
		}
		if kind != 0 {
			mustWrite(filepath.Join(dir, t.path(i)), data)
		}
		c.Label("file %s", []string{"absent", "right", "other content", "shorter", "longer", "damaged"}[kind])
		part := make([]byte, f.length)
		copy(part, data)
		model = append(model, part...)
	}
	return model
}

// checkDisk compares the files with the model.
func (c *C) checkDisk(t *tor, dir string, model []byte, when string) {
	off := int64(0)
	for i, f := range t.files {
		got, e := os.ReadFile(filepath.Join(dir, t.path(i)))
		if e != nil {
			c.Fail("%s: file %d cannot be read: %v", when, i, e)
		}
		want := model[off : off+f.length]
		if !bytes.Equal(got, want) {
			at := 0
			for at < len(got) && at < len(want) && got[at] == want[at] {
				at++
			}
			c.Fail("%s: file %d (%s) differs from byte %d on (%d bytes, want %d)\n%s", when, i, t.path(i), at, len(got), len(want), t)
		}
		off += f.length
	}
}

// ============================================================================
// P08 ========================================================================

func p08History(c *C) {
	t := c.torShape(600, 6000)
	t.makeContent(c.seed("content"))
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	model := c.diskState(t, dir)
	mustWrite(filepath.Join(dir, "unrelated"), []byte("stay"))

	open := func() *fileio.FileIO {
		fio := fileio.NewFileIO(ti)
		if e := fio.OCATAll(ti.Files()); e != nil {
			c.Fail("OCATAll(%s): %v", t, e)
		}
		return fio
	}
	fio := open()
	defer func() { _ = fio.CloseAll() }()
	c.checkDisk(t, dir, model, "after opening")

	np := t.npieces()
	spans := func(i int64) bool {
		off := int64(0)
		n := 0
		for _, f := range t.files {
			if f.length > 0 && off < i*t.pieceLen+t.plen(i) && off+f.length > i*t.pieceLen {
				n++
			}
			off += f.length
		}
		return n > 1
	}
	read := func(i int64) {
		extra := int64(c.intn(0, 3, "extra"))
		buf := bytes.Repeat([]byte{0xEE}, int(t.plen(i)+extra))
		if c.bool("full buffer") && t.pieceLen < 1<<16 {
			buf = bytes.Repeat([]byte{0xEE}, int(t.pieceLen+extra))
		}
		n, e := fio.ReadPiece(i, buf)
		if e != nil || n != t.plen(i) {
			c.Fail("ReadPiece(%d) of %s: %d bytes, want %d, error %v", i, t, n, t.plen(i), e)
		}
		if want := model[i*t.pieceLen : i*t.pieceLen+n]; !bytes.Equal(buf[:n], want) {
			c.Fail("ReadPiece(%d) of %s: wrong bytes", i, t)
		}
	}
	write := func(i int64) {
		data := append([]byte(nil), t.piece(i)...)
		n, e := fio.WritePiece(i, data)
		if e != nil || n != t.plen(i) {
			c.Fail("WritePiece(%d) of %s: %d bytes, want %d, error %v", i, t, n, t.plen(i), e)
		}
		if !bytes.Equal(data, t.piece(i)) {
			c.Fail("WritePiece(%d) changed the data given to it", i)
		}
		copy(model[i*t.pieceLen:], data)
	}

	var hist []string
	spanned, after := false, false
	nops := c.intn(0, 25, "ops")
	for k := 0; k < nops && np > 0; k++ {
		i := int64(c.intn(0, int(np-1), "piece"))
		if c.chance(5, "last") {
			i = np - 1
		}
		switch op := c.intn(0, 9, "op"); {
		case op < 4:
			write(i)
			hist = append(hist, fmt.Sprint("w", i))
			c.checkDisk(t, dir, model, fmt.Sprintf("after WritePiece(%d)", i))
			spanned = spanned || spans(i)
		case op < 8:
			read(i)
			hist = append(hist, fmt.Sprint("r", i))
			after = after || spanned
		case op == 8:
			if e := fio.CloseAll(); e != nil {
				c.Fail("CloseAll: %v", e)
			}
			c.checkDisk(t, dir, model, "after closing")
			fio = open()
			hist = append(hist, "reopen")
			c.checkDisk(t, dir, model, "after reopening")
		case op == 9: // refused writes leave no trace
			bad := append([]byte(nil), t.piece(i)...)
			bad[c.intn(0, len(bad)-1, "where")] ^= 0x10
			if _, e := fio.WritePiece(i, bad); e == nil {
				c.Fail("WritePiece(%d) accepted wrong data", i)
			}
			c.checkDisk(t, dir, model, "after a refused write")
		}
	}
	if c.bool("complete") {
		// All pieces, in some order
		order := make([]int64, np)
		for i := range order {
			order[i] = int64(i)
		}
		for i := len(order) - 1; i > 0; i-- {
			j := c.intn(0, i, "order")
			order[i], order[j] = order[j], order[i]
		}
		for _, i := range order {
			write(i)
			spanned = spanned || spans(i)
		}
		c.checkDisk(t, dir, t.content, "after all pieces were stored")
		for i := int64(0); i < np; i++ {
			read(i)
			after = after || spanned
		}
		hist = append(hist, "all")
		c.Label("complete")
	}
	if got, e := os.ReadFile(filepath.Join(dir, "unrelated")); e != nil || string(got) != "stay" {
		c.Fail("an unrelated file was touched: %q, %v", got, e)
	}
	if spanned && after {
		c.NonTrivial(t.String(), t.hashes, hist)
		c.Sample("%s: %v", t, hist)
	}
}

// p08Faults reads and writes pieces of files that are cut short, closed or moved
// meanwhile. What cannot be read or written must be reported, and the rest
// stays as it was.
func p08Faults(c *C) {
	t := c.torShape(600, 6000)
	t.makeContent(c.seed("content"))
	if t.total == 0 {
		c.Discard("no content")
		return
	}
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	t.store(dir)

	type state struct {
		at     string
		data   []byte
		closed bool
		start  int64
		mem    *os.File // Can be made to refuse writes
		sealed bool
	}
	files := make([]*state, len(t.files))
	off := int64(0)
	for i, f := range t.files {
		files[i] = &state{at: filepath.Join(dir, t.path(i)), data: append([]byte(nil), t.fileContent(i)...), start: off}
		off += f.length
	}
	for _, s := range files {
		if len(s.data) > 0 && c.chance(4, "in memory") {
			s.mem = memfile(s.at, s.data)
			defer s.mem.Close()
		}
	}
	fio := fileio.NewFileIO(ti)
	if e := fio.OCATAll(ti.Files()); e != nil {
		c.Fail("OCATAll(%s): %v", t, e)
	}
	defer func() { _ = fio.CloseAll() }()

	var hist []string
	check := func() {
		for i, s := range files {
			got, e := os.ReadFile(s.at)
			if e != nil || !bytes.Equal(got, s.data) {
				c.Fail("after %v: file %d at %q has %d bytes, want %d, or others (%v)\n%s", hist, i, s.at, len(got), len(s.data), e, t)
			}
		}
	}
	// over calls f with the parts of a piece, by file
	over := func(i int64, f func(s *state, from, to, at int64)) {
		a, b := i*t.pieceLen, i*t.pieceLen+t.plen(i)
		for k, s := range files {
			x, y := max(a, s.start), min(b, s.start+t.files[k].length)
			if x < y {
				f(s, x-s.start, y-s.start, x-a)
			}
		}
	}
	np := t.npieces()
	faulty := false
	for n := c.intn(2, 20, "ops"); n > 0; n-- {
		i := int64(c.intn(0, int(np-1), "piece"))
		k := c.intn(0, len(files)-1, "file")
		s := files[k]
		name := filepath.Join(dir, t.path(k))
		switch op := c.intn(0, 9, "op"); {
		case op < 3:
			hist = append(hist, fmt.Sprint("r", i))
			closed, missing := false, false
			want := make([]byte, t.plen(i))
			over(i, func(s *state, from, to, at int64) {
				closed = closed || s.closed
				missing = missing || to > int64(len(s.data))
				if from < int64(len(s.data)) {
					copy(want[at:at+to-from], s.data[from:])
				}
			})
			buf := bytes.Repeat([]byte{0xEE}, int(t.plen(i)))
			got, e := fio.ReadPiece(i, buf)
			switch {
			case closed || missing:
				faulty = true
				if e == nil {
					c.Fail("%v: ReadPiece(%d) reports no error (in a closed file %v, bytes missing %v)\n%s", hist, i, closed, missing, t)
				}
			case (e != nil || got != t.plen(i)) && !c.emptyClosed(t, i, func(k int) bool { return files[k].closed }):
				c.Fail("%v: ReadPiece(%d): %d bytes, want %d, error %v\n%s", hist, i, got, t.plen(i), e, t)
			case e == nil && !bytes.Equal(buf, want):
				c.Fail("%v: ReadPiece(%d): wrong bytes\n%s", hist, i, t)
			}
		case op < 6:
			hist = append(hist, fmt.Sprint("w", i))
			closed := false
			over(i, func(s *state, _, _, _ int64) { closed = closed || s.closed || s.sealed })
			data := append([]byte(nil), t.piece(i)...)
			got, e := fio.WritePiece(i, data)
			if closed {
				faulty = true
				if e == nil {
					c.Fail("%v: WritePiece(%d) into a closed or failing file reports no error\n%s", hist, i, t)
				}
			} else if (e != nil || got != t.plen(i)) && !c.emptyClosed(t, i, func(k int) bool { return files[k].closed }) {
				c.Fail("%v: WritePiece(%d): %d bytes, want %d, error %v\n%s", hist, i, got, t.plen(i), e, t)
			}
			over(i, func(s *state, from, to, at int64) {
				if e != nil {
					// The open files of the piece may have been written or not
					now, e := os.ReadFile(s.at)
					if e != nil {
						harnessError("%v", e)
					}
					if s.closed || s.sealed || bytes.Equal(now, s.data) {
						return
					}
				}
				for int64(len(s.data)) < to {
					s.data = append(s.data, 0)
				}
				copy(s.data[from:to], data[at:])
			})
		case op == 6:
			if s.mem != nil && !s.sealed {
				hist = append(hist, fmt.Sprint("fail", k))
				seal(s.mem, sealWrite)
				s.sealed = true
			}
			if len(s.data) == 0 || s.sealed {
				continue
			}
			m := c.intn(0, len(s.data)-1, "length")
			hist = append(hist, fmt.Sprintf("cut%d:%d", k, m))
			if e := os.Truncate(s.at, int64(m)); e != nil {
				harnessError("%v", e)
			}
			s.data = s.data[:m:m]
		case op == 7:
			hist = append(hist, fmt.Sprint("close", k))
			if e := fio.Close(name); (e == nil) == s.closed {
				c.Fail("%v: Close(%q): %v (closed before: %v)", hist, name, e, s.closed)
			}
			s.closed = true
		case op == 8:
			to := filepath.Join(dir, fmt.Sprint("moved", len(hist)))
			if s.at != name {
				continue
			}
			hist = append(hist, fmt.Sprint("move", k))
			if e := fio.Move(name, to); e != nil {
				c.Fail("%v: Move(%q, %q): %v", hist, name, to, e)
			}
			s.at = to
		case op == 9:
			unknown := pick(c, "unknown", "", "/", name+"x", filepath.Dir(name), filepath.Join(dir, "none"))
			known := false
			for k := range files {
				known = known || unknown == filepath.Join(dir, t.path(k))
			}
			if known {
				continue
			}
			hist = append(hist, "unknown")
			if e := fio.Close(unknown); e == nil {
				c.Fail("Close(%q), which is no file of %s, reports no error", unknown, t)
			}
			if e := fio.Move(unknown, filepath.Join(dir, "other")); e == nil {
				c.Fail("Move(%q), which is no file of %s, reports no error", unknown, t)
			}
		}
		check()
	}
	anyClosed := false
	for _, s := range files {
		anyClosed = anyClosed || s.closed
	}
	if !anyClosed && c.bool("close all") {
		hist = append(hist, "close all")
		if e := fio.CloseAll(); e != nil {
			c.Fail("%v: CloseAll: %v\n%s", hist, e, t)
		}
		if open := openBelow(dir); len(open) > 0 {
			c.Fail("%v: still open: %q\n%s", hist, open, t)
		}
		for i := int64(0); i < np; i++ {
			if _, e := fio.ReadPiece(i, make([]byte, t.plen(i))); e == nil {
				c.Fail("%v: ReadPiece(%d) reports no error\n%s", hist, i, t)
			}
			if _, e := fio.WritePiece(i, append([]byte(nil), t.piece(i)...)); e == nil {
				c.Fail("%v: WritePiece(%d) reports no error\n%s", hist, i, t)
			}
		}
		check()
	}
	if faulty {
		c.NonTrivial("f", t.String(), hist)
		c.Sample("%s: %v", t, hist)
	}
}

// openBelow lists the files below dir that this process has open.
func openBelow(dir string) []string {
	var out []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		p, e := os.Readlink("/proc/self/fd/" + fd.Name())
		if e == nil && strings.HasPrefix(p, dir+"/") {
			out = append(out, p)
		}
	}
	return out
}

// emptyClosed tells whether an empty file at a border of piece i, or inside it,
// is closed. It has no bytes of the piece, but may be opened for it.
func (c *C) emptyClosed(t *tor, i int64, closed func(int) bool) bool {
	off := int64(0)
	for k, f := range t.files {
		if f.length == 0 && off >= i*t.pieceLen && off <= i*t.pieceLen+t.plen(i) && closed(k) {
			return true
		}
		off += f.length
	}
	return false
}

// ============================================================================
// P09 ========================================================================

func p09Refuse(c *C) {
	t := c.torShape(300, 3000)
	t.makeContent(c.seed("content"))
	np := t.npieces()

	// Some pieces get the hash of data of another length
	odd := map[int64][]byte{}
	if np > 0 && c.chance(3, "odd hash") {
		i := int64(c.intn(0, int(np-1), "odd piece"))
		data := t.piece(i)
		switch c.intn(0, 4, "odd") {
		case 0:
			data = data[:c.intn(0, len(data)-1, "len")]
		case 1:
			data = append(append([]byte(nil), data...), content(5, int64(c.intn(1, 40, "more")))...)
		case 2:
			data = t.content[i*t.pieceLen:] // as much as there is
		case 3:
			data = t.content
		case 4:
			data = nil
		}
		if int64(len(data)) != t.plen(i) {
			odd[i] = data
			h := sha1.Sum(data)
			t.hashes = t.hashes[:20*i] + string(h[:]) + t.hashes[20*i+20:]
		}
	}
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	c.diskState(t, dir)
	fio := fileio.NewFileIO(ti)
	if e := fio.OCATAll(ti.Files()); e != nil {
		c.Fail("OCATAll(%s): %v", t, e)
	}
	defer func() { _ = fio.CloseAll() }()
	before := snapshot(dir)

	shared := make([]byte, 0, t.total+100) // Where pieces are put together

	n := c.intn(1, 8, "writes")
	for k := 0; k < n; k++ {
		i := int64(0)
		if np > 0 {
			i = int64(c.intn(0, int(np-1), "piece"))
		}
		var data []byte
		if np > 0 {
			data = append([]byte(nil), t.piece(i)...)
		}
		reuse := c.chance(3, "same buffer")
		if _, isOdd := odd[i]; np > 0 && !isOdd && c.chance(3, "good first") {
			good := append([]byte(nil), data...)
			if reuse {
				good = append(shared, data...)
			}
			if m, e := fio.WritePiece(i, good); e != nil || m != t.plen(i) {
				c.Fail("WritePiece(%d) refused the right data: %d, %v\n%s", i, m, e, t)
			}
			before = snapshot(dir)
		}
		what := ""
		kind := c.intn(0, 8, "bad kind")
		if np == 0 {
			kind = 5
		}
		switch kind {
		case 0:
			what = "bit flip"
			data[c.intn(0, len(data)-1, "where")] ^= 1 << uint(c.intn(0, 7, "bit"))
		case 1:
			what = "truncated"
			data = data[:c.intn(0, len(data)-1, "len")]
		case 2:
			what = "extended"
			switch c.intn(0, 2, "by") {
			case 0:
				data = append(data, make([]byte, c.intn(1, 20, "zeros"))...)
			case 1:
				data = append(data, t.content[min(t.total, i*t.pieceLen+t.plen(i)):]...)
				if int64(len(data)) == t.plen(i) {
					data = append(data, 0)
				}
			case 2:
				data = append(data, data...)
			}
		case 3:
			what = "another piece"
			j := int64(c.intn(0, int(np-1), "other"))
			if bytes.Equal(t.piece(j), data) {
				continue
			}
			data = append([]byte(nil), t.piece(j)...)
		case 4:
			what = "another index"
			j := int64(c.intn(0, int(np-1), "other"))
			if bytes.Equal(t.piece(j), data) {
				continue
			}
			i = j
		case 5:
			what = "index out of range"
			i = pick(c, "index", int64(-1), np, np+1, 2*np, math.MaxInt64, math.MinInt64, math.MaxInt64/20, math.MaxInt64/20+1, 1<<32, -np)
			if i >= 0 && i < np {
				continue
			}
		case 6:
			what = "empty"
			data = pick(c, "empty", nil, []byte{})
		case 7:
			what = "data of the odd hash"
			found := false
			for j, d := range odd {
				i, data, found = j, append([]byte(nil), d...), true
			}
			if !found {
				continue
			}
		case 8:
			what = "any data"
			data = content(c.seed("any"), t.plen(i))
			if c.bool("zeros") {
				data = make([]byte, t.plen(i))
			}
			if bytes.Equal(data, t.piece(i)) {
				continue
			}
		}
		if reuse && len(data) <= cap(shared) {
			data = append(shared, data...)
			what += ", in the buffer used before"
		} else if c.bool("with room") { // as good as without
			data = append(append(make([]byte, 0, len(data)+64), data...), t.content...)[:len(data)]
		}
		m, e := fio.WritePiece(i, data)
		c.Label("%s", what)
		if e == nil {
			c.Fail("WritePiece(%d) accepted wrong data (%s, %d bytes, returned %d)\n%s", i, what, len(data), m, t)
		}
		if d := diffSnap(before, snapshot(dir)); d != "" {
			c.Fail("refused WritePiece(%d) (%s): %s\n%s", i, what, d, t)
		}
		if kind != 5 && kind != 6 {
			c.NonTrivial(t.String(), i, what, string(data))
			c.Sample("%s: WritePiece(%d) with %s, %d bytes", t, i, what, len(data))
		}
	}

	// What is right is still accepted
	for i := int64(0); i < np; i++ {
		if _, isOdd := odd[i]; isOdd {
			if _, e := fio.WritePiece(i, t.piece(i)); e == nil {
				c.Fail("WritePiece(%d) accepted data that does not match the hash", i)
			}
			continue
		}
		if m, e := fio.WritePiece(i, t.piece(i)); e != nil || m != t.plen(i) {
			c.Fail("WritePiece(%d) refused the right data: %d, %v\n%s", i, m, e, t)
		}
	}
}

// ============================================================================
// P10 ========================================================================

func p10Small(c *C) { c.ocat(400, 40) }

func p10Large(c *C) { c.ocat(3<<20+2, 1<<20) }

func (c *C) flen10(most, unit int, label string) int64 {
	switch c.intn(0, 3, label+" kind") {
	case 0:
		return int64(c.intn(0, 3, label))
	case 1:
		return max(0, min(int64(most), int64(unit*c.intn(1, 3, label+" units")+c.intn(-2, 2, label+" off"))))
	default:
		return int64(c.intn(0, most, label))
	}
}

func (c *C) ocat(most, unit int) {
	dir, done := tempDir()
	defer done()
	rel := pick(c, "path", "f", "d/f", "d/e/f", "d/g", "x y/ü")
	path := filepath.Join(dir, rel)
	if c.chance(4, "unclean") {
		path = dir + "//./" + rel
	}
	length := c.flen10(most, unit, "length")
	var old []byte
	exists := c.chance(4, "absent") == false
	if exists {
		n := length
		if !c.chance(5, "same") {
			n = c.flen10(most, unit, "old length")
		}
		old = content(c.seed("old"), n)
		mustWrite(path, old)
	} else if c.bool("directory exists") {
		if e := os.MkdirAll(filepath.Dir(path), 0o755); e != nil {
			harnessError("%v", e)
		}
	}
	mustWrite(filepath.Join(dir, "f2"), []byte("neighbour"))
	mustWrite(filepath.Join(dir, "d", "f2"), []byte("other neighbour"))
	before := snapshot(dir)
	key := filepath.Join(rel)

	want := make([]byte, length)
	copy(want, old)
	desc := fmt.Sprintf("OCAT(%q, %d), %d bytes before (exists %v)", rel, length, len(old), exists)

	check := func(when string, want []byte) {
		after := snapshot(dir)
		if got, ok := after[key]; !ok || got != string(want) {
			at := 0
			for at < len(got) && at < len(want) && got[at] == want[at] {
				at++
			}
			c.Fail("%s: %s: file has %d bytes (exists %v), want %d, first difference at %d", desc, when, len(got), ok, len(want), at)
		}
		for p, x := range before {
			if y, ok := after[p]; p != key && (!ok || x != y) {
				c.Fail("%s: %s: %q was touched", desc, when, p)
			}
		}
		for p := range after {
			_, ok := before[p]
			if !ok && p != key && p[len(p)-1] != '/' {
				c.Fail("%s: %s: %q appeared", desc, when, p)
			}
		}
	}

	f, e := utils.OCAT(path, length)
	if e != nil {
		c.Fail("%s: %v", desc, e)
	}
	check("prepared", want)

	// The handle reads and writes that file
	if length > 0 {
		at := int64(c.intn(0, int(length-1), "at"))
		n := min(length-at, int64(c.intn(1, 20, "n")))
		buf := make([]byte, n)
		if m, e := f.ReadAt(buf, at); int64(m) != n || (e != nil && e != io.EOF) || !bytes.Equal(buf, want[at:at+n]) {
			c.Fail("%s: handle reads %d bytes at %d: %v", desc, m, at, e)
		}
		patch := content(c.seed("patch"), n)
		if _, e := f.WriteAt(patch, at); e != nil {
			c.Fail("%s: handle cannot write: %v", desc, e)
		}
		copy(want[at:], patch)
		check("after a write", want)
	}
	f2, e := utils.OCAT(path, length)
	if e != nil {
		c.Fail("%s again: %v", desc, e)
	}
	check("again", want)
	_ = f.Close()
	_ = f2.Close()
	check("closed", want)

	if exists && int64(len(old)) != length || !exists && rel != "f" {
		c.NonTrivial(desc)
		c.Sample("%s", desc)
	}
	c.Label("exists %v, %s", exists, map[bool]string{true: "longer", false: "not longer"}[int64(len(old)) > length])
}

// p10Errors prepares what cannot be prepared. Nobody may be told that it was.
func p10Errors(c *C) {
	dir, done := tempDir()
	defer done()
	rel := pick(c, "path", "f", "d/f", "d/e/f")
	path := filepath.Join(dir, rel)
	unit := pick(c, "unit", 40, 1<<20)
	length := c.flen10(3*unit, unit, "length")
	old := content(c.seed("old"), c.flen10(3*unit, unit, "old length"))
	must := false // Nobody could do it
	what := pick(c, "what", "below a file", "a directory", "full", "cannot shrink", "cannot grow", "cannot be written", "loop", "long name")
	switch what {
	case "below a file":
		mustWrite(path, old)
		path = filepath.Join(path, pick(c, "below", "x", "x/y"))
		must = true
	case "a directory":
		if e := os.MkdirAll(path, 0o755); e != nil {
			harnessError("%v", e)
		}
		if c.bool("with a file") {
			mustWrite(filepath.Join(path, "x"), old)
		}
		must = true
	case "full":
		if e := os.MkdirAll(filepath.Dir(path), 0o755); e != nil {
			harnessError("%v", e)
		}
		if e := os.Symlink("/dev/full", path); e != nil {
			harnessError("%v", e)
		}
		old = nil
	case "loop":
		if e := os.MkdirAll(filepath.Dir(path), 0o755); e != nil {
			harnessError("%v", e)
		}
		if e := os.Symlink(filepath.Base(path), path); e != nil {
			harnessError("%v", e)
		}
		old = nil
	case "long name":
		old = nil
		path += strings.Repeat("x", c.intn(256, 300, "name length"))
		must = true
	default:
		f := memfile(path, old)
		defer f.Close()
		switch what {
		case "cannot shrink":
			seal(f, sealShrink)
		case "cannot grow":
			seal(f, sealGrow)
		case "cannot be written":
			seal(f, sealWrite|sealGrow|sealShrink)
		}
	}
	mustWrite(filepath.Join(dir, "f2"), []byte("neighbour"))
	desc := fmt.Sprintf("OCAT(%q, %d), which is %s with %d bytes", rel, length, what, len(old))

	check := func(e error, size func() (int64, error)) {
		if e == nil {
			if must {
				c.Fail("%s: no error", desc)
			}
			n, e := size()
			if e != nil || n != length {
				c.Fail("%s: no error, but the file has %d bytes (%v)", desc, n, e)
			}
			want := make([]byte, length)
			copy(want, old)
			if what != "full" {
				if got, e := os.ReadFile(path); e != nil || !bytes.Equal(got, want) {
					c.Fail("%s: no error, but the file has %d bytes or others: %v", desc, len(got), e)
				}
			}
		} else if (what == "cannot shrink" && length >= int64(len(old))) || (what == "cannot grow" && length <= int64(len(old))) {
			// Nothing that is asked for here is refused
			c.Fail("%s: %v", desc, e)
		}
		if got, e := os.ReadFile(filepath.Join(dir, "f2")); e != nil || string(got) != "neighbour" {
			c.Fail("%s: a neighbour was touched: %v", desc, e)
		}
		c.Label("%s: error %v", what, e != nil)
		if e != nil {
			c.NonTrivial(desc, old)
			c.Sample("%s: %v", desc, e)
		}
	}
	if c.bool("as a torrent") {
		t := &tor{single: true, name: filepath.Base(path), pieceLen: max(1, (length+9)/10), files: []tfile{{length: length}}, total: length}
		if length == 0 {
			t.pieceLen = 1
		}
		if len(t.name) > 255 || what == "below a file" && filepath.Dir(path) == "" {
			c.Discard("not for a torrent")
			return
		}
		t.fakeHashes(1)
		ti := c.torInfoOf(t, filepath.Dir(path))
		fio := fileio.NewFileIO(ti)
		e := fio.OCATAll(ti.Files())
		check(e, func() (int64, error) {
			s, e := os.Stat(path)
			if e != nil {
				return 0, e
			}
			return s.Size(), nil
		})
		_ = fio.CloseAll()
		return
	}
	f, e := utils.OCAT(path, length)
	check(e, func() (int64, error) {
		s, e := f.Stat()
		if e != nil {
			return 0, e
		}
		return s.Size(), nil
	})
	if f != nil {
		_ = f.Close()
	}
}

// p10All prepares all files of a torrent at once.
func p10All(c *C) {
	t := c.torShape(200, 2000)
	t.makeContent(c.seed("content"))
	p10Of(c, t)
}

// p10Many prepares up to thousands of files.
func p10Many(c *C) {
	n := 1<<uint(8+c.index%4) + c.intn(-2, 500, "files")
	var lim syscall.Rlimit
	if e := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); e != nil || lim.Cur < 4000 {
		n = min(n, 300)
	}
	t := &tor{announce: "http://x/", name: "n", pieceLen: int64(c.intn(1, 2000, "pieceLen"))}
	lens := content(c.seed("lens"), int64(n))
	for i := range lens {
		path := []string{fmt.Sprint("f", i)}
		if lens[i]%4 == 0 {
			path = []string{fmt.Sprint("d", i/50), fmt.Sprint(i)}
		}
		t.files = append(t.files, tfile{path, int64(lens[i] % 16)})
		t.total += int64(lens[i] % 16)
	}
	t.makeContent(c.seed("content"))
	p10Of(c, t)
	c.Label("%d and more files", n/500*500)
}

func p10Of(c *C, t *tor) {
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	model := c.diskState(t, dir)
	mustWrite(filepath.Join(dir, "zz", "unrelated"), []byte("stay"))
	before := snapshot(dir)
	for k := 0; k < 2; k++ {
		fio := fileio.NewFileIO(ti)
		if e := fio.OCATAll(ti.Files()); e != nil {
			c.Fail("OCATAll(%s): %v", t, e)
		}
		c.checkDisk(t, dir, model, "prepared")
		if e := fio.CloseAll(); e != nil {
			c.Fail("CloseAll(%s): %v", t, e)
		}
		c.checkDisk(t, dir, model, "closed")
	}
	own := map[string]bool{}
	for i := range t.files {
		own[t.path(i)] = true
	}
	after := snapshot(dir)
	for p, x := range before {
		if y, ok := after[p]; !own[p] && (!ok || x != y) {
			c.Fail("%s: %q was touched", t, p)
		}
	}
	for p := range after {
		if _, ok := before[p]; !ok && !own[p] && p[len(p)-1] != '/' {
			c.Fail("%s: %q appeared", t, p)
		}
	}
	c.NonTrivial("all", t.String(), t.hashes)
}

// p10Blocked prepares the files of a torrent, some of which cannot be made.
func p10Blocked(c *C) {
	t := c.torShape(200, 2000)
	if len(t.files) < 2 {
		c.Discard("one file")
		return
	}
	t.makeContent(c.seed("content"))
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	model := c.diskState(t, dir)
	blocked := make([]bool, len(t.files))
	how := make([]string, len(t.files))
	for k := c.intn(1, 2, "blocked"); k > 0; k-- {
		i := c.intn(0, len(t.files)-1, "which")
		if blocked[i] {
			continue
		}
		p := filepath.Join(dir, t.path(i))
		blocked[i], how[i] = true, pick(c, "how", "directory", "full directory", "loop", "link to nowhere")
		_ = os.Remove(p)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		var e error
		switch how[i] {
		case "directory":
			e = os.Mkdir(p, 0o755)
		case "full directory":
			mustWrite(filepath.Join(p, "in it"), []byte("stay"))
		case "loop":
			e = os.Symlink(filepath.Base(p), p)
		case "link to nowhere":
			e = os.Symlink(filepath.Join(dir, "no such directory", "f"), p)
		}
		if e != nil {
			harnessError("%v", e)
		}
	}
	before := make([][]byte, len(t.files))
	for i := range t.files {
		if !blocked[i] {
			before[i], _ = os.ReadFile(filepath.Join(dir, t.path(i)))
		}
	}
	fio := fileio.NewFileIO(ti)
	e := fio.OCATAll(ti.Files())
	if e == nil {
		c.Fail("the files were prepared without an error, though some are blocked: %q\n%s", how, t)
	}
	// The others are as they were, or prepared
	off := int64(0)
	for i, f := range t.files {
		want := model[off : off+f.length]
		off += f.length
		if blocked[i] {
			if how[i] == "full directory" {
				if b, e := os.ReadFile(filepath.Join(dir, t.path(i), "in it")); e != nil || string(b) != "stay" {
					c.Fail("a file in the directory in the place of file %d was touched (%v)\n%s", i, e, t)
				}
			}
			continue
		}
		got, e := os.ReadFile(filepath.Join(dir, t.path(i)))
		if bytes.Equal(got, before[i]) && (e == nil || before[i] == nil) || e == nil && bytes.Equal(got, want) {
			continue
		}
		// It may have been cut to some part of that, or grown a part
		c.Fail("file %d holds %s, it was %s, and should become %s (%v)\n%s", i, quote(got), quote(before[i]), quote(want), e, t)
	}
	_ = fio.CloseAll()
	c.NonTrivial("blocked", t.String(), fmt.Sprint(how))
	c.Sample("%q: %v\n%s", how, e, t)
}

// ============================================================================
// P11 ========================================================================

func p11Concurrent(c *C) {
	t := c.torShape(200, 4000)
	if t.total == 0 {
		t.files[0].length, t.total = 100, 100
	}
	t.makeContent(c.seed("content"))
	dir, done := tempDir()
	defer done()
	ti := c.torInfoOf(t, dir)
	model := c.diskState(t, dir)
	fio := fileio.NewFileIO(ti)
	if e := fio.OCATAll(ti.Files()); e != nil {
		c.Fail("OCATAll(%s): %v", t, e)
	}
	defer func() { _ = fio.CloseAll() }()
	np := int(t.npieces())

	stored := make([]atomic.Bool, np)
	for i := 0; i < np; i++ {
		off := int64(i) * t.pieceLen
		stored[i].Store(bytes.Equal(model[off:off+t.plen(int64(i))], t.piece(int64(i))))
	}

	type step struct {
		write bool
		piece int
	}
	ng := c.intn(2, 10, "goroutines")
	plans := make([][]step, ng)
	written := make([]bool, np)
	for g := range plans {
		n := c.intn(1, 40, "steps")
		// Some work on few pieces, so that they meet
		lo, hi := 0, np-1
		if c.bool("narrow") {
			lo = c.intn(0, np-1, "lo")
			hi = min(np-1, lo+c.intn(0, 2, "width"))
		}
		for k := 0; k < n; k++ {
			s := step{c.chance(3, "write"), c.intn(lo, hi, "piece")}
			if s.write {
				written[s.piece] = true
			}
			plans[g] = append(plans[g], s)
		}
	}

	var mu sync.Mutex
	msg := ""
	fail := func(format string, args ...any) {
		mu.Lock()
		if msg == "" {
			msg = fmt.Sprintf(format, args...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for g := range plans {
		wg.Add(1)
		go func(plan []step) {
			defer wg.Done()
			<-start
			buf := make([]byte, t.pieceLen)
			for _, s := range plan {
				i := int64(s.piece)
				if s.write {
					n, e := fio.WritePiece(i, t.piece(i))
					if e != nil || n != t.plen(i) {
						fail("WritePiece(%d): %d, %v", i, n, e)
						return
					}
					stored[i].Store(true)
					continue
				}
				was := stored[i].Load()
				n, e := fio.ReadPiece(i, buf)
				if e != nil || n != t.plen(i) {
					fail("ReadPiece(%d): %d, %v", i, n, e)
					return
				}
				if was && !bytes.Equal(buf[:n], t.piece(i)) {
					fail("ReadPiece(%d) gave other bytes than were stored", i)
					return
				}
			}
		}(plans[g])
	}
	close(start)
	wg.Wait()
	if msg != "" {
		c.Fail("%s\n%s", msg, t)
	}
	for i, w := range written {
		if w {
			copy(model[int64(i)*t.pieceLen:], t.piece(int64(i)))
		}
	}
	c.checkDisk(t, dir, model, "when all were done")
	if np > 1 && t.single || np > len(t.files) {
		c.NonTrivial(t.String(), plans)
		c.Sample("%s: %d goroutines, first plan %v", t, ng, plans[0])
	}
	c.Label("%d goroutines", ng)
}
