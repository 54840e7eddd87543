package main

import (
	"crypto/sha1"
	"fmt"
	"io"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"gotor/bencode"
	"gotor/torrent"
	"gotor/torrent/filesd"
	"gotor/torrent/info"
)

func init() {
	register(&Prop{
		ID: "P03",
		Rule: "Torrent files are written by an independent encoder from drawn metadata, with keys in any order, unknown keys, empty strings and look-alike content; " +
			"non-trivial: the info dictionary is not the canonical re-encoding of the fields the client knows (order, unknown keys), or it is multi-file (distinct by file). Also torrents of thousands of files and megabytes of hashes, names of any bytes, dictionaries read twice, and several torrents loaded at the same time. Files of up to 40 MB, with more pieces or files than sixteen bits count.",
		Subs: []Sub{
			{"metadata", 30000, 300000, p03Metadata},
			{"built", 10000, 100000, p03Built},
			{"large", 60, 600, p03Large},
			{"huge", 24, 240, p03Huge},
			{"names", 10000, 100000, p03Names},
			{"twice", 10000, 100000, p03Twice},
			{"together", 1000, 10000, p03Together},
		},
	})
	register(&Prop{
		ID: "P04",
		Rule: "Valid torrent files with fields removed, mistyped, made negative, zero, huge or inconsistent, and with bytes mutated; " +
			"non-trivial: at least one field or byte was changed (distinct by file). What loads is compared with what the file states; large files of all these kinds as well. Up to 40 MB, with more pieces or files than sixteen bits count.",
		Subs: []Sub{
			{"fields", 60000, 600000, p04Fields},
			{"bytes", 40000, 400000, p04Bytes},
			{"large", 60, 600, p04Large},
			{"huge", 24, 240, p04Huge},
		},
	})
	register(&Prop{
		ID: "P05",
		Rule: "Torrents with drawn names and path lists (ordinary ones; absolute, dot, dot-dot, empty, with separators; empty lists) loaded into several forms of working directory; " +
			"non-trivial: a name or component is a hostile one, or a path has at least two components (distinct by file and directory).",
		Subs: []Sub{{"paths", 60000, 600000, p05Paths}},
	})
	register(&Prop{
		ID: "P06",
		Rule: "File lists (with empty files, lengths around multiples of the piece length, up to terabytes) and piece lengths, compared with a reference layout; " +
			"non-trivial: at least two files share a piece (distinct by lengths). Also more pieces or files than sixteen bits count.",
		Subs: []Sub{
			{"layout", 30000, 300000, p06Layout},
			{"huge", 10000, 100000, p06Huge},
			{"exhaustive", 64, 64, p06Exhaustive},
			{"many", 24, 240, p06Many},
		},
	})
	register(&Prop{
		ID:   "P07",
		Rule: "Files written to a scratch directory, metadata created from them and loaded back; non-trivial: a piece spans files, or a piece or file is larger than 1 MiB (distinct by lengths and content). Also thousands of files, and more pieces than sixteen bits count.",
		Subs: []Sub{
			{"create", 4000, 40000, p07Create},
			{"path", 1000, 10000, p07Path},
			{"large", 48, 400, p07Large},
			{"errors", 1000, 10000, p07Errors},
			{"many", 24, 240, p07Many},
			{"big", 3, 16, p07Big},
		},
	})
}

// loadTorrent stores data as a torrent file and loads it.
func (c *C) loadTorrent(data []byte, wd string) (*torrent.Torrent, error) {
	p := filepath.Join(job.Scratch, "case.torrent")
	if e := os.WriteFile(p, data, 0o644); e != nil {
		harnessError("%v", e)
	}
	t, e := torrent.FromTorrentFile(p, wd)
	if t == nil && e == nil {
		c.Fail("FromTorrentFile(%s) gave neither torrent nor error", quote(data))
	}
	if t != nil && e == nil && t.Info() == nil {
		c.Fail("FromTorrentFile(%s) gave a torrent without metadata", quote(data))
	}
	return t, e
}

// checkFields compares loaded metadata with what was drawn.
func (c *C) checkFields(ti *info.TorInfo, t *tor, wd string) {
	if ti.Name() != t.name {
		c.Fail("name is %q, want %q", ti.Name(), t.name)
	}
	if ti.PieceLen() != t.pieceLen {
		c.Fail("piece length is %d, want %d", ti.PieceLen(), t.pieceLen)
	}
	if ti.Hashes() != t.hashes {
		c.Fail("hashes differ (%d bytes, want %d)", len(ti.Hashes()), len(t.hashes))
	}
	if ti.NumPieces() != t.npieces() {
		c.Fail("%d pieces, want %d", ti.NumPieces(), t.npieces())
	}
	for i := int64(0); i < t.npieces(); i++ {
		if ti.PieceHash(i) != t.hashes[20*i:20*i+20] {
			c.Fail("hash of piece %d differs", i)
		}
	}
	if ti.Length() != t.total {
		c.Fail("total length is %d, want %d", ti.Length(), t.total)
	}
	if n := t.npieces(); n > 0 && ti.LastPieceLen() != t.plen(n-1) {
		c.Fail("last piece has %d bytes, want %d", ti.LastPieceLen(), t.plen(n-1))
	}
	files := ti.Files()
	if len(files) != len(t.files) {
		c.Fail("%d files, want %d", len(files), len(t.files))
	}
	for i := range files {
		f := &files[i]
		if f.Length() != t.files[i].length {
			c.Fail("file %d has %d bytes, want %d", i, f.Length(), t.files[i].length)
		}
		if want := strings.Join(t.files[i].path, "/"); f.TorPath() != want {
			c.Fail("file %d is called %q, want %q", i, f.TorPath(), want)
		}
		if want := filepath.Join(wd, t.path(i)); filepath.Clean(f.LocalPath()) != want {
			c.Fail("file %d is at %q, want %q", i, f.LocalPath(), want)
		}
	}
}

// ============================================================================
// P03 ========================================================================

// shuffle puts the pairs of a dictionary into any order.
func (c *C) shuffle(d *bdict) {
	for i := len(d.pairs) - 1; i > 0; i-- {
		j := i - c.intn(0, i, "swap")
		d.pairs[i], d.pairs[j] = d.pairs[j], d.pairs[i]
	}
}

// lookalike draws values that contain what the real fields look like.
func (c *C) lookalike() any {
	switch c.intn(0, 8, "lookalike") {
	case 0:
		return "d4:infod4:name1:xee"
	case 1:
		return "4:info"
	case 2:
		return &bdict{[]bpair{{"info", &bdict{[]bpair{{"name", "x"}}}}}}
	case 3:
		return []any{&bdict{[]bpair{{"info", "4:infode"}}}, "info"}
	case 4:
		return ""
	case 5:
		return []any{}
	case 6:
		return &bdict{}
	case 7:
		return c.i64("int")
	default:
		return c.bval(3, 0)
	}
}

// addUnknown adds keys the client does not know.
func (c *C) addUnknown(d *bdict, n int, avoid ...string) {
	for i := 0; i < n; i++ {
		k := pick(c, "unknown key", "comment", "private", "source", "created by", "", "a", "zzz", "inf", "infos", "info ", "Info", "meta version",
			"md5sum", "attr", "4:info", "nam", "names", "pieces root", "path.utf-8", "name.utf-8", "creation date", "nodes", "url-list")
		if c.chance(6, "any key") {
			k = c.bstr(0, "key")
		}
		skip := false
		for _, a := range avoid {
			skip = skip || k == a
		}
		if _, ok := d.get(k); !ok && !skip {
			d.set(k, c.lookalike())
		}
	}
}

func p03Metadata(c *C) {
	t := c.torShape(1<<20, 1<<40)
	t.fakeHashes(c.seed("hashes"))
	if c.chance(6, "hashes look alike") {
		// Pieces that look like bencoding
		b := []byte(t.hashes)
		for i := range b {
			b[i] = "4:infod4:name1:xee2:pi"[i%22]
		}
		t.hashes = string(b)
	}
	switch c.intn(0, 3, "announce") {
	case 0:
		t.announce = c.bstr(1, "announce")
	case 1:
		t.announce = "udp://tracker:80/4:infode"
	}

	c.mayBeWild(t)
	inf := t.infoDict()
	if !t.single {
		files, _ := inf.get("files")
		for _, f := range files.([]any) {
			c.addUnknown(f.(*bdict), c.intn(0, 1, "file extras"), "length", "path")
			if c.chance(3, "shuffle file") {
				c.shuffle(f.(*bdict))
			}
		}
	}
	c.addUnknown(inf, c.intn(0, 4, "info extras"), "length", "files", "name", "piece length", "pieces")
	inf.sort()
	if c.bool("shuffle info") {
		c.shuffle(inf)
	}
	top := &bdict{[]bpair{{"announce", t.announce}, {"info", inf}}}
	if t.wild != 0 {
		t.common(top, "top", t.wild)
	}
	c.addUnknown(top, c.intn(0, 4, "extras"), "announce", "info")
	top.sort()
	if c.bool("shuffle top") {
		c.shuffle(top)
	}
	data := refEncode(top)
	infbytes := refEncode(inf)
	want := sha1.Sum(infbytes)

	wd := "/nowhere/wd"
	got, e := c.loadTorrent(data, wd)
	if e != nil {
		c.Fail("a well-formed torrent was refused: %v\n%s\n%s", e, t, quote(data))
	}
	if got.Infohash() != string(want[:]) {
		c.Fail("infohash is %x, that of the bytes in the file is %x\ninfo %s", got.Infohash(), want, quote(infbytes))
	}
	if got.Announce() != t.announce {
		c.Fail("announce is %q, want %q", got.Announce(), t.announce)
	}
	c.checkFields(got.Info(), t, wd)

	if !t.single || string(infbytes) != string(refEncode(sorted(t.infoDict()))) {
		c.NonTrivial(string(data))
	}
	c.Label("single %v", t.single)
	c.Label("unknown keys in info: %v", len(inf.pairs) > 4)
	c.Sample("%s, info %s", t, quote(infbytes))
}

func p03Large(c *C) {
	p03Load(c, c.largeTorrent())
}

// p03Huge does the same with more pieces or files, or megabytes of something
// that the client does not know.
func p03Huge(c *C) {
	t := c.hugeTorrent()
	if c.chance(3, "unknown") {
		t = c.torShape(64, 4096)
		t.fakeHashes(c.seed("hashes"))
		t.extra = string(content(c.seed("extra"), int64(1)<<uint(16+c.index%10)+int64(c.intn(-2, 2, "off"))))
	}
	p03Load(c, t)
}

// p03Load loads a torrent with very many pieces or files.
func p03Load(c *C, t *tor) {
	data := t.encode()
	got, e := c.loadTorrent(data, "/nowhere/wd")
	if e != nil {
		c.Fail("torrent with %d pieces and %d files was refused: %v", t.npieces(), len(t.files), e)
	}
	if got.Infohash() != t.infohash() {
		c.Fail("infohash of a torrent with %d pieces and %d files differs", t.npieces(), len(t.files))
	}
	c.checkFields(got.Info(), t, "/nowhere/wd")
	c.Label("%d and more pieces", t.npieces()/5000*5000)
	c.NonTrivial("l", t.pieceLen, t.total, len(t.files))
}

// p03Names loads torrents with unusual names. They may be refused, but not
// changed.
func p03Names(c *C) {
	t := c.torShape(64, 4096)
	t.fakeHashes(c.seed("hashes"))
	odd := func(s string) string {
		k := c.intn(0, len(s), "at")
		return s[:k] + pick(c, "odd", "\\", "\x00", "\n", "\r\n", "\t", "\xff", "\xc3", "\u202e", "\\..\\", "C:\\", " ", "\x7f", "%2f", "%5c", "&", "<>|?*\":") + s[k:]
	}
	n := c.intn(1, 3, "names")
	for i := 0; i < n; i++ {
		if t.single || c.chance(3, "the torrent's") {
			t.name = odd(t.name)
			if t.single {
				t.files[0].path[0] = t.name
			}
			continue
		}
		f := &t.files[c.intn(0, len(t.files)-1, "file")]
		k := c.intn(0, len(f.path)-1, "component")
		f.path[k] = odd(f.path[k])
	}
	got, e := c.loadTorrent(t.encode(), "/nowhere/wd")
	c.NonTrivial("n", t.String())
	if e != nil {
		c.Label("refused")
		return
	}
	c.Label("loaded")
	if got.Infohash() != t.infohash() {
		c.Fail("infohash of %s differs", t)
	}
	c.checkFields(got.Info(), t, "/nowhere/wd")
}

// p03Twice loads files that hold two info dictionaries. If they are not
// refused, the infohash must be that of the one the metadata is from.
func p03Twice(c *C) {
	var ts [2]*tor
	var raw [2]string
	for i := range ts {
		ts[i] = c.torShape(64, 4096)
		ts[i].fakeHashes(c.seed("hashes"))
		raw[i] = string(refEncode(ts[i].infoDict()))
	}
	if raw[0] == raw[1] {
		c.Discard("the same twice")
		return
	}
	d := &bdict{[]bpair{{"info", ts[0].infoDict()}, {"info", ts[1].infoDict()}}}
	at := c.intn(0, 2, "announce at")
	d.pairs = append(d.pairs[:at:at], append([]bpair{{"announce", "http://x/"}}, d.pairs[at:]...)...)
	data := refEncode(d)
	got, e := c.loadTorrent(data, "/nowhere/wd")
	c.NonTrivial("t", string(data))
	if e != nil {
		c.Label("refused")
		return
	}
	c.Label("loaded")
	for i := range ts {
		h := sha1.Sum([]byte(raw[i]))
		if got.Infohash() == string(h[:]) {
			c.checkFields(got.Info(), ts[i], "/nowhere/wd")
			return
		}
	}
	c.Fail("infohash %x is that of neither info dictionary in %s", got.Infohash(), quote(data))
}

// p03Together loads several torrents, one after the other and at the same time,
// and keeps them all.
func p03Together(c *C) {
	n := c.intn(2, 6, "torrents")
	ts, got := make([]*tor, n), make([]*torrent.Torrent, n)
	errs := make([]error, n)
	paths := make([]string, n)
	dir, done := tempDir()
	defer done()
	for i := range ts {
		if i > 0 && c.chance(4, "almost the same") {
			x := *ts[i-1]
			x.hashes = ""
			x.fakeHashes(c.seed("hashes"))
			ts[i] = &x
		} else {
			ts[i] = c.torShape(1<<20, 1<<24)
			c.mayBeWild(ts[i])
			ts[i].fakeHashes(c.seed("hashes"))
		}
		paths[i] = filepath.Join(dir, fmt.Sprint(i))
		mustWrite(paths[i], ts[i].encode())
	}
	wd := func(i int) string { return fmt.Sprintf("/nowhere/wd%d", i) }
	check := func(how string) {
		for i := range ts {
			if errs[i] != nil {
				c.Fail("torrent %d of %d, loaded %s, was refused: %v\n%s", i, n, how, errs[i], ts[i])
			}
			if got[i].Infohash() != ts[i].infohash() {
				c.Fail("infohash of torrent %d of %d, loaded %s, is %x instead of %x\n%s", i, n, how, got[i].Infohash(), ts[i].infohash(), ts[i])
			}
			c.checkFields(got[i].Info(), ts[i], wd(i))
		}
	}
	for i := range ts {
		got[i], errs[i] = torrent.FromTorrentFile(paths[i], wd(i))
	}
	check("one after the other")
	var wg sync.WaitGroup
	for i := range ts {
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i], errs[i] = torrent.FromTorrentFile(paths[i], wd(i))
		}()
	}
	wg.Wait()
	check("at the same time")
	c.NonTrivial("together", n, ts[0].String(), ts[1].String())
}

// p03Built checks the infohash of torrents that are built from metadata.
func p03Built(c *C) {
	t := c.torShape(1<<20, 1<<30)
	t.fakeHashes(c.seed("hashes"))
	if t.total == 0 && t.single {
		// Empty strings cannot be bencoded (P01), so such a torrent cannot
		t.total, t.files[0].length = 5, 5
		t.fakeHashes(1)
	}
	if t.total == 0 {
		c.Label("empty torrent")
		return
	}
	ti, e := info.NewTorInfo(t.name, t.pieceLen, t.hashes, t.entries(""))
	if e != nil {
		c.Fail("NewTorInfo(%s): %v", t, e)
	}
	got, e := torrent.NewTorrent(ti, t.announce)
	if e != nil {
		c.Fail("NewTorrent(%s): %v", t, e)
	}
	enc, e := bencode.Encode(ti.Bencode())
	if e != nil {
		c.Fail("Encode: %v", e)
	}
	want := sha1.Sum(enc)
	if got.Infohash() != string(want[:]) {
		c.Fail("infohash is %x, that of the metadata's bencoding is %x", got.Infohash(), want)
	}
	if got.Announce() != t.announce || got.Info() != ti {
		c.Fail("torrent has other fields than it was built from")
	}
	// The metadata's bencoding says what the torrent says
	v, _, ok, _ := refDecode(enc)
	d, isd := v.(*bdict)
	if !ok || !isd {
		c.Fail("metadata is no bencoded dictionary: %s", quote(enc))
	}
	for _, p := range t.infoDict().pairs {
		x, ok := d.get(p.k)
		if !ok || string(refEncode(sorted(x))) != string(refEncode(sorted(p.v))) {
			c.Fail("metadata has %q = %v\n%s", p.k, x, quote(enc))
		}
	}
	c.checkFields(ti, t, "")
	c.NonTrivial("b", string(enc))
}

// entries returns the files for NewTorInfo, placed in dir.
func (t *tor) entries(dir string) []filesd.EntryBase {
	out := []filesd.EntryBase{}
	for i, f := range t.files {
		e := filesd.MakeFileEntry(strings.Join(f.path, "/"), f.length)
		e.SetLocalPath(filepath.Join(dir, t.path(i)))
		out = append(out, e)
	}
	return out
}

// ============================================================================
// P04 ========================================================================

// checkCoherent checks a torrent that was loaded.
// notStated tells what of a torrent that loaded is not stated by its file.
func notStated(t *torrent.Torrent, data []byte) string {
	v, n, ok, grey := refDecode(data)
	top, isDict := v.(*bdict)
	if !ok || grey || n != len(data) || !isDict || top.twice() {
		return ""
	}
	iv, _ := top.get("info")
	inf, isDict := iv.(*bdict)
	if !isDict {
		return "there is no info dictionary"
	}
	if inf.twice() {
		return ""
	}
	ti := t.Info()
	text := func(d *bdict, key, got string) string {
		v, _ := d.get(key)
		if s, ok := v.(string); !ok || s != got {
			return fmt.Sprintf("%s is %s, the file states %#v", key, quote([]byte(got)), v)
		}
		return ""
	}
	number := func(d *bdict, key string, got int64) string {
		v, _ := d.get(key)
		if n, ok := v.(int64); !ok || n != got {
			return fmt.Sprintf("%s is %d, the file states %#v", key, got, v)
		}
		return ""
	}
	for _, what := range []string{text(top, "announce", t.Announce()), text(inf, "name", ti.Name()), text(inf, "pieces", ti.Hashes()), number(inf, "piece length", ti.PieceLen())} {
		if what != "" {
			return what
		}
	}
	files := ti.Files()
	lv, hasLength := inf.get("length")
	fv, hasFiles := inf.get("files")
	if hasLength && hasFiles { // Either one
		return ""
	}
	if hasLength {
		if len(files) != 1 || files[0].TorPath() != ti.Name() {
			return fmt.Sprintf("there are %d files, the file states a length of %#v", len(files), lv)
		}
		return number(inf, "length", files[0].Length())
	}
	list, ok := fv.([]any)
	if !ok || len(list) != len(files) {
		return fmt.Sprintf("there are %d files, the file states %#v", len(files), fv)
	}
	for i, x := range list {
		f, ok := x.(*bdict)
		if !ok {
			return fmt.Sprintf("there is a file %d, the file states %#v", i, x)
		}
		if f.twice() {
			continue
		}
		if what := number(f, "length", files[i].Length()); what != "" {
			return fmt.Sprintf("file %d: %s", i, what)
		}
		pv, _ := f.get("path")
		path, ok := pv.([]any)
		var parts []string
		for _, p := range path {
			s, isText := p.(string)
			ok = ok && isText
			parts = append(parts, s)
		}
		if !ok || strings.Join(parts, "/") != files[i].TorPath() {
			return fmt.Sprintf("file %d is %q, the file states %#v", i, files[i].TorPath(), pv)
		}
	}
	return ""
}

func (c *C) checkCoherent(t *torrent.Torrent, data []byte) {
	ti := t.Info()
	if what := notStated(t, data); what != "" {
		c.Fail("the loaded torrent is not the one in the file: %s\n%s", what, quote(data))
	}
	bad := func(format string, args ...any) {
		c.Fail("loaded torrent is incoherent: %s\n%s", fmt.Sprintf(format, args...), quote(data))
	}
	if len(t.Infohash()) != 20 {
		bad("infohash of %d bytes", len(t.Infohash()))
	}
	pl := ti.PieceLen()
	if pl <= 0 {
		bad("piece length %d", pl)
	}
	total := int64(0)
	for i := range ti.Files() {
		n := ti.Files()[i].Length()
		if n < 0 {
			bad("file %d has length %d", i, n)
		}
		if total > math.MaxInt64-n {
			bad("total of files overflows")
		}
		total += n
	}
	if ti.Length() != total {
		bad("total %d, files have %d", ti.Length(), total)
	}
	n := total / pl
	if total%pl != 0 {
		n++
	}
	if ti.NumPieces() != n {
		bad("%d pieces, want %d (total %d, piece length %d)", ti.NumPieces(), n, total, pl)
	}
	if int64(len(ti.Hashes())) != 20*n {
		bad("%d bytes of hashes for %d pieces", len(ti.Hashes()), n)
	}
	if n > 0 {
		if want := total - (n-1)*pl; ti.LastPieceLen() != want {
			bad("last piece has %d bytes, want %d", ti.LastPieceLen(), want)
		}
	}
	// All accessors work
	for _, i := range []int64{-1, 0, 1, n - 1, n, n + 1, math.MaxInt64, math.MinInt64} {
		locs, e := ti.PieceLookup(i)
		if (i >= 0 && i < n) != (e == nil) {
			bad("PieceLookup(%d) of %d pieces: %v", i, n, e)
		}
		sum := int64(0)
		for _, l := range locs {
			if l.ReadAmnt() < 0 || l.SeekAmnt() < 0 || l.SeekAmnt() > l.Entry.Length() || l.ReadAmnt() > l.Entry.Length()-l.SeekAmnt() {
				bad("piece %d has %d bytes at %d of a file of %d", i, l.ReadAmnt(), l.SeekAmnt(), l.Entry.Length())
			}
			sum += l.ReadAmnt()
		}
		if i >= 0 && i < n {
			want := pl
			if i == n-1 {
				want = ti.LastPieceLen()
			}
			if sum != want {
				bad("piece %d has %d bytes, want %d", i, sum, want)
			}
			if h := ti.PieceHash(i); h != ti.Hashes()[20*i:20*i+20] {
				bad("hash of piece %d", i)
			}
		}
	}
	_ = t.String()
}

// badValue draws a value that does not belong there.
func (c *C) badValue() any {
	switch c.intn(0, 9, "bad value") {
	case 0, 1, 2:
		return c.i64("int")
	case 3:
		return pick(c, "big", int64(math.MaxInt64), int64(math.MinInt64), int64(1)<<62, int64(1)<<62+1, int64(-1), int64(0), int64(1)<<32, int64(1)<<53)
	case 4:
		return c.bstr(0, "str")
	case 5:
		return string(content(c.seed("hashes"), int64(20*c.intn(0, 6, "hashes")+c.intn(0, 1, "odd")*c.intn(1, 19, "rest"))))
	case 6:
		return []any{}
	case 7:
		return &bdict{}
	case 8:
		return []any{c.bval(1, 0)}
	default:
		return c.bval(2, 0)
	}
}

// damage changes a dictionary somewhere.
func (c *C) damage(d *bdict) string {
	if len(d.pairs) == 0 {
		d.set("x", c.badValue())
		return "add"
	}
	p := &d.pairs[c.intn(0, len(d.pairs)-1, "which")]
	switch c.intn(0, 3, "damage") {
	case 0:
		d.del(p.k)
		return "remove"
	case 1:
		p.v = c.badValue()
		return "replace"
	case 2:
		if n, ok := p.v.(int64); ok {
			p.v = pick(c, "arith", -n, n+1, n-1, n*2, n/2, n+math.MaxInt64, int64(0), int64(-1))
			return "number"
		}
		if s, ok := p.v.(string); ok {
			p.v = pick(c, "string", s+"x", "", s+s, s[:len(s)/2], s+strings.Repeat("h", 20))
			return "string"
		}
		p.v = c.badValue()
		return "replace"
	default:
		p.k = c.bstr(0, "key")
		return "rename"
	}
}

func (c *C) damagedTorrent(t *tor) *bdict {
	inf := t.infoDict()
	top := &bdict{[]bpair{{"announce", t.announce}, {"info", inf}}}
	n := c.intn(1, 3, "damages")
	for i := 0; i < n; i++ {
		where := c.intn(0, 5, "where")
		d := inf
		switch where {
		case 0:
			d = top
		case 1, 2:
			if l, ok := inf.get("files"); ok {
				files, ok := l.([]any)
				if !ok || len(files) == 0 {
					break
				}
				k := c.intn(0, len(files)-1, "file")
				if f, ok := files[k].(*bdict); ok && !c.chance(5, "whole entry") {
					d = f
				} else {
					files[k] = c.badValue()
					c.Label("replace file entry")
					continue
				}
			}
		}
		c.Label("%s", c.damage(d))
	}
	return top
}

func p04Fields(c *C) {
	t := c.torShape(64, 4096)
	c.mayBeWild(t)
	t.fakeHashes(c.seed("hashes"))
	d := c.damagedTorrent(t)
	data := refEncode(d)
	c.NonTrivial(string(data))
	got, e := c.loadTorrent(data, "/nowhere/wd")
	if e != nil {
		c.Label("refused")
		return
	}
	c.Label("loaded")
	c.Sample("%s", quote(data))
	c.checkCoherent(got, data)
}

func p04Bytes(c *C) {
	t := c.torShape(64, 1024)
	t.fakeHashes(c.seed("hashes"))
	data := t.encode()
	if c.chance(10, "garbage") {
		data = []byte(c.bstr(0, "garbage"))
		c.Label("garbage")
	} else if c.bool("digits only") {
		// Change digits, which mostly leaves a torrent
		n := c.intn(1, 3, "changes")
		var at []int
		for i, b := range data {
			if b >= '0' && b <= '9' || b == '-' {
				at = append(at, i)
			}
		}
		for i := 0; i < n; i++ {
			k := at[c.intn(0, len(at)-1, "pos")]
			data[k] = "0123456789-"[c.intn(0, 10, "digit")]
		}
	} else {
		data = c.mutate(data, benAlphabet, 3)
	}
	c.NonTrivial("b", string(data))
	got, e := c.loadTorrent(data, "/nowhere/wd")
	if e != nil {
		c.Label("refused")
		return
	}
	c.Label("loaded")
	c.checkCoherent(got, data)
}

// hugeTorrent draws a torrent with more pieces or files than sixteen bits count,
// in a file of up to 40 MB.
func (c *C) hugeTorrent() *tor {
	t := &tor{announce: "http://x/", name: "n", pieceLen: int64(c.intn(1, 1<<20, "pieceLen"))}
	near := func(least, most int) int64 { // in turn, as most drawn numbers are small
		return int64(1)<<uint(least+c.index%(most-least+1)) + int64(c.intn(-3, 300, "off"))
	}
	switch c.intn(0, 2, "shape") {
	case 0:
		t.single = true
		t.total = t.pieceLen*near(16, 21) - int64(c.intn(0, int(t.pieceLen-1), "short"))
		t.files = []tfile{{[]string{"n"}, t.total}}
	case 1:
		lens := content(c.seed("lens"), near(15, 17))
		for i := range lens {
			l := int64(lens[i] & 3)
			t.files = append(t.files, tfile{[]string{fmt.Sprint(i)}, l})
			t.total += l
		}
		t.pieceLen = max(1, t.total/int64(c.intn(1, 50, "pieces")))
	case 2: // one file with many pieces between others
		l := t.pieceLen*near(16, 21) + 1
		t.files = []tfile{{[]string{"a"}, t.pieceLen/2 + 1}, {[]string{"b"}, l}, {[]string{"c"}, 1}}
		t.total = t.pieceLen/2 + 2 + l
	}
	t.fakeHashes(c.seed("hashes"))
	return t
}

// largeTorrent draws a torrent with very many pieces or files.
func (c *C) largeTorrent() *tor {
	t := &tor{announce: "http://x/", name: "n", pieceLen: int64(c.intn(1, 1<<20, "pieceLen"))}
	n := int64(c.intn(1, 80000, "pieces"))
	if c.chance(4, "round pieces") {
		n = int64(1<<uint(c.intn(8, 17, "exp")) + c.intn(-1, 2, "off"))
	}
	switch c.intn(0, 2, "shape") {
	case 0: // one file with many pieces
		t.single = true
		t.total = t.pieceLen*n - int64(c.intn(0, int(t.pieceLen-1), "short"))
		t.files = []tfile{{[]string{"n"}, t.total}}
	case 1: // many files in few pieces
		n = int64(c.intn(2, 20000, "files"))
		for i := int64(0); i < n; i++ {
			l := int64(c.intn(0, 3, "len"))
			t.files = append(t.files, tfile{[]string{fmt.Sprint(i)}, l})
			t.total += l
		}
		t.pieceLen = max(1, t.total/int64(c.intn(1, 50, "pieces")))
	case 2: // two files with many pieces
		l := t.pieceLen*n/2 + 1
		t.files = []tfile{{[]string{"a"}, l}, {[]string{"b"}, l}}
		t.total = 2 * l
	}
	t.fakeHashes(c.seed("hashes"))
	return t
}

// p04Large loads torrents with very many pieces or files.
func p04Large(c *C) {
	var t *tor
	if c.chance(4, "overflow") { // more bytes than 64 bits hold
		t = &tor{announce: "http://x/", name: "n", pieceLen: math.MaxInt64}
		t.files = []tfile{{[]string{"a"}, math.MaxInt64 - int64(c.intn(0, 3, "a"))}, {[]string{"b"}, int64(c.intn(0, 6, "b"))}}
		t.hashes = string(content(1, 20*int64(c.intn(1, 2, "n"))))
	} else {
		t = c.largeTorrent()
	}
	p04Load(c, t)
}

// p04Huge loads torrents with more pieces or files than sixteen bits count, some
// of them with a hash too few or too many.
func p04Huge(c *C) {
	t := c.hugeTorrent()
	if c.chance(3, "other hashes") {
		if c.bool("more") {
			t.hashes += string(content(1, int64(c.intn(1, 40, "more"))))
		} else {
			t.hashes = t.hashes[:max(0, len(t.hashes)-c.intn(1, 40, "fewer"))]
		}
		data := t.encode()
		c.NonTrivial("h", t.pieceLen, t.total, len(t.hashes))
		if got, e := c.loadTorrent(data, "/nowhere/wd"); e == nil {
			c.Fail("a torrent of %d pieces with %d bytes of hashes was loaded, with %d pieces", t.npieces(), len(t.hashes), got.Info().NumPieces())
		}
		c.Label("refused")
		return
	}
	p04Load(c, t)
}

func p04Load(c *C, t *tor) {
	data := t.encode()
	c.NonTrivial("l", t.pieceLen, t.total, len(t.files))
	got, e := c.loadTorrent(data, "/nowhere/wd")
	if e != nil {
		if t.pieceLen < math.MaxInt64 {
			c.Fail("torrent with %d pieces and %d files was refused: %v", t.npieces(), len(t.files), e)
		}
		c.Label("refused")
		return
	}
	c.checkCoherent(got, data)
}

// ============================================================================
// P05 ========================================================================

var hostileNames = []string{"..", ".", "", "/", "/etc", "/etc/passwd", "../x", "a/../..", "../../x", "a/b", "a/", "/a", "./a", "a/..", "..//..", "//", "a/../../b",
	"../", "./..", "x/../../../../y", "...//../..", "a/./b", "/.", "..\\..\\x", "\\x", "a\x00b", "../../../../../../../../../../tmp/vp-escape"}

// plainName tells whether a component is one that must be used as it is.
func plainName(s string) bool {
	return s != "" && s != "." && s != ".." && !strings.ContainsAny(s, "/\\\x00")
}

// inside tells whether path is strictly inside dir, by their text.
func inside(dir, path string) bool {
	d, e1 := filepath.Abs(dir)
	p, e2 := filepath.Abs(path)
	if e1 != nil || e2 != nil {
		return false
	}
	if d == "/" {
		return p != "/"
	}
	return strings.HasPrefix(p, d+"/")
}

func p05Paths(c *C) {
	ordinary := c.chance(3, "ordinary")
	comp := func(label string) string {
		if !ordinary && c.chance(4, label+" hostile") {
			if c.chance(4, label+" made") {
				// Any combination
				var b strings.Builder
				for n := c.intn(1, 5, "parts"); n > 0; n-- {
					b.WriteString(pick(c, "part", "..", "/", ".", "a", "//"))
				}
				return b.String()
			}
			return pick(c, label, hostileNames...)
		}
		return c.fname(label)
	}
	t := &tor{announce: "http://x/", pieceLen: 4, name: comp("name")}
	c.mayBeWild(t)
	t.single = c.chance(3, "single")
	plain := plainName(t.name)
	deep := false
	if t.single {
		t.total = 3
		t.files = []tfile{{[]string{t.name}, 3}}
	} else {
		n := c.intn(1, 4, "files")
		if c.chance(5, "more files") {
			n = c.intn(5, 30, "files")
		}
		for ; n > 0; n-- {
			var f tfile
			f.length = int64(c.intn(0, 5, "len"))
			np := c.intn(0, 4, "components")
			if c.chance(12, "deep") {
				np = c.intn(5, 20, "components")
			}
			if np == 0 && (ordinary || !c.chance(8, "no components")) {
				np = 1
			}
			if np == 0 {
				plain = false
			}
			for i := 0; i < np; i++ {
				x := comp("component")
				plain = plain && plainName(x)
				f.path = append(f.path, x)
			}
			deep = deep || np > 1
			t.total += f.length
			t.files = append(t.files, f)
		}
	}
	t.fakeHashes(7)

	wd := pick(c, "wd", "/vp/work", "/vp/work/", "work", "./work", "", ".", "/vp/../vp/work", "../work", "/vp/work//sub/", "/vp/..work")
	data := t.encode()
	got, e := c.loadTorrent(data, wd)
	if !plain || deep {
		c.NonTrivial(wd, "\n", string(data))
	}
	c.Sample("%s in %q", t, wd)
	if e != nil {
		if plain {
			c.Fail("ordinary paths were refused: %v\n%s", e, t)
		}
		c.Label("refused")
		return
	}
	files := got.Info().Files()
	if len(files) != len(t.files) {
		c.Fail("%d files, want %d", len(files), len(t.files))
	}
	for i := range files {
		local := files[i].LocalPath()
		if !inside(wd, local) {
			c.Fail("file %d of %s is at %q, outside the working directory %q", i, t, local, wd)
		}
		if !t.single && (!inside(filepath.Join(wd, t.name), local) || !inside(wd, filepath.Join(wd, t.name))) {
			c.Fail("file %d of %s is at %q, outside the directory of the torrent in %q", i, t, local, wd)
		}
		if plain {
			want := filepath.Join(append([]string{wd, t.name}, t.files[i].path...)...)
			if t.single {
				want = filepath.Join(wd, t.name)
			}
			if filepath.Clean(local) != want {
				c.Fail("file %d of %s is at %q, want %q", i, t, local, want)
			}
		}
	}
	c.Label("loaded, ordinary %v", plain)
}

// ============================================================================
// P06 ========================================================================

func p06Layout(c *C) {
	t := c.torShape(1<<16, 1<<24)
	c.checkLayout(t)
}

// p06Many has more pieces or files than sixteen bits count.
func p06Many(c *C) {
	t := c.hugeTorrent()
	c.checkLayout(t)
	c.NonTrivial("m", t.pieceLen, t.total, len(t.files))
}

func p06Huge(c *C) {
	t := &tor{name: "n"}
	t.pieceLen = pick(c, "pieceLen", int64(1)<<20, 1<<32, 1<<40, 1<<62, math.MaxInt64, 1000000007)
	n := c.intn(1, 6, "files")
	for i := 0; i < n; i++ {
		var l int64
		switch c.intn(0, 3, "kind") {
		case 0:
			l = 0
		case 1:
			l = int64(c.intn(0, 5, "len"))
		case 2:
			if t.pieceLen < 1<<50 {
				l = t.pieceLen*int64(c.intn(0, 50, "pieces")) + int64(c.intn(-1, 1, "off"))
			} else {
				l = t.pieceLen - int64(c.intn(0, 3, "off"))
			}
		case 3:
			l = int64(c.intn(0, int(min(t.pieceLen, 1<<50)), "len"))
		}
		l = max(0, min(l, math.MaxInt64-t.total))
		t.total += l
		t.files = append(t.files, tfile{[]string{fmt.Sprint("f", i)}, l})
	}
	t.single = n == 1
	if t.total/t.pieceLen > 400 {
		c.Label("too many pieces")
		return
	}
	c.checkLayout(t)
}

// p06Exhaustive enumerates all lists of up to four files of up to six bytes, with
// piece lengths up to seven, one part of them per case.
func p06Exhaustive(c *C) {
	part := c.index % 64
	k := 0
	for n := 1; n <= 4; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= 7
		}
		for x := 0; x < total; x++ {
			for pl := int64(1); pl <= 7; pl++ {
				k++
				if k%64 != part {
					continue
				}
				t := &tor{name: "n", pieceLen: pl, single: n == 1}
				y := x
				for i := 0; i < n; i++ {
					l := int64(y % 7)
					y /= 7
					t.total += l
					t.files = append(t.files, tfile{[]string{fmt.Sprint("f", i)}, l})
				}
				c.checkLayout(t)
			}
		}
	}
	c.NonTrivial("part", part)
}

func ceilDiv(a, b int64) int64 {
	n := a / b
	if a%b != 0 {
		n++
	}
	return n
}

// checkLayout compares the layout of pieces in files with the obvious one.
func (c *C) checkLayout(t *tor) {
	np := ceilDiv(t.total, t.pieceLen)
	t.hashes = string(content(3, 20*np))
	ti, e := info.NewTorInfo(t.name, t.pieceLen, t.hashes, t.entries("/wd"))
	if e != nil {
		c.Fail("NewTorInfo(%s): %v", t, e)
	}
	if ti.NumPieces() != np {
		c.Fail("%s: %d pieces, want %d", t, ti.NumPieces(), np)
	}

	// Where each file starts
	starts := make([]int64, len(t.files))
	off := int64(0)
	for i, f := range t.files {
		starts[i] = off
		off += f.length
	}

	fidx, foff := 0, int64(0) // The next byte that must be covered
	shared := false
	for i := int64(0); i < np; i++ {
		locs, e := ti.PieceLookup(i)
		if e != nil {
			c.Fail("%s: PieceLookup(%d): %v", t, i, e)
		}
		sum := int64(0)
		count := 0
		var names []string
		for _, l := range locs {
			if l.ReadAmnt() == 0 {
				continue // an empty file
			}
			for fidx < len(t.files) && foff == t.files[fidx].length {
				fidx, foff = fidx+1, 0
			}
			if fidx == len(t.files) {
				c.Fail("%s: piece %d covers more than there is", t, i)
			}
			want := "/wd/" + t.path(fidx)
			if l.Path() != want || l.Entry.TorPath() != strings.Join(t.files[fidx].path, "/") || l.SeekAmnt() != foff || l.ReadAmnt() < 0 || l.ReadAmnt() > t.files[fidx].length-foff {
				c.Fail("%s: piece %d has %d bytes at %d of %q, next uncovered byte is %d of %q", t, i, l.ReadAmnt(), l.SeekAmnt(), l.Path(), foff, want)
			}
			foff += l.ReadAmnt()
			sum += l.ReadAmnt()
			count++
			names = append(names, want)
		}
		want := t.pieceLen
		if i == np-1 {
			want = t.total - i*t.pieceLen
		}
		if sum != want {
			c.Fail("%s: piece %d accounts for %d bytes, want %d", t, i, sum, want)
		}
		shared = shared || count > 1

		// The files reported for the piece
		if np*int64(len(t.files)) > 1<<22 && i&(i-1) != 0 && i < np-2 {
			continue
		}
		var got []string
		for _, f := range ti.Files().GetFiles(i) {
			if f.Length() > 0 {
				got = append(got, f.LocalPath())
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(names) {
			c.Fail("%s: piece %d is in %q, GetFiles says %q", t, i, names, got)
		}
	}
	for fidx < len(t.files) && foff == t.files[fidx].length {
		fidx, foff = fidx+1, 0
	}
	if fidx != len(t.files) {
		c.Fail("%s: nothing from byte %d of file %d on is covered", t, foff, fidx)
	}

	for _, i := range []int64{-1, np, np + 1, np * 2, math.MaxInt64, math.MinInt64} {
		if i >= 0 && i < np {
			continue
		}
		if locs, e := ti.PieceLookup(i); e == nil {
			c.Fail("%s: PieceLookup(%d) of %d pieces gave %v", t, i, np, locs)
		}
		for _, f := range ti.Files().GetFiles(i) {
			if f.Length() > 0 {
				c.Fail("%s: GetFiles(%d) of %d pieces gave %q", t, i, np, f.LocalPath())
			}
		}
	}

	c.Label("shared pieces %v", shared)
	if shared {
		c.NonTrivial(t.String())
		c.Sample("%s", t)
	}
}

// ============================================================================
// P07 ========================================================================

// createAndCheck stores the torrent's files, creates metadata from them, and
// loads that back.
func (c *C) createAndCheck(t *tor) {
	dir, done := tempDir()
	defer done()
	t.store(dir)

	var paths []string
	for _, f := range t.files {
		paths = append(paths, strings.Join(f.path, "/"))
	}
	ti, e := info.CreateTorInfo(paths, dir, t.name, t.pieceLen)
	if e != nil {
		c.Fail("CreateTorInfo(%s): %v", t, e)
	}
	c.checkFields(ti, t, dir)
	if c.index%8 == 0 {
		if open := openBelow(dir); len(open) > 0 {
			c.Fail("CreateTorInfo(%s) leaves open: %q", t, open)
		}
	}

	if t.total == 0 {
		c.Label("no content")
		return // cannot be bencoded, see P01
	}
	enc, e := bencode.Encode(bencode.Dict{"announce": t.announce, "info": ti.Bencode()})
	if e != nil {
		c.Fail("Encode(%s): %v", t, e)
	}
	got, e := c.loadTorrent(enc, dir)
	if e != nil {
		c.Fail("created torrent was refused: %v\n%s", e, t)
	}
	c.checkFields(got.Info(), t, dir)

	shared := false
	off := int64(0)
	for _, f := range t.files[:len(t.files)-1] {
		off += f.length
		shared = shared || (f.length > 0 && off < t.total && off%t.pieceLen != 0)
	}
	c.Label("piece in several files %v", shared)
	if shared || t.pieceLen > 1<<20 || t.total > 1<<20 {
		c.NonTrivial(t.String(), t.hashes)
		c.Sample("%s", t)
	}
}

func p07Create(c *C) {
	t := c.torShape(3000, 30000)
	switch c.intn(0, 5, "paths") {
	case 0: // far below the directory
		for i := range t.files {
			if !t.single && c.bool("deep") {
				dirs := strings.Split(strings.Repeat(pick(c, "dir", "d", "dd", ".d", "d d"), c.intn(4, 24, "depth")), "d")
				var path []string
				for k, d := range dirs {
					path = append(path, fmt.Sprint("d", k, d))
				}
				t.files[i].path = append(path, t.files[i].path...)
			}
		}
	case 1: // bytes that are separators elsewhere
		for i := range t.files {
			if !t.single && c.bool("odd") {
				f := &t.files[i].path[len(t.files[i].path)-1]
				*f += pick(c, "odd", "\\", "\\x", ":", "\n", "\xff", "%2f") + "x"
			}
		}
	}
	t.makeContent(c.seed("content"))
	c.createAndCheck(t)
}

// p07Path creates metadata of a single file that is called otherwise than the
// torrent, or is in a directory.
func p07Path(c *C) {
	t := c.torShape(3000, 30000)
	if !t.single {
		t.files, t.single = t.files[:1], true
		t.total = t.files[0].length
	}
	path := t.files[0].path
	if c.bool("other name") {
		path = []string{c.fname("file name")}
	}
	for k := c.intn(0, 3, "dirs"); k > 0; k-- {
		path = append([]string{"d" + pick(c, "dir", "", "1", "..")}, path...)
	}
	t.makeContent(c.seed("content"))
	dir, done := tempDir()
	defer done()
	rel := strings.Join(path, "/")
	mustWrite(filepath.Join(dir, rel), t.content)
	before := snapshot(dir)
	ti, e := info.CreateTorInfo([]string{rel}, dir, t.name, t.pieceLen)
	if d := diffSnap(before, snapshot(dir)); d != "" {
		c.Fail("creating metadata changed the files: %s", d)
	}
	c.NonTrivial("path", rel, t.String(), t.hashes)
	if e != nil {
		c.Fail("CreateTorInfo(%q, %s): %v", rel, t, e)
	}
	if ti.Hashes() != t.hashes || ti.NumPieces() != t.npieces() || ti.Length() != t.total || ti.PieceLen() != t.pieceLen || ti.Name() != t.name {
		c.Fail("CreateTorInfo(%q, %s): %d pieces, %d bytes, piece length %d, name %q, right hashes %v", rel, t, ti.NumPieces(), ti.Length(), ti.PieceLen(), ti.Name(), ti.Hashes() == t.hashes)
	}
	for i := int64(0); i < t.npieces(); i++ {
		data, e := pieceFromDisk(ti, i)
		if e != nil || string(data) != string(t.piece(i)) {
			c.Fail("CreateTorInfo(%q, %s): piece %d cannot be read from where the metadata says it is: %v", rel, t, i, e)
		}
	}
}

// pieceFromDisk reads a piece from where metadata says it is.
func pieceFromDisk(ti *info.TorInfo, i int64) ([]byte, error) {
	locs, e := ti.PieceLookup(i)
	if e != nil {
		return nil, e
	}
	var out []byte
	for _, l := range locs {
		data, e := os.ReadFile(l.Path())
		if e != nil {
			return nil, e
		}
		if l.SeekAmnt() < 0 || l.ReadAmnt() < 0 || l.SeekAmnt()+l.ReadAmnt() > int64(len(data)) {
			return nil, fmt.Errorf("%d bytes at %d of %d", l.ReadAmnt(), l.SeekAmnt(), len(data))
		}
		out = append(out, data[l.SeekAmnt():l.SeekAmnt()+l.ReadAmnt()]...)
	}
	return out, nil
}

func p07Large(c *C) {
	const mib = 1 << 20
	t := &tor{announce: "http://x/", name: "n"}
	t.pieceLen = pick(c, "pieceLen", int64(mib), 5*mib, 5*mib-1, 5*mib+1, 6*mib, 10*mib, 12*mib, 100000, 3*mib+7)
	n := c.intn(1, 3, "files")
	t.single = n == 1
	for i := 0; i < n; i++ {
		l := int64(0)
		switch c.intn(0, 4, "kind") {
		case 0:
			l = 5*mib + int64(c.intn(-1, 1, "off"))
		case 1:
			l = int64(c.intn(0, 12*mib, "len"))
		case 2:
			l = min(t.pieceLen*int64(c.intn(1, 2, "pieces")), 12*mib) + int64(c.intn(-1, 1, "off"))
		case 3:
			l = int64(c.intn(0, 10, "len"))
		case 4:
			l = 10*mib + int64(c.intn(-1, 1, "off"))
		}
		t.files = append(t.files, tfile{[]string{fmt.Sprint("f", i)}, l})
		if t.single {
			t.files[0].path[0] = t.name
		}
		t.total += l
	}
	t.makeContent(c.seed("content"))
	c.createAndCheck(t)
}

// p07Many has more pieces than sixteen bits count, or thousands of files.
func p07Many(c *C) {
	t := &tor{announce: "http://x/", name: "n", pieceLen: int64(c.intn(1, 20, "pieceLen"))}
	if c.index%3 > 0 {
		t.total = t.pieceLen*(int64(1)<<uint(15+c.index/3%4)+int64(c.intn(-2, 300, "pieces"))) - int64(c.intn(0, int(t.pieceLen-1), "short"))
		cut := int64(c.intn(0, int(t.total), "cut"))
		t.files = []tfile{{[]string{"a"}, cut}, {[]string{"b"}, t.total - cut}}
	} else {
		lens := content(c.seed("lens"), int64(1)<<uint(9+c.index/3%4)+int64(c.intn(-2, 300, "files")))
		for i := range lens {
			t.files = append(t.files, tfile{[]string{fmt.Sprint("d", i/100), fmt.Sprint(i)}, int64(lens[i] % 32)})
			t.total += int64(lens[i] % 32)
		}
	}
	t.makeContent(c.seed("content"))
	c.createAndCheck(t)
	c.NonTrivial("many", t.pieceLen, t.total, len(t.files))
	c.Label("%d and more pieces", t.npieces()>>15<<15)
}

func p07Errors(c *C) {
	t := c.torShape(64, 500)
	t.makeContent(c.seed("content"))
	dir, done := tempDir()
	defer done()
	t.store(dir)
	var paths []string
	for _, f := range t.files {
		paths = append(paths, strings.Join(f.path, "/"))
	}
	pl := t.pieceLen
	what := ""
	switch c.intn(0, 4, "error") {
	case 4:
		// Own memory, that holds nothing at its very beginning
		k := c.intn(0, len(paths)-1, "which")
		p := filepath.Join(dir, t.path(k))
		if e := os.Remove(p); e != nil {
			harnessError("%v", e)
		}
		if e := os.Symlink("/proc/self/mem", p); e != nil {
			harnessError("%v", e)
		}
		if f, e := os.Open(p); e != nil {
			c.Discard("no file that fails")
			return
		} else {
			_, e = f.Read(make([]byte, 1))
			_ = f.Close()
			if e == nil || e == io.EOF {
				c.Discard("no file that fails")
				return
			}
		}
		what = "file that cannot be read"
	case 0:
		pl = pick(c, "pieceLen", int64(0), -1, -5, math.MinInt64)
		what = "piece length"
	case 1:
		k := c.intn(0, len(paths)-1, "which")
		if e := os.Remove(filepath.Join(dir, t.path(k))); e != nil {
			harnessError("%v", e)
		}
		what = "missing file"
	case 2:
		k := c.intn(0, len(paths)-1, "which")
		p := filepath.Join(dir, t.path(k))
		if e := os.Remove(p); e != nil {
			harnessError("%v", e)
		}
		if e := os.Mkdir(p, 0o755); e != nil {
			harnessError("%v", e)
		}
		what = "directory instead of a file"
	case 3:
		k := c.intn(0, len(paths)-1, "which")
		paths[k] += "/x"
		what = "path through a file"
	}
	c.NonTrivial(what, t.String())
	c.Label("%s", what)
	ti, e := info.CreateTorInfo(paths, dir, t.name, pl)
	if e == nil {
		c.Fail("CreateTorInfo(%s) with %s succeeded: %v", t, what, ti)
	}
}
