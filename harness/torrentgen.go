package main

import (
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// ============================================================================
// Torrents ===================================================================

// tfile is a file of a torrent.
type tfile struct {
	path   []string
	length int64
}

// tor is what a torrent should say, and its content.
type tor struct {
	extra    string // a comment in the file
	name     string
	announce string
	pieceLen int64
	single   bool
	files    []tfile
	total    int64
	content  []byte // nil if it was not made
	hashes   string
	big      func(i int64) []byte // Gives the pieces if there is no content
	wild     int                  // Bits that say which keys in common use there are as well
}

func (t *tor) npieces() int64 { return (t.total + t.pieceLen - 1) / t.pieceLen }

func (t *tor) plen(i int64) int64 {
	if i == t.npieces()-1 {
		return t.total - i*t.pieceLen
	}
	return t.pieceLen
}

func (t *tor) piece(i int64) []byte {
	if t.big != nil {
		return t.big(i)
	}
	return t.content[i*t.pieceLen : i*t.pieceLen+t.plen(i)]
}

// path of file i below the working directory.
func (t *tor) path(i int) string {
	if t.single {
		return t.name
	}
	return t.name + "/" + strings.Join(t.files[i].path, "/")
}

// fileContent returns the part of content that is in file i.
func (t *tor) fileContent(i int) []byte {
	off := int64(0)
	for k := 0; k < i; k++ {
		off += t.files[k].length
	}
	return t.content[off : off+t.files[i].length]
}

func (t *tor) makeContent(seed uint64) {
	t.content = content(seed, t.total)
	t.makeHashes()
}

func (t *tor) makeHashes() {
	var b strings.Builder
	for i := int64(0); i < t.npieces(); i++ {
		h := sha1.Sum(t.piece(i))
		b.Write(h[:])
	}
	t.hashes = b.String()
}

func (t *tor) infoDict() *bdict {
	d := &bdict{}
	if t.single {
		d.set("length", t.total)
	} else {
		l := []any{}
		for _, f := range t.files {
			p := []any{}
			for _, x := range f.path {
				p = append(p, x)
			}
			l = append(l, &bdict{[]bpair{{"length", f.length}, {"path", p}}})
		}
		d.set("files", l)
	}
	d.set("name", t.name)
	d.set("piece length", t.pieceLen)
	d.set("pieces", t.hashes)
	if t.wild != 0 {
		if l, ok := d.get("files"); ok {
			for i, f := range l.([]any) {
				t.common(f.(*bdict), "file", t.wild>>uint(i%5))
			}
		}
		t.common(d, "info", t.wild)
	}
	return d
}

// common adds keys that the client does not know, as other programs write
// them. They mean nothing to it.
func (t *tor) common(d *bdict, where string, bits int) {
	for i, x := range inCommon[where] {
		if _, ok := d.get(x.k); !ok && bits>>uint(i%12)&1 == 1 {
			d.set(x.k, x.v)
		}
	}
	if _, ok := d.get("path.utf-8"); ok && t.wild>>12&1 == 1 {
		d.set("path.utf-8", []any{"..", "..", "outside"})
	}
	if _, ok := d.get("name.utf-8"); ok && t.wild>>12&1 == 1 {
		d.set("name.utf-8", "../outside")
	}
	d.sort()
}

var inCommon = map[string][]bpair{
	"file": {
		{"attr", "p"}, {"path.utf-8", []any{"other", "name"}}, {"md5sum", "d41d8cd98f00b204e9800998ecf8427e"}, {"sha1", "\x00123456789012345678\xff"},
		{"symlink path", []any{"..", "other"}}, {"mtime", 1234567890}, {"pieces root", "01234567890123456789012345678901"}, {"ed2k", "0123456789012345"},
		{"offset", 0}, {"size", 0}, {"padding", 1}, {"priority", 0},
	},
	"info": {
		{"private", 1}, {"name.utf-8", "other"}, {"meta version", 2}, {"file tree", &bdict{[]bpair{{"other", &bdict{[]bpair{{"", &bdict{[]bpair{{"length", 1}}}}}}}}}},
		{"md5sum", "d41d8cd98f00b204e9800998ecf8427e"}, {"source", "XY"}, {"attr", "x"}, {"file-duration", []any{1}}, {"unique", "0123"},
		{"similar", []any{"01234567890123456789"}}, {"root hash", "01234567890123456789"}, {"announce", "http://127.0.0.1:9/info"},
	},
	"top": {
		{"announce-list", []any{[]any{"http://127.0.0.1:9/first"}, []any{"http://127.0.0.1:9/second"}}}, {"comment", "other"}, {"created by", "other/1.0"},
		{"creation date", 1234567890}, {"encoding", "GBK"}, {"url-list", []any{"http://127.0.0.1:9/seed"}}, {"httpseeds", []any{"http://127.0.0.1:9/seed"}},
		{"nodes", []any{[]any{"127.0.0.1", 9}}}, {"piece layers", &bdict{}}, {"publisher", "other"}, {"azureus_properties", &bdict{[]bpair{{"dht_backup_enable", 1}}}},
		{"name", "other"},
	},
}

func (t *tor) encode() []byte {
	d := &bdict{[]bpair{{"announce", t.announce}, {"info", t.infoDict()}}}
	if t.extra != "" {
		d = &bdict{[]bpair{{"announce", t.announce}, {"comment", t.extra}, {"info", t.infoDict()}}}
	}
	if t.wild != 0 {
		t.common(d, "top", t.wild)
	}
	return refEncode(d)
}

func (t *tor) infohash() string {
	h := sha1.Sum(refEncode(t.infoDict()))
	return string(h[:])
}

func (t *tor) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "name %q single %v pieceLen %d files", t.name, t.single, t.pieceLen)
	if t.wild != 0 {
		fmt.Fprintf(&b, " extra keys %#x", t.wild)
	}
	for i, f := range t.files {
		if i == 12 {
			fmt.Fprintf(&b, " ... (%d)", len(t.files))
			break
		}
		fmt.Fprintf(&b, " %q:%d", strings.Join(f.path, "/"), f.length)
	}
	return b.String()
}

// store writes the files of the torrent below dir.
func (t *tor) store(dir string) {
	for i := range t.files {
		mustWrite(filepath.Join(dir, t.path(i)), t.fileContent(i))
	}
}

// ============================================================================
// Drawing ====================================================================

// mayBeWild has the torrent, now and then, keys in common use.
func (c *C) mayBeWild(t *tor) {
	if c.chance(3, "extra keys") {
		t.wild = c.intn(1, 1<<13-1, "which keys")
	}
}

// Ordinary names. They must neither be refused nor changed.
func (c *C) fname(label string) string {
	switch c.intn(0, 7, label+" kind") {
	case 0, 1, 2:
		return pick(c, label, "a", "b", "file", "data.bin", "README")
	case 3:
		return pick(c, label, "..a", "...", ".hidden", "a..", "a.", "..a..", "a..b", ". ", " ", " a", "-")
	case 4:
		return pick(c, label, "été", "日本語", "a b c", "100%", "%2e%2e", "~", "$HOME", "a:b", "a*b?", "#", "'\"", "info", "length", "4:path")
	case 5:
		return strings.Repeat("n", c.intn(1, 200, label+" len"))
	default:
		b := make([]byte, c.intn(1, 8, label+" len"))
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789_-"[c.intn(0, 37, label)]
		}
		return string(b)
	}
}

// flen draws the length of a file, often around multiples of the piece length.
func (c *C) flen(pieceLen, most int64) int64 {
	var n int64
	switch c.intn(0, 6, "len kind") {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2, 3:
		n = pieceLen*int64(c.intn(0, 4, "pieces")) + int64(c.intn(-2, 2, "off"))
	case 4:
		n = int64(c.intn(0, int(min(2*pieceLen, 1<<40)), "len"))
	case 5:
		n = int64(c.intn(0, int(min(8*pieceLen, 1<<40)), "len"))
	case 6:
		n = int64(c.intn(0, 300, "len"))
	}
	return max(0, min(n, most))
}

// torShape draws a torrent of at most most bytes, without hashes. A piece has at
// most maxPiece bytes.
func (c *C) torShape(maxPiece int, most int64) *tor {
	t := &tor{announce: "http://127.0.0.1:1/announce", name: c.fname("name")}
	switch c.intn(0, 3, "piece kind") {
	case 0:
		t.pieceLen = int64(c.intn(1, min(8, maxPiece), "pieceLen"))
	case 1:
		t.pieceLen = int64(c.intn(1, min(64, maxPiece), "pieceLen"))
	case 2:
		t.pieceLen = int64(c.intn(1, maxPiece, "pieceLen"))
	case 3:
		t.pieceLen = 1
		for e := c.intn(0, 20, "pieceLen exp"); e > 0 && t.pieceLen*2 <= int64(maxPiece); e-- {
			t.pieceLen *= 2
		}
	}
	t.single = c.chance(4, "single")
	// Bounds the number of pieces
	most = min(most, 400*t.pieceLen)
	if t.single {
		t.total = c.flen(t.pieceLen, most)
		t.files = []tfile{{[]string{t.name}, t.total}}
		return t
	}
	n := c.intn(2, 8, "files")
	if c.chance(5, "many files") {
		n = c.intn(2, 40, "files")
	}
	for i := 0; i < n; i++ {
		f := tfile{length: c.flen(t.pieceLen, most-t.total)}
		// Directories cannot be mistaken for files, and no two files are one
		for k := c.intn(0, 3, "dirs"); k > 0; k-- {
			f.path = append(f.path, "d"+pick(c, "dir", "1", "2", ".", " x", "..")+pick(c, "dir2", "", "", "y"))
		}
		f.path = append(f.path, fmt.Sprintf("%d%s", i, c.fname("fname")))
		t.total += f.length
		t.files = append(t.files, f)
	}
	if c.chance(4, "alike") {
		for k := c.intn(1, 4, "alikes"); k > 0; k-- {
			c.nameAlike(t)
		}
	}
	return t
}

// nameAlike gives a file of t a path that is much like that of another one, and
// still no other's.
func (c *C) nameAlike(t *tor) {
	i, j := c.intn(0, len(t.files)-1, "file"), c.intn(0, len(t.files)-1, "like")
	path := append([]string(nil), t.files[j].path...)
	k := c.intn(0, len(path)-1, "component")
	x := path[k]
	switch c.intn(0, 5, "how") {
	case 0, 1:
		if up := strings.ToUpper(x); up != x {
			x = up
		} else {
			x = strings.ToLower(x)
		}
	case 2:
		x += pick(c, "suffix", " ", ".", "~", "x", "\u0301")
	case 3:
		x = pick(c, "prefix", " ", ".", "x", "\ufeff") + x
	case 4:
		path = append(path[:k], append([]string{"d"}, path[k:]...)...)
		k++
	case 5:
		path, k = path[:len(path)-1], 0
		if len(path) == 0 {
			return
		}
		x = path[0]
	}
	path[k] = x
	if x == "" || x == "." || x == ".." || len(x) > 250 {
		return
	}
	p := strings.Join(path, "/") + "/"
	for n, f := range t.files {
		q := strings.Join(f.path, "/") + "/"
		if n != i && (strings.HasPrefix(p, q) || strings.HasPrefix(q, p)) {
			return
		}
	}
	t.files[i].path = path
}

// fakeHashes gives the torrent hashes that have nothing to do with content.
func (t *tor) fakeHashes(seed uint64) {
	t.hashes = string(content(seed, 20*t.npieces()))
}

// ============================================================================
// Files ======================================================================

// tempDir makes a directory for a case. Call the function when done.
func tempDir() (string, func()) {
	d, e := os.MkdirTemp(job.Scratch, "c")
	if e != nil {
		harnessError("%v", e)
	}
	return d, func() {
		if e := os.RemoveAll(d); e != nil {
			harnessError("%v", e)
		}
	}
}

func mustWrite(path string, data []byte) {
	if e := os.MkdirAll(filepath.Dir(path), 0o755); e != nil {
		harnessError("%v", e)
	}
	if e := os.WriteFile(path, data, 0o644); e != nil {
		harnessError("%v", e)
	}
}

// snapshot maps every path below dir to its content ("" and a mark for
// directories).
func snapshot(dir string) map[string]string {
	out := map[string]string{}
	e := filepath.Walk(dir, func(p string, fi os.FileInfo, e error) error {
		if e != nil {
			return e
		}
		rel, e := filepath.Rel(dir, p)
		if e != nil {
			return e
		}
		if fi.IsDir() {
			out[rel+"/"] = ""
			return nil
		}
		if !fi.Mode().IsRegular() {
			out[rel] = "special " + fi.Mode().String()
			return nil
		}
		data, e := os.ReadFile(p)
		out[rel] = string(data)
		return e
	})
	if e != nil {
		harnessError("snapshot: %v", e)
	}
	return out
}

// diffSnap tells what differs between two snapshots, or "".
func diffSnap(a, b map[string]string) string {
	for p, x := range a {
		y, ok := b[p]
		if !ok {
			return fmt.Sprintf("%q is gone", p)
		}
		if x != y {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			return fmt.Sprintf("%q changed: %d bytes before, %d after, first difference at %d", p, len(x), len(y), i)
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			return fmt.Sprintf("%q is new", p)
		}
	}
	return ""
}
