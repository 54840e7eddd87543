package main

import (
	"bytes"
	"fmt"
	"math"
	"sort"

	"pgregory.net/rapid"
)

// ============================================================================
// Small draws ================================================================

func (c *C) intn(lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }
func (c *C) bool(label string) bool            { return rapid.Bool().Draw(c.T, label) }

// chance is true in about one of n cases. It shrinks to false.
func (c *C) chance(n int, label string) bool { return rapid.IntRange(0, n-1).Draw(c.T, label) == n-1 }

func (c *C) bytes(lo, hi int, label string) []byte {
	return rapid.SliceOfN(rapid.Byte(), lo, hi).Draw(c.T, label)
}

func pick[T any](c *C, label string, vals ...T) T {
	return vals[rapid.IntRange(0, len(vals)-1).Draw(c.T, label)]
}

// content is a block of n bytes that depends on a drawn seed only, so that large
// contents cost few draws. No two parts of it are likely to be equal.
func content(seed uint64, n int64) []byte {
	out := make([]byte, n)
	fillContent(seed, out)
	return out
}

func fillContent(seed uint64, out []byte) {
	x := seed*0x9E3779B97F4A7C15 + 0x1234567
	for i := 0; i < len(out); i += 8 {
		// splitmix64
		x += 0x9E3779B97F4A7C15
		z := x
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
		z = (z ^ (z >> 27)) * 0x94D049BB133111EB
		z ^= z >> 31
		for j := i; j < i+8 && j < len(out); j++ {
			out[j] = byte(z)
			z >>= 8
		}
	}
}

func (c *C) seed(label string) uint64 { return rapid.Uint64Range(0, 1<<32).Draw(c.T, label) }

// ============================================================================
// Reference bencoding ========================================================

// Values are int64, string, []any and *bdict.

type bpair struct {
	k string
	v any
}

// bdict keeps its keys in the order they are written in.
type bdict struct{ pairs []bpair }

func (d *bdict) set(k string, v any) {
	for i := range d.pairs {
		if d.pairs[i].k == k {
			d.pairs[i].v = v
			return
		}
	}
	d.pairs = append(d.pairs, bpair{k, v})
}

func (d *bdict) get(k string) (any, bool) {
	for i := range d.pairs {
		if d.pairs[i].k == k {
			return d.pairs[i].v, true
		}
	}
	return nil, false
}

// twice tells whether a key is there twice.
func (d *bdict) twice() bool {
	seen := map[string]bool{}
	for _, p := range d.pairs {
		if seen[p.k] {
			return true
		}
		seen[p.k] = true
	}
	return false
}

func (d *bdict) del(k string) {
	for i := range d.pairs {
		if d.pairs[i].k == k {
			d.pairs = append(d.pairs[:i], d.pairs[i+1:]...)
			return
		}
	}
}

func (d *bdict) sort() {
	sort.SliceStable(d.pairs, func(i, j int) bool { return d.pairs[i].k < d.pairs[j].k })
}

// braw is written as it is.
type braw string

func refEncode(v any) []byte {
	var b bytes.Buffer
	refEncodeTo(&b, v)
	return b.Bytes()
}

func refEncodeTo(b *bytes.Buffer, v any) {
	switch v := v.(type) {
	case int64:
		fmt.Fprintf(b, "i%de", v)
	case int:
		fmt.Fprintf(b, "i%de", v)
	case string:
		fmt.Fprintf(b, "%d:", len(v))
		b.WriteString(v)
	case []any:
		b.WriteByte('l')
		for _, x := range v {
			refEncodeTo(b, x)
		}
		b.WriteByte('e')
	case *bdict:
		b.WriteByte('d')
		for _, p := range v.pairs {
			fmt.Fprintf(b, "%d:", len(p.k))
			b.WriteString(p.k)
			refEncodeTo(b, p.v)
		}
		b.WriteByte('e')
	case braw:
		b.WriteString(string(v))
	default:
		harnessError("refEncode: %T", v)
	}
}

// refDecode decodes the bencoding at the start of data. ok is false if there is
// none. grey is true where BEP 3 leaves open, or forbids what decoders commonly
// accept (leading zeros in string lengths, duplicate keys, great depth).
func refDecode(data []byte) (v any, n int, ok bool, grey bool) {
	d := refDecoder{data: data}
	v, ok = d.value(0)
	return v, d.pos, ok, d.grey
}

type refDecoder struct {
	data []byte
	pos  int
	grey bool
}

func (d *refDecoder) peek() (byte, bool) {
	if d.pos >= len(d.data) {
		return 0, false
	}
	return d.data[d.pos], true
}

func (d *refDecoder) value(depth int) (any, bool) {
	if depth > 1000 {
		d.grey = true
	}
	b, ok := d.peek()
	if !ok {
		return nil, false
	}
	switch {
	case b == 'i':
		return d.integer()
	case b >= '0' && b <= '9':
		return d.str()
	case b == 'l':
		d.pos++
		list := []any{}
		for {
			b, ok := d.peek()
			if !ok {
				return nil, false
			}
			if b == 'e' {
				d.pos++
				return list, true
			}
			v, ok := d.value(depth + 1)
			if !ok {
				return nil, false
			}
			list = append(list, v)
		}
	case b == 'd':
		d.pos++
		dict := &bdict{}
		seen := map[string]bool{}
		for {
			b, ok := d.peek()
			if !ok {
				return nil, false
			}
			if b == 'e' {
				d.pos++
				return dict, true
			}
			k, ok := d.str()
			if !ok {
				return nil, false
			}
			v, ok := d.value(depth + 1)
			if !ok {
				return nil, false
			}
			if seen[k.(string)] {
				d.grey = true
			}
			seen[k.(string)] = true
			dict.pairs = append(dict.pairs, bpair{k.(string), v})
		}
	}
	return nil, false
}

func (d *refDecoder) str() (any, bool) {
	start := d.pos
	n := 0
	for {
		b, ok := d.peek()
		if !ok {
			return nil, false
		}
		d.pos++
		if b == ':' {
			break
		}
		if b < '0' || b > '9' {
			return nil, false
		}
		if n <= len(d.data) {
			n = n*10 + int(b-'0')
		}
	}
	if d.pos-1 == start {
		return nil, false
	}
	if d.data[start] == '0' && d.pos-1 > start+1 {
		d.grey = true
	}
	if n > len(d.data)-d.pos {
		return nil, false
	}
	s := string(d.data[d.pos : d.pos+n])
	d.pos += n
	return s, true
}

func (d *refDecoder) integer() (any, bool) {
	d.pos++ // i
	end := bytes.IndexByte(d.data[d.pos:], 'e')
	if end < 0 {
		return nil, false
	}
	s := d.data[d.pos : d.pos+end]
	d.pos += end + 1

	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	if len(s) == 0 {
		return nil, false
	}
	if s[0] == '0' && (len(s) > 1 || neg) {
		return nil, false
	}
	limit := uint64(math.MaxInt64)
	if neg {
		limit++
	}
	v := uint64(0)
	for _, b := range s {
		if b < '0' || b > '9' {
			return nil, false
		}
		x := uint64(b - '0')
		if v > (limit-x)/10 {
			return nil, false
		}
		v = v*10 + x
	}
	if neg {
		return -int64(v), true // also for the smallest one
	}
	return int64(v), true
}

// ============================================================================
// Bencode generators =========================================================

func (c *C) i64(label string) int64 {
	switch c.intn(0, 5, label+" kind") {
	case 0:
		return int64(c.intn(0, 20, label))
	case 1:
		return int64(c.intn(-300, 300, label))
	case 2:
		// Around a power of two
		e := c.intn(0, 63, label+" exp")
		v := int64(uint64(1)<<uint(e)) + int64(c.intn(-2, 2, label+" off"))
		if c.bool(label + " neg") {
			return -v
		}
		return v
	case 3:
		return pick(c, label, int64(math.MaxInt64), int64(math.MinInt64), int64(math.MinInt64)+1, int64(math.MaxInt64)-1, int64(0), int64(-1))
	case 4:
		// Around a power of ten
		v := int64(1)
		for i := c.intn(0, 18, label+" exp"); i > 0; i-- {
			v *= 10
		}
		v += int64(c.intn(-1, 1, label+" off"))
		if c.bool(label + " neg") {
			return -v
		}
		return v
	default:
		return rapid.Int64().Draw(c.T, label)
	}
}

// bstr draws a string; some look like bencoding.
func (c *C) bstr(minLen int, label string) string {
	switch c.intn(0, 6, label+" kind") {
	case 0, 1, 2:
		return string(rapid.SliceOfN(rapid.SampledFrom([]byte("abcxyz")), minLen, 6).Draw(c.T, label))
	case 3:
		return string(rapid.SliceOfN(rapid.Byte(), minLen, 12).Draw(c.T, label))
	case 4:
		return string(rapid.SliceOfN(rapid.SampledFrom([]byte("ilde0123456789:-")), minLen, 12).Draw(c.T, label))
	case 5:
		n := c.intn(max(minLen, 1), 300, label+" len")
		return string(content(c.seed(label), int64(n)))
	default:
		n := pick(c, label+" len", 9, 10, 11, 99, 100, 101, 999, 1000)
		return string(bytes.Repeat([]byte{byte(c.intn(0, 255, label))}, n))
	}
}

// bval draws a bencodable value. Keys of a dictionary are distinct, and in any
// order.
func (c *C) bval(depth int, minLen int) any {
	k := c.intn(0, 5, "value kind")
	if depth <= 0 && k > 3 {
		k -= 4
	}
	switch k {
	case 0, 1:
		return c.i64("int")
	case 2, 3:
		return c.bstr(minLen, "str")
	case 4:
		n := c.intn(0, 4, "list len")
		l := make([]any, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, c.bval(depth-1, minLen))
		}
		return l
	default:
		return c.bdictOf(depth, minLen)
	}
}

func (c *C) bdictOf(depth int, minLen int) *bdict {
	n := c.intn(0, 5, "dict len")
	d := &bdict{}
	for i := 0; i < n; i++ {
		d.set(c.bstr(minLen, "key"), c.bval(depth-1, minLen))
	}
	return d
}

// sorted returns the value with the keys of its dictionaries in byte order.
func sorted(v any) any {
	switch v := v.(type) {
	case []any:
		out := make([]any, len(v))
		for i := range v {
			out[i] = sorted(v[i])
		}
		return out
	case *bdict:
		out := &bdict{}
		for _, p := range v.pairs {
			out.pairs = append(out.pairs, bpair{p.k, sorted(p.v)})
		}
		out.sort()
		return out
	}
	return v
}

func bdepth(v any) int {
	m := 0
	switch v := v.(type) {
	case []any:
		for _, x := range v {
			m = max(m, bdepth(x))
		}
		return m + 1
	case *bdict:
		for _, p := range v.pairs {
			m = max(m, bdepth(p.v))
		}
		return m + 1
	}
	return 0
}

// mutate changes bytes of data in a few places.
func (c *C) mutate(data []byte, alphabet string, max int) []byte {
	out := append([]byte(nil), data...)
	n := c.intn(1, max, "mutations")
	for i := 0; i < n; i++ {
		if len(out) == 0 {
			out = append(out, alphabet[c.intn(0, len(alphabet)-1, "b")])
			continue
		}
		pos := c.intn(0, len(out)-1, "pos")
		switch c.intn(0, 6, "mutation") {
		case 0: // truncate
			out = out[:pos]
		case 1: // replace by a telling byte
			out[pos] = alphabet[c.intn(0, len(alphabet)-1, "b")]
		case 2: // insert
			b := alphabet[c.intn(0, len(alphabet)-1, "b")]
			out = append(out[:pos], append([]byte{b}, out[pos:]...)...)
		case 3: // delete
			out = append(out[:pos], out[pos+1:]...)
		case 4: // flip a bit
			out[pos] ^= 1 << uint(c.intn(0, 7, "bit"))
		case 5: // copy a part
			end := min(len(out), pos+c.intn(1, 12, "n"))
			part := append([]byte(nil), out[pos:end]...)
			at := c.intn(0, len(out), "at")
			out = append(out[:at], append(part, out[at:]...)...)
		case 6: // any byte
			out[pos] = byte(c.intn(0, 255, "b"))
		}
	}
	return out
}

func quote(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%q... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%q", b)
}
