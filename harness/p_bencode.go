package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"

	"gotor/bencode"
)

func init() {
	register(&Prop{
		ID: "P01",
		Rule: "Values are drawn recursively (strings from several alphabets and lengths, integers of all widths around powers of two and ten, lists, dictionaries); " +
			"non-trivial: the value has nesting depth >= 1 and its encoding has at least 6 bytes (distinct by encoding). Also values of several MB, nesting to the limit, and goroutines that encode and decode at the same time with all results compared at the end.",
		Subs: []Sub{
			{"roundtrip", 150000, 1500000, p01RoundTrip},
			{"canonical", 80000, 800000, p01Canonical},
			{"refused", 50000, 500000, p01Refused},
			{"deep", 200, 2000, p01Deep},
			{"large", 300, 3000, p01Large},
			{"together", 3000, 30000, p01Together},
		},
	})
	register(&Prop{
		ID: "P02",
		Rule: "Inputs are mutated valid bencodings, strings over the bencode alphabet, all strings up to length 6 over 9 telling bytes, and huge or deep inputs; " +
			"non-trivial: the input differs from every valid encoding drawn (a mutation applied) or is enumerated/deep (distinct by input).",
		Subs: []Sub{
			{"mutated", 250000, 3000000, p02Mutated},
			{"alphabet", 250000, 3000000, p02Alphabet},
			{"exhaustive", 64, 64, p02Exhaustive},
			{"huge", 100, 800, p02Huge},
		},
	})
	register(&Prop{
		ID:   "P36",
		Rule: "A drawn dictionary is bencoded by the reference encoder, decoded by the code, and read through every accessor at present and absent keys; non-trivial: at least two keys (distinct by encoding).",
		Subs: []Sub{{"access", 100000, 1000000, p36Access}},
	})
}

// ============================================================================
// Comparison =================================================================

// sameValue compares a value decoded by the code with one of the reference.
func sameValue(got any, want any) bool {
	switch w := want.(type) {
	case int64:
		g, ok := got.(int64)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case []any:
		g, ok := got.(bencode.List)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameValue(g[i], w[i]) {
				return false
			}
		}
		return true
	case *bdict:
		g, ok := got.(bencode.Dict)
		if !ok || len(g) != len(w.pairs) {
			return false
		}
		for _, p := range w.pairs {
			x, ok := g[p.k]
			if !ok || !sameValue(x, p.v) {
				return false
			}
		}
		return true
	}
	return false
}

// toCode turns a reference value into one for the code, integers getting any
// type that holds them.
func (c *C) toCode(v any) any {
	switch v := v.(type) {
	case int64:
		switch c.intn(0, 4, "int type") {
		case 1:
			if v >= math.MinInt8 && v <= math.MaxInt8 {
				return int8(v)
			}
		case 2:
			if v >= math.MinInt16 && v <= math.MaxInt16 {
				return int16(v)
			}
		case 3:
			if v >= math.MinInt32 && v <= math.MaxInt32 {
				return int32(v)
			}
		case 4:
			return int(v)
		}
		return v
	case []any:
		l := make(bencode.List, 0, len(v))
		for _, x := range v {
			l = append(l, c.toCode(x))
		}
		return l
	case *bdict:
		d := make(bencode.Dict)
		for _, p := range v.pairs {
			d[p.k] = c.toCode(p.v)
		}
		return d
	}
	return v
}

// ============================================================================
// P01 ========================================================================

func p01RoundTrip(c *C) {
	v := c.bval(4, 1)
	in := c.toCode(v)
	want := refEncode(sorted(v))

	got, e := bencode.Encode(in)
	if e != nil {
		c.Fail("Encode refused an encodable value: %v\nwant %s", e, quote(want))
	}
	if !bytes.Equal(got, want) {
		c.Fail("Encode gave\n%s, canonical is\n%s", quote(got), quote(want))
	}
	back, e := bencode.Decode(got)
	if e != nil {
		c.Fail("Decode(%s): %v", quote(got), e)
	}
	if !sameValue(back, v) {
		c.Fail("Decode(%s) gave another value: %#v", quote(got), back)
	}
	// Whose bytes they are may use them for something else
	for i := range got {
		got[i] = 'x'
	}
	if !sameValue(back, v) {
		c.Fail("the value decoded from %s became another one, as the bytes were used for something else: %#v", quote(want), back)
	}
	// Whose value it is may change it
	spoil(back)
	if back, e = bencode.Decode(want); e != nil || !sameValue(back, v) {
		c.Fail("Decode(%s), after the value decoded from the same bytes before was changed: %#v, %v", quote(want), back, e)
	}
	if again, e := bencode.Encode(in); e != nil || !bytes.Equal(again, want) {
		c.Fail("Encode gave\n%s (%v) the second time, canonical is\n%s", quote(again), e, quote(want))
	}

	if bdepth(v) >= 1 && len(want) >= 6 {
		c.NonTrivial(string(want))
	}
	c.Label("depth %d", bdepth(v))
	c.Sample("Encode -> %s -> Decode", quote(want))
}

// spoil changes everything that can be changed about a decoded value.
func spoil(v any) {
	switch v := v.(type) {
	case bencode.List:
		for i := range v {
			spoil(v[i])
			v[i] = "spoilt"
		}
	case bencode.Dict:
		for k, x := range v {
			spoil(x)
			v[k] = "spoilt"
		}
		v["spoilt"] = int64(1)
	}
}

func p01Canonical(c *C) {
	v := sorted(c.bval(4, 1))
	enc := refEncode(v)
	back, e := bencode.Decode(enc)
	if e != nil {
		c.Fail("Decode(%s): %v", quote(enc), e)
	}
	again, e := bencode.Encode(back)
	if e != nil || !bytes.Equal(again, enc) {
		c.Fail("canonical bencoding\n%s came back as\n%s (%v)", quote(enc), quote(again), e)
	}
	if bdepth(v) >= 1 && len(enc) >= 6 {
		c.NonTrivial("c", string(enc))
	}
}

// p01Together encodes and decodes several values, one after the other with all
// results kept, and then at the same time.
func p01Together(c *C) {
	n := c.intn(2, 8, "values")
	vals, in := make([]any, n), make([]any, n)
	want, got := make([][]byte, n), make([][]byte, n)
	for i := range vals {
		if i > 0 && c.chance(4, "as before") {
			vals[i] = vals[i-1]
		} else {
			vals[i] = c.bval(4, 1)
		}
		in[i] = c.toCode(vals[i])
		want[i] = refEncode(sorted(vals[i]))
	}
	for i := range vals {
		var e error
		if got[i], e = bencode.Encode(in[i]); e != nil {
			c.Fail("Encode refused an encodable value: %v\nwant %s", e, quote(want[i]))
		}
	}
	back := make([]any, n)
	for i := range vals {
		if !bytes.Equal(got[i], want[i]) {
			c.Fail("after %d more values were encoded, the encoding of value %d is\n%s, it should be\n%s", n-1-i, i, quote(got[i]), quote(want[i]))
		}
		back[i], _ = bencode.Decode(want[i])
	}
	for i := range vals {
		if !sameValue(back[i], vals[i]) {
			c.Fail("after %d more values were decoded, the one decoded from %s is %#v", n-1-i, quote(want[i]), back[i])
		}
	}

	// At once
	rounds := c.intn(1, 10, "rounds")
	bad := make([]string, n)
	var wg sync.WaitGroup
	for i := range vals {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < rounds; k++ {
				enc, e := bencode.Encode(in[i])
				if e != nil || !bytes.Equal(enc, want[i]) {
					bad[i] = fmt.Sprintf("Encode gave\n%s (%v), canonical is\n%s", quote(enc), e, quote(want[i]))
				}
				v, e := bencode.Decode(want[i])
				if e != nil || !sameValue(v, vals[i]) {
					bad[i] = fmt.Sprintf("Decode(%s): %#v, %v", quote(want[i]), v, e)
				}
			}
		}()
	}
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("%d goroutines at once: %s", n, b)
		}
	}
	if bdepth(vals[0]) >= 1 && bdepth(vals[1]) >= 1 {
		c.NonTrivial("t", string(want[0]), string(want[1]))
	}
}

// p01Large encodes and decodes values with many elements and long strings.
func p01Large(c *C) {
	seed := c.seed("content")
	size := func(most int) int {
		if c.chance(3, "round size") {
			return min(most, 1<<uint(c.intn(4, 17, "exp"))+c.intn(-2, 2, "off"))
		}
		return c.intn(0, most, "size")
	}
	elem := func(i int) any {
		x := content(seed+uint64(i), 12)
		switch x[0] % 4 {
		case 0:
			return int64(i)
		case 1:
			return string(x[1 : 2+x[1]%10])
		case 2:
			return []any{int64(x[1]), string(x[2:4])}
		}
		return -int64(x[1])<<(x[2]%50) - int64(i)
	}
	var v any
	kind := c.intn(0, 2, "kind")
	n := 0
	huge := c.index%10 == 0
	switch kind {
	case 0:
		n = max(1, size(300000))
		if huge {
			n = 1<<20 + int(binary.BigEndian.Uint64(content(seed, 8))%(1<<24))
		}
		v = string(content(seed, int64(n)))
	case 1:
		n = size(5000)
		if huge {
			n = 1<<14 + int(binary.BigEndian.Uint64(content(seed, 8))%(1<<17))
		}
		l := make([]any, n)
		for i := range l {
			l[i] = elem(i)
		}
		v = l
	case 2:
		n = size(5000)
		if huge {
			n = 1<<14 + int(binary.BigEndian.Uint64(content(seed, 8))%(1<<17))
		}
		d := &bdict{}
		for i := 0; i < n; i++ {
			// Not through set, which looks at all others
			d.pairs = append(d.pairs, bpair{fmt.Sprintf("%s%d", content(seed+uint64(i), 3), i), elem(i)})
		}
		v = d
	}
	for k := c.intn(0, 3, "wrapped"); k > 0; k-- {
		v = pick(c, "wrap", any([]any{"a", v, int64(1)}), any(&bdict{[]bpair{{"v", v}, {"w", int64(2)}}}))
	}
	want := refEncode(sorted(v))
	got, e := bencode.Encode(c.toCodeAsIs(v))
	if e != nil {
		c.Fail("Encode refused a value of %d elements or bytes: %v", n, e)
	}
	if !bytes.Equal(got, want) {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		c.Fail("Encode of a value of %d elements or bytes (kind %d) gave %d bytes, canonical are %d; first difference at %d", n, kind, len(got), len(want), i)
	}
	back, e := bencode.Decode(want)
	if e != nil {
		c.Fail("Decode of a canonical value of %d elements or bytes (kind %d): %v", n, kind, e)
	}
	if !sameValue(back, v) {
		c.Fail("Decode of a canonical value of %d elements or bytes (kind %d) gave another value", n, kind)
	}
	c.Label("kind %d, %d and more", kind, n/1000*1000)
	c.NonTrivial("large", kind, n, len(want), seed)
}

// toCodeAsIs is toCode with integers of 64 bits only.
func (c *C) toCodeAsIs(v any) any {
	switch v := v.(type) {
	case []any:
		l := make(bencode.List, 0, len(v))
		for _, x := range v {
			l = append(l, c.toCodeAsIs(x))
		}
		return l
	case *bdict:
		d := make(bencode.Dict)
		for _, p := range v.pairs {
			d[p.k] = c.toCodeAsIs(p.v)
		}
		return d
	}
	return v
}

type unsupported struct{ A int }

func p01Refused(c *C) {
	v := c.toCode(c.bval(3, 1))

	// Wrap the bad value in some depth of good ones
	var bad any
	kind := c.intn(0, 7, "bad kind")
	switch kind {
	case 0:
		bad = ""
	case 1:
		bad = bencode.Dict{"": v}
	case 2:
		bad = bencode.Dict{"": ""}
	case 3:
		bad = 1.5
	case 4:
		bad = nil
	case 5:
		bad = true
	case 6:
		bad = unsupported{1}
	case 7:
		bad = func() {}
	}
	depth := c.intn(0, 6, "depth")
	for i := 0; i < depth; i++ {
		if c.bool("list") {
			l := bencode.List{}
			at := c.intn(0, 2, "at")
			for j := 0; j < 3; j++ {
				if j == at {
					l = append(l, bad)
				} else {
					l = append(l, c.toCode(c.bval(1, 1)))
				}
			}
			bad = l
		} else {
			d := bencode.Dict{"k0": int64(1), "k1": v, c.bstr(1, "key"): bad}
			bad = d
		}
	}
	enc, e := bencode.Encode(bad)
	if e == nil {
		c.Fail("Encode accepted a value that cannot be encoded (kind %d at depth %d): %s", kind, depth, quote(enc))
	}
	c.Label("refused kind %d", kind)
	c.NonTrivial("r", kind, depth, c.first)
	c.key = append(c.key, strings.Repeat("x", depth)...)
}

func p01Deep(c *C) {
	n := c.intn(50, 3000, "depth")
	var v any = c.bval(1, 1)
	for i := 0; i < n; i++ {
		switch c.intn(0, 3, "wrap") {
		case 0, 1:
			v = []any{v}
		case 2:
			v = &bdict{[]bpair{{"a", v}}}
		case 3:
			v = []any{int64(i), v, "z"}
		}
	}
	want := refEncode(sorted(v))
	got, e := bencode.Encode(c.toCode(v))
	if e != nil || !bytes.Equal(got, want) {
		c.Fail("Encode of a value nested %d deep: %v", n, e)
	}
	back, e := bencode.Decode(got)
	if e != nil || !sameValue(back, v) {
		c.Fail("Decode of a value nested %d deep: %v", n, e)
	}
	c.NonTrivial("d", string(want))
}

// ============================================================================
// P02 ========================================================================

// checkDecode compares Decode with the reference on any input.
func (c *C) checkDecode(in []byte) {
	keep := append([]byte(nil), in...)
	// What lies behind the input must not matter
	back := append(append([]byte(nil), in...), "e:1:ai1eeee"...)
	got, e := bencode.Decode(back[:len(in)])
	in = back[:len(in)]
	if !bytes.Equal(in, keep) {
		c.Fail("Decode changed its input %s", quote(keep))
	}
	want, n, ok, grey := refDecode(keep)
	switch {
	case grey && e != nil:
		c.Label("grey refused")
	case grey:
		if !ok {
			c.Fail("Decode accepted %s, which is not bencoding: %#v", quote(keep), got)
		}
		c.Label("grey accepted")
	case ok && e != nil:
		c.Fail("Decode refused %s, which starts with a bencoding of %d bytes: %v", quote(keep), n, e)
	case !ok && e == nil:
		c.Fail("Decode accepted %s, which is not bencoding: %#v", quote(keep), got)
	case ok && !sameValue(got, want):
		c.Fail("Decode(%s) gave %#v", quote(keep), got)
	case ok:
		c.Label("accepted")
	default:
		c.Label("refused")
	}
	if e == nil && got == nil {
		c.Fail("Decode(%s) gave neither a value nor an error", quote(keep))
	}
}

const benAlphabet = "ilde0123456789:-"

func p02Mutated(c *C) {
	in := refEncode(c.bval(4, 0))
	if c.chance(4, "tail") {
		in = append(in, c.bstr(0, "tail")...)
		c.Label("with tail")
	}
	if !c.chance(6, "intact") {
		in = c.mutate(in, benAlphabet, 3)
		c.NonTrivial(string(in))
		c.Sample("Decode(%s)", quote(in))
	}
	c.checkDecode(in)
}

func p02Alphabet(c *C) {
	var b bytes.Buffer
	n := c.intn(1, 10, "tokens")
	for i := 0; i < n; i++ {
		switch c.intn(0, 9, "token") {
		case 0:
			b.WriteString("l")
		case 1:
			b.WriteString("d")
		case 2, 3:
			b.WriteString("e")
		case 4:
			b.Write(refEncode(c.i64("int")))
		case 5:
			b.Write(refEncode(c.bstr(0, "str")))
		case 6: // integers of all sorts
			b.WriteString("i" + pick(c, "sign", "", "-", "--", "+", " ") + pick(c, "zeros", "", "0", "00") +
				pick(c, "digits", "", "1", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551616", "99999999999999999999999") +
				pick(c, "end", "e", "e", "", "x"))
		case 7: // string lengths of all sorts
			b.WriteString(pick(c, "len", "0", "1", "2", "3", "00", "01", "4294967296", "9223372036854775807", "9223372036854775808",
				"18446744073709551615", "18446744073709551616", "-1", "") + pick(c, "colon", ":", ":", "", ";") + string(c.bytes(0, 3, "data")))
		case 8:
			b.Write(rapidSample(c, benAlphabet, 0, 6))
		case 9:
			b.Write(c.bytes(0, 4, "any"))
		}
	}
	in := b.Bytes()
	c.NonTrivial("a", string(in))
	c.Sample("Decode(%s)", quote(in))
	c.checkDecode(in)
}

func rapidSample(c *C, alphabet string, lo, hi int) []byte {
	n := c.intn(lo, hi, "n")
	out := make([]byte, n)
	for i := range out {
		out[i] = alphabet[c.intn(0, len(alphabet)-1, "b")]
	}
	return out
}

// p02Exhaustive enumerates all strings up to length 6 over a few bytes, one part
// of them per case.
func p02Exhaustive(c *C) {
	const alpha = "idle01-:a"
	part := c.index % 64
	c.NonTrivial("part", part)
	count := 0
	for n := 0; n <= 6; n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alpha)
		}
		buf := make([]byte, n)
		for k := part; k < total; k += 64 {
			x := k
			for i := 0; i < n; i++ {
				buf[i] = alpha[x%len(alpha)]
				x /= len(alpha)
			}
			c.checkDecode(buf)
			count++
		}
	}
	c.Label("enumerated part of length <= 6")
}

func p02Huge(c *C) {
	n := c.intn(1, 3000000, "n")
	kind := c.intn(0, 9, "kind")
	var in []byte
	switch kind {
	case 0:
		in = bytes.Repeat([]byte("l"), n)
	case 1:
		in = bytes.Repeat([]byte("d1:a"), n)
	case 2:
		in = append(bytes.Repeat([]byte("l"), n), bytes.Repeat([]byte("e"), n)...)
	case 3:
		in = append([]byte("i"), bytes.Repeat([]byte("9"), n)...)
	case 4:
		in = append([]byte("i"), append(bytes.Repeat([]byte("1"), n), 'e')...)
	case 5:
		in = append(bytes.Repeat([]byte("1"), n), ':')
	case 6:
		in = append(bytes.Repeat([]byte("0"), n), []byte("1:a")...)
	case 7:
		in = append([]byte("l"), append(bytes.Repeat([]byte("0:"), n/2), 'e')...)
	case 8:
		in = bytes.Repeat([]byte("ld1:a"), n/2)
	case 9:
		in = append([]byte("l"), append(bytes.Repeat([]byte("i1e"), n/3), 'e')...)
	}
	c.Label("huge kind %d", kind)
	c.NonTrivial("h", kind, n)
	// The reference decoder recurses as well, it is only asked where that is
	// harmless
	got, e := bencode.Decode(in)
	if got == nil && e == nil {
		c.Fail("Decode of %d bytes (kind %d) gave neither a value nor an error", len(in), kind)
	}
	switch kind {
	case 0, 1, 3, 5, 8:
		if e == nil {
			c.Fail("Decode accepted truncated input (kind %d, n %d)", kind, n)
		}
	case 4:
		if n > 19 && e == nil {
			c.Fail("Decode accepted an integer of %d digits", n)
		}
	case 7, 9:
		if e != nil {
			c.Fail("Decode refused a flat list (kind %d, n %d): %v", kind, n, e)
		}
		l, ok := got.(bencode.List)
		if want := map[int]int{7: n / 2, 9: n / 3}[kind]; !ok || len(l) != want {
			c.Fail("Decode of a flat list of %d elements gave %d", want, len(l))
		}
	}
}

// ============================================================================
// P36 ========================================================================

func p36Access(c *C) {
	d := c.bdictOf(2, 0)
	enc := refEncode(d)
	v, e := bencode.Decode(enc)
	if e != nil {
		c.Fail("Decode(%s): %v", quote(enc), e)
	}
	dict, ok := v.(bencode.Dict)
	if !ok {
		c.Fail("Decode(%s) is no dictionary but %T", quote(enc), v)
	}
	if len(d.pairs) >= 2 {
		c.NonTrivial(string(enc))
	}
	c.Sample("accessors on %s", quote(enc))

	keys := []string{c.bstr(0, "other key"), "", "length"}
	for _, p := range d.pairs {
		keys = append(keys, p.k, p.k+"x", strings.ToUpper(p.k))
		if len(p.k) > 0 {
			keys = append(keys, p.k[:len(p.k)-1])
		}
	}
	for _, k := range keys {
		want, present := d.get(k)

		check := func(name string, got any, e error, right bool) {
			var missing *bencode.DictMissingKeyError
			isMissing := errors.As(e, &missing)
			switch {
			case !present && (e == nil || !isMissing):
				c.Fail("%s(%q) of %s: key is missing, got %v, %v", name, k, quote(enc), got, e)
			case present && right && (e != nil || !sameValue(got, want)):
				c.Fail("%s(%q) of %s: got %v, %v", name, k, quote(enc), got, e)
			case present && !right && (e == nil || isMissing):
				c.Fail("%s(%q) of %s: value has another type, got %v, %v", name, k, quote(enc), got, e)
			}
			if e != nil {
				_ = e.Error() // must not crash either
			}
		}

		s, e := dict.GetString(k)
		_, right := want.(string)
		check("GetString", s, e, right)

		i, e := dict.GetInt(k)
		n, right := want.(int64)
		check("GetInt", i, e, right)

		u, e := dict.GetUint(k)
		check("GetUint", int64(u), e, right && n >= 0)
		if right && n < 0 {
			c.Label("negative as unsigned")
		}

		l, e := dict.GetList(k)
		_, right = want.([]any)
		check("GetList", l, e, right)

		dd, e := dict.GetDict(k)
		_, right = want.(*bdict)
		check("GetDict", dd, e, right)
		c.Label("present %v", present)
	}
}
