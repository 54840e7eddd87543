package main

// Coverage-guided fuzzing of what reads bytes of others, for the thorough tier.
// check.py builds this with go test -c -fuzz and runs it in a scratch directory.

import (
	"crypto/sha1"
	"os"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func TestMain(m *testing.M) {
	d, e := os.MkdirTemp("", "fuzz")
	if e != nil {
		panic(e)
	}
	job.Scratch = d
	rc := m.Run()
	_ = os.RemoveAll(d)
	os.Exit(rc)
}

func seeds(f *testing.F, gen func(c *C) []byte) {
	g := rapid.Custom(func(t *rapid.T) []byte { return gen(&C{T: t}) })
	for i := 0; i < 60; i++ {
		f.Add(g.Example(i))
	}
}

func fuzz(f *testing.F, run func(c *C, in []byte)) {
	f.Fuzz(func(t *testing.T, in []byte) {
		if len(in) > 1<<16 {
			return
		}
		slow := time.AfterFunc(30*time.Second, func() { panic("the case does not end") })
		defer slow.Stop()
		run(&C{fuzz: func(msg string) { t.Fatal(msg) }}, in)
	})
}

func FuzzP02(f *testing.F) {
	seeds(f, func(c *C) []byte { return refEncode(c.bval(4, 0)) })
	fuzz(f, func(c *C, in []byte) { c.checkDecode(in) })
}

func torrentSeed(c *C) []byte {
	t := c.torShape(64, 1024)
	t.fakeHashes(1)
	return t.encode()
}

// FuzzP03 checks the identity of whatever is loaded.
func FuzzP03(f *testing.F) {
	seeds(f, torrentSeed)
	fuzz(f, func(c *C, in []byte) {
		got, e := c.loadTorrent(in, "/nowhere/wd")
		v, _, ok, grey := refDecode(in)
		if e != nil || grey {
			return
		}
		top, is := v.(*bdict)
		if !ok || !is {
			c.Fail("loaded %s, which is not a dictionary", quote(in))
		}
		count := map[string]int{}
		for _, p := range top.pairs {
			count[p.k]++
		}
		inf, _ := top.get("info")
		if _, is := inf.(*bdict); !is {
			c.Fail("loaded %s without an info dictionary", quote(in))
		}
		if ann, _ := top.get("announce"); count["announce"] == 1 && ann != got.Announce() {
			c.Fail("announce is %q in %s", got.Announce(), quote(in))
		}
		// Whatever the reference decoder keeps is written again as it was
		if want := sha1.Sum(refEncode(inf)); count["info"] == 1 && got.Infohash() != string(want[:]) {
			c.Fail("infohash is %x instead of %x of %s", got.Infohash(), want, quote(in))
		}
	})
}

func FuzzP04(f *testing.F) {
	seeds(f, torrentSeed)
	fuzz(f, func(c *C, in []byte) {
		if got, e := c.loadTorrent(in, "/nowhere/wd"); e == nil {
			c.checkCoherent(got, in)
		}
	})
}

func FuzzP15(f *testing.F) {
	seeds(f, func(c *C) []byte { return append(c.wmsg().encode(), c.badMsg()...) })
	fuzz(f, func(c *C, in []byte) {
		c.checkSingle(in)
		c.checkBatch(in)
	})
}

func FuzzP30(f *testing.F) {
	startTracker()
	seeds(f, func(c *C) []byte {
		d, _, _ := c.goodAnswer()
		return refEncode(d)
	})
	fuzz(f, func(c *C, in []byte) { c.checkAnyAnswer(in) })
}
