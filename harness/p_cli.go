package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gotor/swarm"
	"gotor/utils"
)

func init() {
	register(&Prop{
		ID: "P31",
		Rule: "Command lines are generated, limits mostly around the edges of the grammar and of 64 bits, and given to the real option parser in a process of its own; the limits are compared with big integers; the real program is run with limits to see that they are used; " +
			"non-trivial: a command line with a limit, port or command that is not the default (distinct by command line). What the program uploads under a limit is measured over several seconds.",
		Init: startTracker,
		Subs: []Sub{
			{"options", 3200, 32000, p31Options},
			{"used", 60, 600, p31Used},
			{"limits", 160, 1600, p31Limits},
		},
	})
	register(&Prop{
		ID: "P35",
		Rule: "Torrent files, good, damaged and missing, are given to the real program with -cmd info; its output is searched for what the file says, and the directory compared before and after; " +
			"non-trivial: a torrent of at least two files, or one that is refused (distinct by file).",
		Init: startTracker,
		Subs: []Sub{
			{"good", 1200, 12000, p35Good},
			{"large", 40, 400, p35Large},
			{"bad", 1200, 12000, p35Bad},
		},
	})
}

// ============================================================================
// P31 ========================================================================

type childOpts struct {
	Input, Dir, Cmd string
	Port            uint16
	Up, Down        int64
}

// childMain is the process that parses a command line with the real parser.
func childMain() {
	if os.Getenv("VP_CHILD") == "limits" {
		childLimits()
		return
	}
	if os.Getenv("VP_CHILD") == "store" {
		childStore()
		return
	}
	if os.Getenv("VP_CHILD") == "start" {
		childStart()
		return
	}
	o := utils.GetOpts()
	out, _ := json.Marshal(childOpts{o.Input(), o.WorkingDir(), o.Cmd(), o.Port(), o.UpLimit(), o.DnLimit()})
	fmt.Printf("\nVP%s\n", out)
}

// childLimits is the process that sets up a client with a command line, and
// finds out what its limits are.
func childLimits() {
	log.SetOutput(io.Discard)
	sw, e := swarm.NewSwarm(utils.GetOpts())
	if e != nil {
		fmt.Println(e)
		os.Exit(3)
	}
	chunk, _ := strconv.Atoi(os.Getenv("VP_CHUNK"))
	// pass counts how many chunks get through before one has to wait
	pass := func(f func(b []byte) error) int {
		var n atomic.Int64
		var ended atomic.Bool
		go func() {
			b := make([]byte, chunk)
			for n.Load() < limitChunks {
				if f(b) != nil {
					break
				}
				n.Add(1)
			}
			ended.Store(true)
		}()
		for last := int64(-1); !ended.Load() && n.Load() != last; {
			last = n.Load()
			time.Sleep(300 * time.Millisecond)
		}
		return int(n.Load())
	}
	var r, w int
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { r = pass(func(b []byte) error { return sw.RLIO.Read(zeros{}, b) }); wg.Done() }()
	go func() { w = pass(func(b []byte) error { return sw.RLIO.Write(io.Discard, b) }); wg.Done() }()
	wg.Wait()
	out, _ := json.Marshal(limitsFound{w, r, sw.Port})
	fmt.Printf("\nVP%s\n", out)
}

const limitChunks = 5000

type limitsFound struct {
	Up, Down int
	Port     uint16
}

type zeros struct{}

func (zeros) Read(b []byte) (int, error) { return len(b), nil }

// process is a finished run of a program.
type process struct {
	code     int
	out, err []byte
	timeout  bool
}

func (p *process) String() string {
	return fmt.Sprintf("exit %d, stdout %s, stderr %s", p.code, quote(p.out), quote(p.err))
}

// crashed tells whether the Go runtime ended the program.
func (p *process) crashed() bool {
	return p.code == 2 && crashMark.Match(p.err)
}

func runProgram(dir string, env []string, path string, args ...string) *process {
	ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, path, args...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var out, err bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &err
	e := cmd.Run()
	p := &process{out: out.Bytes(), err: err.Bytes()}
	var ee *exec.ExitError
	switch {
	case ctx.Err() != nil:
		p.timeout = true
	case errors.As(e, &ee):
		p.code = ee.ExitCode()
	case e != nil:
		harnessError("%s: %v", path, e)
	}
	return p
}

// refLimit reads a limit. grey is true for what the property leaves open.
func refLimit(s string) (v int64, ok bool, grey bool) {
	digits, unit, neg := s, int64(1), false
	if digits != "" && (digits[0] == '-' || digits[0] == '+') {
		neg = digits[0] == '-'
		grey = digits[0] == '+' // Only the sign that is needed must be taken
		digits = digits[1:]
	}
	if digits != "" {
		switch digits[len(digits)-1] {
		case 'B', 'b':
			unit, digits = 1, digits[:len(digits)-1]
		case 'K', 'k':
			unit, digits = 1<<10, digits[:len(digits)-1]
		case 'M', 'm':
			unit, digits = 1<<20, digits[:len(digits)-1]
		case 'G', 'g':
			unit, digits = 1<<30, digits[:len(digits)-1]
		}
	}
	if digits == "" {
		return 0, false, false
	}
	for i := range digits {
		if digits[i] < '0' || digits[i] > '9' {
			return 0, false, false
		}
	}
	n, _ := new(big.Int).SetString(digits, 10)
	n.Mul(n, big.NewInt(unit))
	if neg {
		n.Neg(n)
	}
	if !n.IsInt64() {
		return 0, false, false
	}
	if n.Int64() == -1<<63 {
		grey = true
	}
	return n.Int64(), true, grey
}

func (c *C) limit(label string) string {
	sign := pick(c, label+" sign", "", "", "", "-", "-", "+", "--")
	unit := pick(c, label+" unit", "", "B", "K", "M", "G", "b", "k", "m", "g", "", "B", "K", "M", "G")
	num := ""
	switch c.intn(0, 5, label+" kind") {
	case 0:
		num = strconv.Itoa(c.intn(0, 5000, label))
	case 1:
		num = pick(c, label, "0", "1", "00", "007", "1024", "000000000000000000000000000012")
	case 2: // Around what fits with some unit
		n := new(big.Int).Lsh(big.NewInt(1), uint(63-10*c.intn(0, 3, label+" shift")))
		n.Add(n, big.NewInt(int64(c.intn(-2, 2, label+" off"))))
		num = n.String()
	case 3: // Around powers of two, also far beyond
		n := new(big.Int).Lsh(big.NewInt(1), uint(c.intn(20, 130, label+" bits")))
		n.Add(n, big.NewInt(int64(c.intn(-2, 2, label+" off"))))
		num = n.String()
	case 4: // The product wraps around to something small
		n := new(big.Int).Lsh(big.NewInt(1), uint(64-10*c.intn(1, 3, label+" shift")))
		n.Add(n, big.NewInt(int64(c.intn(-3, 5000, label+" off"))))
		num = n.String()
	case 5:
		return string(c.mutate([]byte(sign+strconv.Itoa(c.intn(0, 99999, label))+unit), "0123456789+-BKMGbkmgTtPxe_., ", 2))
	}
	return sign + num + unit
}

func p31Options(c *C) {
	want := childOpts{Cmd: "swarm", Port: 60666, Up: -1, Down: -1}
	ok, grey, interesting := true, false, false
	var groups [][]string
	add := func(flag, value string) {
		if value != "" && value[0] != '-' && c.bool("two arguments") {
			groups = append(groups, []string{flag, value})
		} else {
			groups = append(groups, []string{flag + "=" + value})
		}
	}
	wrong := c.chance(3, "wrong") // At most one thing is wrong, so that it is known what is refused
	what := -1
	if wrong {
		what = c.intn(0, 2, "what")
	}
	if what != 0 {
		want.Input = pick(c, "input", "a.torrent", "/x/y z.torrent", "é.torrent", "a=b", "-x", " ", "i")
		add("-i", want.Input)
	} else {
		ok = false
		if c.bool("empty input") {
			groups = append(groups, []string{"-i="})
		}
	}
	if c.bool("dir") {
		want.Dir = pick(c, "wd", "", ".", "/tmp/x", "a b", "..", "é")
		add("-w", want.Dir)
	}
	if c.bool("port") || what == 1 {
		port := pick(c, "port", 1, 80, 6881, 65535, c.intn(1, 65535, "any port"))
		s := strconv.Itoa(port)
		if what == 1 {
			ok = false
			s = pick(c, "bad port", "65536", "65537", "70000", "131072", "4294967296", "4294967376", "18446744073709551616", "18446744073709551615", "-1", "x", "", "6881x", "1.5",
				strconv.Itoa(c.intn(65536, 1<<40, "bad port n")))
		} else {
			want.Port = uint16(port)
		}
		add("-p", s)
		interesting = true
	}
	if c.bool("cmd") || what == 2 {
		want.Cmd = pick(c, "cmd", "swarm", "info")
		if what == 2 {
			ok = false
			want.Cmd = pick(c, "bad cmd", "", "x", "Info", "INFO", "swarm ", " info", "infos", "inf", "download", "\x01")
		}
		add("-cmd", want.Cmd)
		interesting = true
	}
	for _, l := range []struct {
		flag string
		to   *int64
	}{{"-u", &want.Up}, {"-d", &want.Down}} {
		if !c.bool(l.flag) {
			continue
		}
		s := c.limit(l.flag)
		if strings.IndexByte(s, 0) >= 0 {
			continue
		}
		v, good, g := refLimit(s)
		grey = grey || g
		if !good {
			ok = false
		}
		*l.to = v
		add(l.flag, s)
		interesting = true
	}
	// Any order
	if c.bool("reversed") {
		for i, j := 0, len(groups)-1; i < j; i, j = i+1, j-1 {
			groups[i], groups[j] = groups[j], groups[i]
		}
	}
	var args []string
	for _, g := range groups {
		args = append(args, g...)
	}

	p := runProgram(job.Scratch, []string{"VP_CHILD=1"}, job.Self, args...)
	if p.timeout {
		c.FailTiming("%q does not end", args)
	}
	i := bytes.Index(p.out, []byte("\nVP{"))
	accepted := p.code == 0 && i >= 0
	if grey {
		// Taken for what it says, or refused
		if !accepted {
			c.Label("grey, refused")
			return
		}
		c.Label("grey, accepted")
	}
	if accepted != ok && !(grey && !ok) {
		c.Fail("accepted %v, should be %v: %q\n%s", accepted, ok, args, p)
	}
	if accepted && !ok {
		c.Fail("accepted: %q\n%s", args, p)
	}
	if ok {
		var got childOpts
		if e := json.Unmarshal(p.out[i+3:], &got); e != nil {
			harnessError("%v: %q", e, p.out)
		}
		if got != want {
			c.Fail("%q means %+v instead of %+v", args, got, want)
		}
	}
	c.Label("accepted %v", accepted)
	if interesting {
		c.NonTrivial(args)
		c.Sample("%q accepted %v", args, accepted)
	}
}

// p31Limits looks at what a client set up with a command line lets through.
func p31Limits(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.torShape(50, 500)
	if t.npieces() == 0 {
		t.files[0].length, t.total = 5, 5
	}
	t.announce = theTracker.base + "/announce"
	t.fakeHashes(1)
	mustWrite(filepath.Join(dir, "t.torrent"), t.encode())
	theTracker.set(refEncode(answer(60, nil)), false, false)
	port := c.intn(1, 65535, "port")
	args := []string{"-i", filepath.Join(dir, "t.torrent"), "-w", filepath.Join(dir, "wd"), "-p", strconv.Itoa(port)}
	chunk := pick(c, "chunk", 1, 7, 100, 1024, 16384)
	limit := func(flag string) (least, most int) {
		var n int64
		switch c.intn(0, 4, flag+" kind") {
		case 0:
			return limitChunks, limitChunks
		case 1:
			n = -int64(c.intn(1, 3000, flag))
			args = append(args, flag+"="+strconv.FormatInt(n, 10))
			return limitChunks, limitChunks
		case 2:
			n = int64(c.intn(1, 1000, flag))
			args = append(args, flag, strconv.FormatInt(n*1024, 10))
			if k := c.bool(flag + " unit"); k {
				args[len(args)-1] = strconv.FormatInt(n, 10) + pick(c, flag+" K", "K", "k")
			}
			n *= 1024
		case 3:
			n = int64(c.intn(1, 4, flag)) << 20
			args = append(args, flag, strconv.FormatInt(n>>20, 10)+pick(c, flag+" M", "M", "m"))
		default:
			n = int64(c.intn(1, 30*chunk, flag))
			args = append(args, flag, strconv.FormatInt(n, 10)+pick(c, flag+" B", "", "B", "b"))
		}
		passed := int((n + int64(chunk) - 1) / int64(chunk))
		return min(passed, limitChunks), min(passed, limitChunks)
	}
	upLeast, upMost := limit("-u")
	downLeast, downMost := limit("-d")
	p := runProgram(job.Scratch, []string{"VP_CHILD=limits", "VP_CHUNK=" + strconv.Itoa(chunk)}, job.Self, args...)
	if p.timeout {
		c.FailTiming("%q does not end", args)
	}
	i := bytes.Index(p.out, []byte("\nVP{"))
	if p.code != 0 || i < 0 {
		c.Fail("no client for %q\n%s", args, p)
	}
	var got limitsFound
	if e := json.Unmarshal(p.out[i+3:], &got); e != nil {
		harnessError("%v: %q", e, p.out)
	}
	ok := func(got, least, most int) bool { return got >= least && got <= most }
	if !ok(got.Up, upLeast, upMost) || !ok(got.Down, downLeast, downMost) {
		c.FailTiming("%q: %d chunks of %d bytes are sent before one waits (want %d), %d received (want %d)", args, got.Up, chunk, upMost, got.Down, downMost)
	}
	if int(got.Port) != port {
		c.Fail("%q: the client uses port %d", args, got.Port)
	}
	for _, r := range theTracker.requests() {
		if v, ok := queryOf(r.URL.RawQuery, "port"); !ok || v != strconv.Itoa(port) {
			c.Fail("%q: the tracker is told port %q", args, v)
		}
	}
	if upMost < limitChunks || downMost < limitChunks {
		c.NonTrivial(args, chunk)
		c.Sample("%q: %d and %d chunks of %d bytes", args[6:], got.Up, got.Down, chunk)
	}
}

// ============================================================================
// P35 ========================================================================

// infoRun runs the info command on the file.
func (c *C) infoRun(dir, file string) *process {
	before := snapshot(dir)
	theTracker.set(refEncode(answer(60, nil)), false, false)
	args := []string{"-cmd", "info", "-i", file}
	switch c.intn(0, 3, "dir") {
	case 0:
		args = append(args, "-w", dir)
	case 1:
		args = append(args, "-w", filepath.Join(dir, "sub"))
	case 2:
		args = append(args, "-w", filepath.Join(dir, "none"))
	}
	p := runProgram(dir, nil, job.Gotor, args...)
	if p.timeout {
		c.FailTiming("gotor %q does not end", args)
	}
	if d := diffSnap(before, snapshot(dir)); d != "" {
		c.Fail("gotor %q: %s\n%s", args, d, p)
	}
	if n := len(theTracker.requests()); n > 0 {
		c.Fail("gotor %q contacted the tracker", args)
	}
	if p.crashed() {
		c.Fail("gotor %q crashed: %s", args, p)
	}
	return p
}

func p35Good(c *C) {
	p35Torrent(c, c.torShape(pick(c, "max piece", 10, 1000, 1<<20), 1<<40))
}

// p35Large has torrents with very many pieces or files.
func p35Large(c *C) {
	t := c.largeTorrent()
	if !t.single {
		for i := range t.files {
			t.files[i].path = []string{"dir", fmt.Sprintf("file-%d.bin", i)}
		}
	}
	p35Torrent(c, t)
}

func p35Torrent(c *C, t *tor) {
	if t.npieces() == 0 {
		// Nothing to share
		t.files[0].length, t.total = 5, 5
	}
	t.announce = theTracker.base + "/announce?x=" + strconv.Itoa(c.index)
	t.fakeHashes(c.seed("hashes"))
	c.mayBeWild(t)
	dir, done := tempDir()
	defer done()
	// Some of its files may exist
	if c.bool("exist") {
		for i := range t.files {
			if c.bool("exists") {
				mustWrite(filepath.Join(dir, "sub", t.path(i)), content(uint64(i), int64(c.intn(0, 50, "n"))))
			}
		}
	}
	file := filepath.Join(dir, "x.torrent")
	mustWrite(file, t.encode())
	p := c.infoRun(dir, file)
	if p.code != 0 {
		c.Fail("info fails for a good torrent: %s\n%s", p, t)
	}
	ih := t.infohash()
	out := string(p.out)
	has := func(what, s string) {
		if !strings.Contains(out, s) {
			c.Fail("the output does not have the %s %q\n%s\n%s", what, s, t, out)
		}
	}
	number := func(what string, n int64) {
		if !regexp.MustCompile(`(^|[^0-9])` + strconv.FormatInt(n, 10) + `($|[^0-9])`).MatchString(out) {
			c.Fail("the output does not have the %s %d\n%s\n%s", what, n, t, out)
		}
	}
	has("name", t.name)
	has("announce URL", t.announce)
	if !strings.Contains(strings.ToLower(out), hex.EncodeToString([]byte(ih))) {
		c.Fail("the output does not have the infohash %x\n%s\n%s", ih, t, out)
	}
	number("piece count", t.npieces())
	number("total length", t.total)
	if !t.single {
		pos := 0
		for i := range t.files {
			path := strings.Join(t.files[i].path, "/")
			k := strings.Index(out[pos:], path)
			if k < 0 {
				c.Fail("the output does not have the path %q (in order)\n%s\n%s", path, t, out)
			}
			pos += k + len(path)
		}
	}
	if len(t.files) > 1 {
		c.NonTrivial(t.infohash())
		c.Sample("%s", t)
	}
	c.Label("single %v", t.single)
}

func p35Bad(c *C) {
	dir, done := tempDir()
	defer done()
	t := c.torShape(100, 3000)
	if t.npieces() == 0 {
		t.files[0].length, t.total = 5, 5
	}
	t.announce = theTracker.base + "/announce"
	t.fakeHashes(1)
	file := filepath.Join(dir, "x.torrent")
	var data []byte
	kind := c.intn(0, 4, "kind")
	switch kind {
	case 0: // No such file
	case 1: // A directory
		if e := os.Mkdir(file, 0o755); e != nil {
			harnessError("%v", e)
		}
	case 2:
		data = c.bytes(0, 60, "garbage")
	case 3:
		data = refEncode(c.damagedTorrent(t))
	case 4:
		data = c.mutate(t.encode(), "dlei0123456789:-\x00", 4)
	}
	if kind >= 2 {
		mustWrite(file, data)
	}
	loads := false
	if kind >= 2 {
		_, e := c.loadTorrent(data, dir)
		loads = e == nil
	}
	p := c.infoRun(dir, file)
	if loads {
		if p.code != 0 {
			c.Fail("info fails for a torrent that loads: %s\n%s", p, quote(data))
		}
		c.Label("loads")
		return
	}
	if p.code == 0 {
		c.Fail("info is successful for a torrent that does not load: %s\n%s", p, quote(data))
	}
	if len(p.err) == 0 {
		c.Fail("no error message: %s\n%s", p, quote(data))
	}
	c.Label("refused, kind %d", kind)
	c.NonTrivial(kind, string(data))
	c.Sample("kind %d %s: %s", kind, quote(data), p)
}
