// Command vp runs the property checks. It is started by /verif/check.py, one
// process per worker, with a job description in the environment (VP_JOB).
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// ============================================================================
// Jobs =======================================================================

// Job is what one worker process has to do.
type Job struct {
	Prop    string  `json:"prop"`
	Tier    string  `json:"tier"`
	Seed    uint64  `json:"seed"`
	Worker  int     `json:"worker"`
	Workers int     `json:"workers"`
	Scratch string  `json:"scratch"` // Directory of this worker only
	Budget  float64 `json:"budget"`  // Seconds, no new case is started after that
	Shrink  float64 `json:"shrink"`  // Seconds spent on shrinking a failure
	Gotor   string  `json:"gotor"`   // The gotor program
	Self    string  `json:"self"`    // This program
	Port    int     `json:"port"`    // First port this worker may listen on

	// Run only this case
	OnlySub   string `json:"only_sub"`
	OnlyIndex int    `json:"only_index"`
	Failfile  string `json:"failfile"` // rapid's choices, instead of the seed
	Repeat    int    `json:"repeat"`   // Run the one case this many times
}

// Violation is a failed case.
type Violation struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Index    int      `json:"index"`
	Seed     uint64   `json:"verif_seed"`
	CaseSeed uint64   `json:"case_seed"`
	Timing   bool     `json:"timing"` // Depends on time, only counts when it happens again
	Message  string   `json:"message"`
	Log      []string `json:"log"`      // What was drawn for the smallest failing case
	Failfile string   `json:"failfile"` // rapid's choices for it
}

// Result is what a worker reports.
type Result struct {
	Evaluations int                       `json:"evaluations"`
	NonTrivial  int                       `json:"nontrivial"`
	Discarded   int                       `json:"discarded"`
	Labels      map[string]int            `json:"labels"`
	Samples     []string                  `json:"samples"`
	Subs        map[string]map[string]int `json:"subs"`
	Violations  []Violation               `json:"violations"`
	Truncated   bool                      `json:"truncated"`
	Rule        string                    `json:"rule"`
	Done        bool                      `json:"done"`
}

var (
	job     Job
	result  Result
	hashes  map[uint64]struct{}
	journal *os.File
)

// ============================================================================
// Properties =================================================================

// Sub is one generated check of a property.
type Sub struct {
	Name     string
	Quick    int // How many cases
	Thorough int
	Run      func(c *C)
}

// Prop is a property.
type Prop struct {
	ID       string
	Rule     string // How cases are made, and which are non-trivial
	NeedOpts bool   // The process gets gotor's command line, see session.go
	Init     func() // Once per process
	Subs     []Sub
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// C is a case that is running.
type C struct {
	*rapid.T
	first  bool // The first execution of the case, not one for shrinking
	index  int  // Which case of its sub this is
	key    []byte
	nontr  bool
	labels []string
	sample string
	fuzz   func(msg string) // Ends a case of the coverage-guided fuzzer, which has no T
}

var (
	failMu     sync.Mutex
	failTiming bool
	failMsg    string
)

// Fail reports that the property is broken.
func (c *C) Fail(format string, args ...any) {
	setFail(false, fmt.Sprintf(format, args...))
	c.stop(format, args...)
}

func (c *C) stop(format string, args ...any) {
	if c.fuzz != nil {
		c.fuzz(fmt.Sprintf(format, args...))
	}
	c.T.Fatalf(format, args...)
}

// FailTiming reports something that looks broken, but depends on time. It is
// only believed when it happens again.
func (c *C) FailTiming(format string, args ...any) {
	setFail(true, fmt.Sprintf(format, args...))
	c.stop(format, args...)
}

func setFail(timing bool, msg string) {
	failMu.Lock()
	failTiming, failMsg = timing, msg
	failMu.Unlock()
}

// NonTrivial marks the case as non-trivial, key is what makes it distinct.
func (c *C) NonTrivial(key ...any) {
	c.nontr = true
	c.key = append(c.key, fmt.Sprint(key...)...)
}

// Label counts a class of cases.
func (c *C) Label(format string, args ...any) {
	if c.first {
		c.labels = append(c.labels, fmt.Sprintf(format, args...))
	}
}

// Sample describes the case for the evidence.
func (c *C) Sample(format string, args ...any) {
	if c.first && len(result.Samples) < 4 && c.sample == "" {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.sample = s
	}
}

// Discard gives up on the case, for reasons that say nothing about the
// property.
func (c *C) Discard(why string) {
	c.Label("discarded: %s", why)
	c.flush(true)
	discarded = true
	c.T.Skip(why)
}

func (c *C) flush(discarded bool) {
	if !c.first {
		return
	}
	c.first = false
	for _, l := range c.labels {
		result.Labels[l]++
	}
	if discarded {
		return
	}
	if c.nontr {
		result.NonTrivial++
		h := fnv.New64a()
		h.Write(c.key)
		hashes[h.Sum64()] = struct{}{}
		if c.sample != "" && len(result.Samples) < 4 {
			result.Samples = append(result.Samples, c.sample)
		}
	}
}

// ============================================================================
// Running ====================================================================

// tb is the rapid.TB that collects what rapid reports.
type tb struct {
	name   string
	failed bool
	errs   []string
	logs   []string
}

type tbStop struct{}

func (t *tb) Helper()      {}
func (t *tb) Name() string { return t.name }
func (t *tb) Logf(f string, a ...any) {
	if len(t.logs) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		t.logs = append(t.logs, s)
	}
}
func (t *tb) Log(a ...any)             { t.Logf("%s", fmt.Sprint(a...)) }
func (t *tb) Skipf(f string, a ...any) { panic(tbStop{}) }
func (t *tb) Skip(a ...any)            { panic(tbStop{}) }
func (t *tb) SkipNow()                 { panic(tbStop{}) }
func (t *tb) Errorf(f string, a ...any) {
	t.failed = true
	t.errs = append(t.errs, fmt.Sprintf(f, a...))
}
func (t *tb) Error(a ...any)            { t.Errorf("%s", fmt.Sprint(a...)) }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); panic(tbStop{}) }
func (t *tb) Fatal(a ...any)            { t.Fatalf("%s", fmt.Sprint(a...)) }
func (t *tb) FailNow()                  { t.failed = true; panic(tbStop{}) }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func caseSeed(seed uint64, prop, sub string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", seed, prop, sub, index)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

var (
	execs     int
	discarded bool
)

func note(sub string, index int) {
	execs++
	var buf [160]byte
	for i := range buf {
		buf[i] = ' '
	}
	copy(buf[:], fmt.Sprintf("%s %d %d\n", sub, index, execs))
	_, _ = journal.WriteAt(buf[:], 0)
}

func setFlag(name, value string) {
	if e := flag.Set(name, value); e != nil {
		harnessError("flag %s: %v", name, e)
	}
}

// harnessError ends the process with an error of the check itself.
func harnessError(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// runCase runs one case, shrinking it if it fails.
func runCase(p *Prop, s *Sub, index int) *Violation {
	seed := caseSeed(job.Seed, p.ID, s.Name, index)
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.failfile", job.Failfile)

	t := &tb{name: "case"}
	setFail(false, "")
	var firstMsg string
	var anyHard bool
	ran := false

	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbStop); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			note(s.Name, index)
			c := &C{T: rt, first: !ran || discarded, index: index}
			if c.first {
				ran = true
				discarded = false
				result.Evaluations++
				result.Subs[s.Name]["cases"]++
			}
			setFail(false, "")
			defer func() {
				c.flush(false)
				failMu.Lock()
				defer failMu.Unlock()
				if failMsg != "" {
					if firstMsg == "" {
						firstMsg = failMsg
					}
					if !failTiming {
						anyHard = true
					}
				}
			}()
			s.Run(c)
		})
	}()

	if !t.failed {
		return nil
	}

	msg := strings.Join(t.errs, "\n")
	if strings.Contains(msg, "[rapid] only generated") {
		result.Discarded++
		return nil
	}

	failMu.Lock()
	hard := anyHard || firstMsg == "" // a panic is reported by rapid only
	if failMsg != "" {
		msg = failMsg + "\n" + msg
	} else if firstMsg != "" {
		msg = firstMsg + "\n" + msg
	}
	failMu.Unlock()
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}

	v := &Violation{
		Property: p.ID, Sub: s.Name, Index: index, Seed: job.Seed, CaseSeed: seed,
		Timing: !hard, Message: msg, Log: t.logs,
	}
	if files, _ := filepath.Glob("testdata/rapid/case/*.fail"); len(files) > 0 {
		sort.Strings(files)
		data, e := os.ReadFile(files[len(files)-1])
		if e == nil && len(data) < 8<<20 {
			v.Failfile = string(data)
		}
	}
	_ = os.RemoveAll("testdata")
	return v
}

func writeResult() {
	data, e := json.Marshal(result)
	if e != nil {
		harnessError("result: %v", e)
	}
	hs := make([]byte, 0, 8*len(hashes))
	for h := range hashes {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	if e := os.WriteFile("hashes.bin", hs, 0o644); e != nil {
		harnessError("hashes: %v", e)
	}
	if e := os.WriteFile("result.tmp", data, 0o644); e != nil {
		harnessError("result: %v", e)
	}
	if e := os.Rename("result.tmp", "result.json"); e != nil {
		harnessError("result: %v", e)
	}
}

func main() {
	// The same program also plays the part of gotor's own start-up code, see opts.go
	if os.Getenv("VP_CHILD") != "" {
		childMain()
		return
	}

	if e := json.Unmarshal([]byte(os.Getenv("VP_JOB")), &job); e != nil {
		harnessError("VP_JOB: %v", e)
	}
	p := props[job.Prop]
	if p == nil {
		harnessError("unknown property %q", job.Prop)
	}
	if e := os.Chdir(job.Scratch); e != nil {
		harnessError("%v", e)
	}
	var e error
	journal, e = os.Create("journal")
	if e != nil {
		harnessError("%v", e)
	}

	result = Result{Rule: p.Rule, Labels: map[string]int{}, Subs: map[string]map[string]int{}}
	hashes = map[uint64]struct{}{}
	log.SetOutput(io.Discard)
	debug.SetGCPercent(200)

	note("init", -1)
	testing.Init()
	os.Args = []string{"vp"}
	if p.NeedOpts {
		initOpts()
	}
	if p.Init != nil {
		p.Init()
	}
	if !flag.Parsed() {
		flag.Parse()
	}
	setFlag("rapid.checks", "1")
	setFlag("rapid.shrinktime", fmt.Sprintf("%dms", int(job.Shrink*1000)))

	start := time.Now()

	if job.OnlySub != "" {
		for i := range p.Subs {
			s := &p.Subs[i]
			if s.Name != job.OnlySub {
				continue
			}
			result.Subs[s.Name] = map[string]int{}
			for r := 0; r < max(1, job.Repeat); r++ {
				if v := runCase(p, s, job.OnlyIndex); v != nil {
					result.Violations = append(result.Violations, *v)
					break
				}
			}
		}
		result.Done = true
		writeResult()
		return
	}

	stop := false
	for i := range p.Subs {
		s := &p.Subs[i]
		n := s.Quick
		if job.Tier == "thorough" {
			n = s.Thorough
		}
		result.Subs[s.Name] = map[string]int{"planned": n}
		if stop {
			continue
		}
		// Every sub gets its share of the budget
		deadline := start.Add(time.Duration(job.Budget * float64(time.Second) * float64(i+1) / float64(len(p.Subs))))
		for k := job.Worker; k < n; k += job.Workers {
			if time.Now().After(deadline) {
				result.Truncated = true
				result.Labels["budget ended: "+s.Name]++
				break
			}
			if v := runCase(p, s, k); v != nil {
				result.Violations = append(result.Violations, *v)
				if len(result.Violations) >= 3 || !v.Timing {
					stop = true
				}
				break
			}
		}
	}
	result.Done = true
	writeResult()
}
