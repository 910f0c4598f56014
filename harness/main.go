package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitHarness = 3  // the harness itself is wrong
	exitHang    = 96 // one case used too much CPU time
	exitMemory  = 97 // one case used too much memory

	maxCaseCPU  = 30 * time.Second
	maxCaseWait = 120 * time.Second
	maxCaseHeap = 3 << 30
)

// Result is what one shard reports to the driver.
type Result struct {
	Prop        string            `json:"prop"`
	Evaluations int               `json:"evaluations"`
	Enumerated  int               `json:"enumerated"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Known       []string          `json:"known"`
	Samples     []json.RawMessage `json:"samples"`
	Failed      bool              `json:"failed"`
	Message     string            `json:"message"`
	Case        json.RawMessage   `json:"case,omitempty"`
	First       string            `json:"first,omitempty"` // the first failure, before it was made smaller
	Cases       []json.RawMessage `json:"cases,omitempty"` // the cases up to the first failure
	Rule        string            `json:"rule"`
}

var (
	curFile *os.File
	caseNo  atomic.Int64
)

func cpuNow() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch ends the process when a single case runs away. It looks at CPU time, a
// busy machine does not matter; a case that waits forever is found by the clock.
func watch(maxCPU time.Duration) {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}, {Name: "/memory/classes/heap/stacks:bytes"}}
	seen, start, clock := int64(-1), time.Duration(0), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		now, n := cpuNow(), caseNo.Load()
		if n != seen {
			seen, start, clock = n, now, time.Now()
		}
		if n > 0 && (now-start > maxCPU || time.Since(clock) > maxCaseWait) {
			fmt.Fprintf(os.Stderr, "case %d uses more than %v of CPU time, or waits more than %v\n", n, maxCPU, maxCaseWait)
			buf := make([]byte, 1<<16)
			fmt.Fprintf(os.Stderr, "%s\n", buf[:runtime.Stack(buf, true)])
			os.Exit(exitHang)
		}
		metrics.Read(sample)
		if n > 0 && sample[0].Value.Uint64()+sample[1].Value.Uint64() > maxCaseHeap {
			fmt.Fprintf(os.Stderr, "case %d uses more than %d bytes\n", n, maxCaseHeap)
			os.Exit(exitMemory)
		}
	}
}

func harnessError(v any) {
	fmt.Fprintf(os.Stderr, "harness error: %v\n%s\n", v, debug.Stack())
	os.Exit(exitHarness)
}

// runner evaluates cases and keeps the statistics
type runner struct {
	p       *Prop
	res     Result
	hashes  map[uint64]struct{}
	known   map[string]bool
	stopped bool
	last    []json.RawMessage // the cases before, for failures that need a history
	lastLen int
}

const maxLast = 32 << 20

// keep remembers a case, the oldest are dropped
func (r *runner) keep(raw json.RawMessage) {
	r.last, r.lastLen = append(r.last, raw), r.lastLen+len(raw)
	if r.lastLen > maxLast {
		n := 0
		for ; r.lastLen > maxLast/2; n++ {
			r.lastLen -= len(r.last[n])
		}
		r.last = append([]json.RawMessage{}, r.last[n:]...)
	}
}

func (r *runner) run(c any) (err error) {
	raw, jerr := json.Marshal(c)
	if jerr != nil {
		harnessError(jerr)
	}
	// what eval sees is what a replay sees
	c2, jerr := r.p.decode(raw)
	if jerr != nil {
		harnessError(jerr)
	}
	if curFile != nil {
		hdr := make([]byte, 8, 8+len(raw))
		binary.LittleEndian.PutUint64(hdr, uint64(len(raw)))
		_, _ = curFile.WriteAt(append(hdr, raw...), 0)
	}
	caseNo.Add(1)
	rec := newRec()
	func() {
		defer func() {
			if v := recover(); v != nil {
				harnessError(fmt.Sprintf("%v\ncase: %s", v, raw))
			}
		}()
		err = r.p.eval(c2, rec)
	}()
	for k := range rec.known {
		r.known[k] = true
	}
	if err != nil {
		if !r.res.Failed {
			r.keep(raw)
			r.res.Cases = r.last
			r.res.First = err.Error()
		}
		r.res.Failed, r.res.Message, r.res.Case = true, err.Error(), raw
		return err
	}
	if r.stopped {
		return nil
	}
	r.keep(raw)
	r.res.Evaluations++
	for k, n := range rec.labels {
		r.res.Labels[k] += n
	}
	if rec.nontrivial {
		h := fnv.New64a()
		_, _ = h.Write(raw)
		s := h.Sum64()
		if _, ok := r.hashes[s]; !ok {
			r.hashes[s] = struct{}{}
			if n := len(r.hashes); len(raw) < 4000 && (n == 1 || n == 50 || n == 1000) {
				r.res.Samples = append(r.res.Samples, raw)
			}
		}
	}
	return nil
}

// tb lets rapid run outside of go test
type tb struct {
	failed bool
	log    string
}

func (t *tb) Helper()                   {}
func (t *tb) Name() string              { return "verif" }
func (t *tb) Logf(f string, a ...any)   {}
func (t *tb) Log(a ...any)              {}
func (t *tb) Skipf(f string, a ...any)  {}
func (t *tb) Skip(a ...any)             {}
func (t *tb) SkipNow()                  {}
func (t *tb) Errorf(f string, a ...any) { t.log += fmt.Sprintf(f, a...) + "\n"; t.failed = true }
func (t *tb) Error(a ...any)            { t.log += fmt.Sprintln(a...); t.failed = true }
func (t *tb) Fatalf(f string, a ...any) { t.Errorf(f, a...); runtime.Goexit() }
func (t *tb) Fatal(a ...any)            { t.Error(a...); runtime.Goexit() }
func (t *tb) FailNow()                  { t.failed = true; runtime.Goexit() }
func (t *tb) Fail()                     { t.failed = true }
func (t *tb) Failed() bool              { return t.failed }

func main() {
	testing.Init()
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	cases := flag.Int("cases", -1, "override the number of cases of all shards")
	out := flag.String("out", "", "prefix of result files")
	replay := flag.String("replay", "", "evaluate the case in this file")
	times := flag.Int("times", 1, "how often to evaluate it")
	list := flag.Bool("list", false, "list properties")
	dump := flag.Int("dump", 0, "print this many generated cases")
	repo := flag.String("repo", "/repo", "where to find the sources for the dictionary")
	flag.Parse()

	if *list {
		for _, id := range propIDs() {
			p := props[id]
			b, _ := json.Marshal(map[string]any{"id": id, "race": p.Race, "procs": p.Procs, "quick": p.Quick, "thorough": p.Thor, "rule": p.Rule})
			fmt.Println(string(b))
		}
		return
	}
	p := props[*prop]
	if p == nil {
		harnessError("no such property: " + *prop)
	}
	runtime.GOMAXPROCS(p.Procs + 1)
	if p.CPU == 0 {
		p.CPU = maxCaseCPU
	}
	go watch(p.CPU)
	loadDict(*repo)

	r := &runner{p: p, hashes: map[uint64]struct{}{}, known: map[string]bool{}}
	r.res = Result{Prop: p.ID, Labels: map[string]int{}, Rule: p.Rule}

	probe := func() {
		if p.probe == nil {
			return
		}
		caseNo.Add(1)
		rec := newRec()
		if err := p.probe(rec); err != nil {
			r.res.Failed, r.res.Message, r.res.Case = true, err.Error(), json.RawMessage(`"probe"`)
		}
		for k := range rec.known {
			r.known[k] = true
		}
	}

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			harnessError(err)
		}
		var f struct {
			Case  json.RawMessage   `json:"case"`
			Cases []json.RawMessage `json:"cases"`
		}
		if err := json.Unmarshal(b, &f); err != nil {
			harnessError(err)
		}
		probe()
		if !r.res.Failed && len(f.Cases) > 0 {
			// a history: one after the other
			for i := 0; i < len(f.Cases) && !r.res.Failed; i++ {
				c, err := p.decode(f.Cases[i])
				if err != nil {
					harnessError(err)
				}
				_ = r.run(c)
			}
		} else if !r.res.Failed && string(f.Case) != `"probe"` {
			c, err := p.decode(f.Case)
			if err != nil {
				harnessError(err)
			}
			for i := 0; i < *times && !r.res.Failed; i++ {
				_ = r.run(c)
			}
		}
		if r.res.Failed {
			fmt.Println("FAILED:", r.res.Message)
			os.Exit(1)
		}
		fmt.Println("ok")
		return
	}

	if *dump > 0 {
		for i := 0; i < *dump; i++ {
			c := rapid.Custom(func(t *rapid.T) any { return p.gen(t) }).Example(i + 1)
			b, _ := json.Marshal(c)
			fmt.Println(string(b))
		}
		return
	}

	if *out != "" {
		f, err := os.Create(*out + ".cur")
		if err != nil {
			harnessError(err)
		}
		curFile = f
	}
	probe()
	if p.enum != nil && !r.res.Failed {
		p.enum(*tier, *shard, *shards, func(c any) bool {
			r.res.Enumerated++
			return r.run(c) == nil
		})
	}
	total := p.Quick
	if *tier == "thorough" {
		total = p.Thor
	}
	if *cases >= 0 {
		total = *cases
	}
	n := total / *shards
	if *shard < total%*shards {
		n++
	}
	if !r.res.Failed && n > 0 {
		_ = flag.Set("rapid.checks", fmt.Sprint(n))
		_ = flag.Set("rapid.nofailfile", "true")
		_ = flag.Set("rapid.shrinktime", "20s")
		t := &tb{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(t, func(t *rapid.T) {
				c := p.gen(t)
				if err := r.run(c); err != nil {
					r.stopped = true
					t.Fatalf("property failed")
				}
			})
		}()
		<-done
		if t.failed && !r.res.Failed {
			harnessError("rapid: " + t.log)
		}
	}
	for k := range r.known {
		r.res.Known = append(r.res.Known, k)
	}
	r.res.NonTrivial = len(r.hashes)
	b, err := json.Marshal(r.res)
	if err != nil {
		harnessError(err)
	}
	if *out == "" {
		r.res.Cases = nil
		b, _ = json.MarshalIndent(r.res, "", " ")
		fmt.Println(string(b))
		return
	}
	hb := make([]byte, 0, 8*len(r.hashes))
	for h := range r.hashes {
		hb = binary.LittleEndian.AppendUint64(hb, h)
	}
	if err := os.WriteFile(*out+".hash", hb, 0o644); err != nil {
		harnessError(err)
	}
	if err := os.WriteFile(*out+".json", b, 0o644); err != nil {
		harnessError(err)
	}
}
