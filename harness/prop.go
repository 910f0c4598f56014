package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Rec collects what one evaluation says about its case.
type Rec struct {
	labels     map[string]int
	nontrivial bool
	known      map[string]bool
}

func newRec() *Rec { return &Rec{labels: map[string]int{}, known: map[string]bool{}} }

// Label counts the case in a class.
func (r *Rec) Label(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	r.labels[format]++
}

// NonTrivial marks the case as non-trivial by the rule of the property.
func (r *Rec) NonTrivial(b bool) {
	if b {
		r.nontrivial = true
	}
}

// Known notes that a recorded finding showed up.
func (r *Rec) Known(what string) { r.known[what] = true }

// Prop is a generated check: cases are drawn by gen and decided by eval.
type Prop struct {
	ID    string
	Rule  string
	Quick int // cases over all shards
	Thor  int
	Race  bool          // run in a binary built with the race detector
	Procs int           // GOMAXPROCS of a shard
	CPU   time.Duration // of a single case, at most

	gen    func(t *rapid.T) any
	eval   func(c any, r *Rec) error
	decode func(b []byte) (any, error)
	// enum runs a deterministic enumeration of cases, part shard of n
	enum func(tier string, shard, n int, run func(c any) bool)
	// probe is run once, before any case
	probe func(r *Rec) error
}

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(t *rapid.T) C, eval func(c C, r *Rec) error) *Prop {
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.eval = func(c any, r *Rec) error { return eval(c.(C), r) }
	p.decode = func(b []byte) (any, error) {
		var c C
		err := json.Unmarshal(b, &c)
		return c, err
	}
	if p.Procs == 0 {
		p.Procs = 1
	}
	pp := &p
	props[p.ID] = pp
	return pp
}

func propIDs() []string {
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Panicked is a panic of the code under test.
type Panicked struct {
	Val   any
	Stack string
}

func (p *Panicked) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack) }

// guard calls the code under test and turns a panic into an error.
// A panic outside of guard is a mistake of the harness.
func guard(f func()) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = &Panicked{v, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// limited reports whether a long query failed only because SQLite reads a limited number of
// nested parentheses: how many are written is up to the code
func limited(r *Rec, err error, texts ...string) bool {
	if err == nil || len(strings.Join(texts, "")) < 60 {
		return false
	}
	if !strings.Contains(err.Error(), "parser stack overflow") && !strings.Contains(err.Error(), "Expression tree is too large") {
		return false
	}
	r.Label("beyond a limit of SQLite")
	return true
}

func failf(format string, a ...any) error { return fmt.Errorf(format, a...) }
