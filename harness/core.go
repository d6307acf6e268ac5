// Package gv holds the generated-input checks for singchia/geminio.
//
// A property is a plan generator (driven by rapid, so that it shrinks) plus an
// executable check of one plan. Plans are plain data: a failing plan is its own
// replay file. Plans run in worker processes, most of them inside a
// testing/synctest bubble, so that the harness owns the clock, a panic in the
// library is an observation rather than the end of the search, and a goroutine
// that never returns is seen as such.
package gv

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// Prop is one executable property.
type Prop struct {
	ID   string
	Rule string // how cases are made and what makes one non-trivial
	// Gen draws a plan. thorough widens sizes.
	Gen func(t *rapid.T, thorough bool) any
	// Run decodes the plan and checks it.
	Run func(c *Case, plan json.RawMessage)
	// Bubble: run inside a synctest bubble (virtual time).
	Bubble bool
	// InShard: run in the generating process (pure code, panics recovered).
	InShard bool
	// RealTime: the plan waits for real time to pass.
	RealTime bool
	// Cases per shard, by tier.
	Quick, Thorough int
	// Seconds is the wall-clock budget by tier (0: default).
	QuickS, ThoroughS int
	Assumptions       []string
	Level             string // default exploration
}

var props = map[string]*Prop{}

func register(p *Prop) {
	if _, dup := props[p.ID]; dup {
		panic("duplicate property " + p.ID)
	}
	props[p.ID] = p
}

func propIDs() []string {
	ids := []string{}
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Case collects what one execution showed.
type Case struct {
	mu      sync.Mutex
	Fails   []string
	Labels  map[string]int
	NonTriv bool
	trace   []string
	start   time.Time
}

func newCase() *Case {
	return &Case{Labels: map[string]int{}, start: time.Now()}
}

// Fail records a violation of the property.
func (c *Case) Fail(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Fails) < 8 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 2000 {
			s = s[:2000] + "..."
		}
		c.Fails = append(c.Fails, s)
	}
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.Fails) > 0
}

// Label counts a class of behaviour that this case exercised.
func (c *Case) Label(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.Labels[fmt.Sprintf(format, args...)]++
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Case) NonTrivial() {
	c.mu.Lock()
	c.NonTriv = true
	c.mu.Unlock()
}

// Trace keeps a bounded log, shown with a violation.
func (c *Case) Trace(format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.trace) < 200 {
		c.trace = append(c.trace, fmt.Sprintf("%8.3fs %s", time.Since(c.start).Seconds(), fmt.Sprintf(format, args...)))
	}
}

// Outcome of one plan.
type Outcome struct {
	Fails   []string       `json:"fails,omitempty"`
	Labels  map[string]int `json:"labels,omitempty"`
	NonTriv bool           `json:"nontriv,omitempty"`
	Leak    bool           `json:"leak,omitempty"`
	Trace   []string       `json:"trace,omitempty"`
	// HarnessErr says the harness itself broke: neither a pass nor a violation.
	HarnessErr string `json:"harness_err,omitempty"`
	Crash      string `json:"crash,omitempty"`
}

func (c *Case) outcome() Outcome {
	c.mu.Lock()
	defer c.mu.Unlock()
	o := Outcome{Fails: append([]string(nil), c.Fails...), Labels: map[string]int{}, NonTriv: c.NonTriv}
	for k, v := range c.Labels {
		o.Labels[k] = v
	}
	if len(c.Fails) > 0 {
		o.Trace = append([]string(nil), c.trace...)
	}
	return o
}

func planHash(plan []byte) string {
	h := sha256.Sum256(plan)
	return hex.EncodeToString(h[:8])
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

func decodePlan[T any](raw json.RawMessage) T {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		panic("harness: bad plan: " + err.Error())
	}
	return v
}

// within runs f and waits for it at most d of (virtual) time. It reports
// whether f returned; when it did not, that is recorded as a violation.
func (c *Case) within(d time.Duration, what string, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
		select {
		case <-done:
			return true
		default:
		}
		c.Fail("%s did not return within %v", what, d)
		return false
	}
}

// waitAll waits for wg-like channel with a deadline.
type group struct {
	c  *Case
	mu sync.Mutex
	n  int
	// names of running members
	run map[int]string
	ch  chan struct{}
	wg  sync.WaitGroup
	id  int
}

func newGroup(c *Case) *group { return &group{c: c, run: map[int]string{}} }

func (g *group) Go(name string, f func()) {
	g.mu.Lock()
	id := g.id
	g.id++
	g.run[id] = name
	g.mu.Unlock()
	g.wg.Add(1)
	go func() {
		defer func() {
			g.mu.Lock()
			delete(g.run, id)
			g.mu.Unlock()
			g.wg.Done()
		}()
		f()
	}()
}

// Running names the members still running.
func (g *group) Running() []string {
	g.mu.Lock()
	defer g.mu.Unlock()
	var s []string
	for _, n := range g.run {
		s = append(s, n)
	}
	sort.Strings(s)
	return s
}

// Wait waits for every member at most d; those still running are violations.
func (g *group) Wait(d time.Duration, why string) bool {
	done := make(chan struct{})
	go func() { g.wg.Wait(); close(done) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return true
	case <-t.C:
	}
	r := g.Running()
	if len(r) == 0 {
		return true
	}
	g.c.Fail("%s: still not returned after %v: %s", why, d, strings.Join(r, "; "))
	return false
}
