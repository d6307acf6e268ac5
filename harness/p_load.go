package gv

import (
	"encoding/json"
	"slices"
	"time"

	"pgregory.net/rapid"
)

// ---- C08 RPC, C12 raw bytes, C14 everything at once: healthy connections -----

type planHealthy struct {
	Link   LinkPlan
	Opened []bool
	T      trafficPlan
	Bufs   []int `json:",omitempty"` // read buffer sizes, cycled
	Stall  []int `json:",omitempty"` // ms before the first receives of stream i
}

// maxMult is how many of the same operation there are at once at most.
const maxMult = 500

func genHealthy(kinds []int, maxStreams, maxActors, maxOps, maxN, maxOpsT, maxNT, maxRep int) func(*rapid.T, bool) any {
	return func(t *rapid.T, thorough bool) any {
		p := planHealthy{Link: genLink(t, true)}
		p.Opened = rapid.SliceOfN(rapid.Bool(), 0, maxStreams-1).Draw(t, "opened")
		s := loadShape{streams: len(p.Opened) + 1, maxActors: maxActors, maxOps: maxOps, maxN: maxN,
			kinds: kinds, maxGap: 1500, maxDelay: 2500, bad: true, unk: true, nested: true}
		if thorough {
			s.maxOps, s.maxN = maxOpsT, maxNT
		}
		if maxRep > 0 && rapid.IntRange(0, 4).Draw(t, "repC") == 0 {
			p.T.Rep = rapid.IntRange(1, maxRep).Draw(t, "rep")
			s.maxOps, s.maxN, s.maxGap, s.maxDelay = 24, 3000, 0, 20
		} else {
			s.mult = maxMult
		}
		rep := p.T.Rep
		p.T = genLoad(t, s)
		p.T.Rep = rep
		if n, ok := genBig(t, 1500, "big"); ok {
			p.T.Ops[0].N, p.T.Ops[0].X, p.T.Rep = n, 0, 0
			p.Link.C2S.Window, p.Link.S2C.Window, p.Link.C2S.Frag, p.Link.S2C.Frag = 0, 0, nil, nil
		}
		p.Bufs = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 4096)), 0, 5).Draw(t, "bufs")
		if rapid.IntRange(0, 2).Draw(t, "stallC") == 0 {
			p.Stall = rapid.SliceOfN(rapid.IntRange(0, 3000), 1, 4).Draw(t, "stall")
		}
		return p
	}
}

func runHealthy(nontrivial func(c *Case, p planHealthy, l *load) bool) func(c *Case, raw json.RawMessage) {
	return func(c *Case, raw json.RawMessage) {
		p := decodePlan[planHealthy](raw)
		length := p.T.time() * time.Duration(p.T.Rep+1)
		p.T = p.T.expand()
		r := dialRig(c, p.Link, nil, nil, true)
		if r == nil {
			return
		}
		pairs, ok := r.pairs(p.Opened)
		if !ok {
			r.teardown()
			return
		}
		l := newLoad(c, p.T, pairs, false)
		l.bufs = p.Bufs
		stalled := map[[2]int]int{}
		l.stall = func(si int, server bool) time.Duration {
			l.mu.Lock()
			defer l.mu.Unlock()
			k := [2]int{si, b2i(server)}
			if stalled[k] >= 2 || si >= len(p.Stall) {
				return 0
			}
			stalled[k]++
			return ms(p.Stall[si])
		}
		if n := slices.MaxFunc(p.T.Ops, func(a, b op) int { return a.N - b.N }).N; n > 500000 {
			c.Label("large")
		}
		budget := 90*time.Second + length + p.Link.slack(p.T.bytes(), 8*len(p.T.Ops)+40)
		if l.serve() {
			l.run()
			if l.finish(budget, "operations over a healthy connection") {
				l.arrivedAll(budget)
			}
			time.Sleep(time.Second)
		}
		// from now on the ends go away
		l.faulty.Store(true)
		l.stop(false)
		r.teardown()
		l.stop(true)
		l.labels()
		if nontrivial(c, p, l) {
			c.NonTrivial()
		}
		c.Label("streams%d", len(pairs))
	}
}

func init() {
	mem := "TCP-like in-memory connection that neither loses nor reorders bytes"
	clk := "virtual clock of testing/synctest"
	register(&Prop{
		ID:     "C08",
		Rule:   "histories of Call and CallAsync from 1-5 concurrent callers on both sides over 1-3 streams, with generated handler delays, errors, payloads and link timing; non-trivial: at least two calls in flight at once",
		Gen:    genHealthy([]int{kCall, kCallAsync, kCallAsync}, 3, 5, 50, 140000, 150, 300000, 8),
		Bubble: true,
		Run: runHealthy(func(c *Case, p planHealthy, l *load) bool {
			for i, a := range l.ops {
				for _, b := range l.ops[:i] {
					if a.started.Before(b.compAt) && b.started.Before(a.compAt) {
						return true
					}
				}
			}
			return false
		}),
		Quick: 1500, Thorough: 20000, QuickS: 40, ThoroughS: 700,
		Assumptions: []string{mem, clk},
	})
	register(&Prop{
		ID:     "C12",
		Rule:   "bytes written in generated chunks over 1-3 streams from both sides, read with generated buffer sizes and stalls, under generated fragmentation, latency and window; non-trivial: at least two chunks on one stream",
		Gen:    genHealthy([]int{kRaw}, 3, 5, 60, 140000, 200, 300000, 20),
		Bubble: true,
		Run: runHealthy(func(c *Case, p planHealthy, l *load) bool {
			n := map[actor]int{}
			for _, o := range p.T.Ops {
				n[p.T.Actors[o.A]]++
				if n[p.T.Actors[o.A]] > 1 {
					return true
				}
			}
			return false
		}),
		Quick: 1500, Thorough: 20000, QuickS: 40, ThoroughS: 700,
		Assumptions: []string{mem, clk},
	})
	register(&Prop{
		ID:     "C14",
		Rule:   "messages, RPCs and raw bytes at once over 1-5 streams in both directions from up to 10 concurrent actors; non-trivial: operations of two kinds on two streams",
		Gen:    genHealthy([]int{kPublish, kPublishAsync, kPublishAsync, kAtMostOnce, kAtMostOnce, kCall, kCallAsync, kCallAsync, kRaw, kRaw}, 5, 10, 120, 20000, 500, 100000, 30),
		Bubble: true,
		Run: runHealthy(func(c *Case, p planHealthy, l *load) bool {
			ks, ss := map[int]bool{}, map[int]bool{}
			for _, o := range p.T.Ops {
				ks[o.K] = true
				ss[p.T.Actors[o.A].S] = true
			}
			return len(ks) > 1 && len(ss) > 1
		}),
		Quick: 1200, Thorough: 16000, QuickS: 60, ThoroughS: 800,
		Assumptions: []string{mem, clk},
	})
}
