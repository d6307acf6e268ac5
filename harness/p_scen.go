package gv

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// ---- C07 C09 exactly-once completion, C16 stream close, C17 end close,
// ---- C18 lost connections, C19 notifications, C22 resources ------------------

var allKinds = []int{kPublish, kPublishAsync, kAtMostOnce, kCall, kCallAsync, kRaw}

// completed waits for every operation to complete, given what the plan does.
func (s *scen) completed(why string) bool {
	return s.evg.Wait(s.deadline, "closing and opening during "+why) && s.l.finish(s.deadline, why)
}

// over tells whether the connection was ended or cut during the plan.
func (s *scen) over() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.r.l.mu.Lock()
	defer s.r.l.mu.Unlock()
	return s.ended[0] || s.ended[1] || s.r.l.cut
}

func (s *scen) closedStreams() []int {
	s.mu.Lock()
	defer s.mu.Unlock()
	var out []int
	for si, c := range s.closed {
		if c[0] || c[1] {
			out = append(out, si)
		}
	}
	return out
}

// eofs checks that Receive and Read on the closed streams come to an end.
func (s *scen) eofs() {
	for _, si := range s.closedStreams() {
		s.l.recv[si].Wait(75*time.Second, fmt.Sprintf("Receive and Read of the closed stream %d", si))
	}
}

func scenRun(check func(c *Case, s *scen)) func(*Case, json.RawMessage) {
	return func(c *Case, raw json.RawMessage) {
		s := runScen(c, decodePlan[planScen](raw))
		if s == nil || s.l == nil {
			return
		}
		check(c, s)
	}
}

func inFlightAtClose(s *scen) bool {
	for _, o := range s.l.ops {
		if o.completed > 0 && o.err != nil && o.retErr == nil && !o.Bad && !o.Unk {
			return true
		}
	}
	return false
}

func init() {
	mem := "TCP-like in-memory connection that neither loses nor reorders bytes before it is cut"
	clk := "virtual clock of testing/synctest"
	as := []string{mem, clk}

	once := func(id string, kinds []int, what string) {
		register(&Prop{
			ID: id,
			Rule: "histories of " + what + " with time limits, slow, failing and missing answers on 1-3 streams, while streams and ends are closed or the connection is cut; " +
				"non-trivial: an operation was accepted and failed without an answer",
			Gen: genScen(scenShape{load: loadShape{streams: 3, maxActors: 5, maxOps: 40, maxN: 3000, kinds: kinds,
				maxGap: 1500, maxDelay: 4000, noAns: true, bad: true, limits: true, unk: true},
				evs: []int{evCloseStream, evCloseStream, evCloseEnd, evCut}, maxEv: 3, maxAt: 6000, rep: 10}),
			Bubble: true,
			Run: scenRun(func(c *Case, s *scen) {
				s.completed("operations with faults")
				s.finishAll()
				if inFlightAtClose(s) {
					c.NonTrivial()
				}
			}),
			Quick: 3000, Thorough: 20000, QuickS: 40, ThoroughS: 700,
			Assumptions: as,
		})
	}
	once("C07", []int{kPublishAsync, kPublishAsync, kPublish}, "PublishAsync and Publish")
	once("C09", []int{kCallAsync, kCallAsync, kCall}, "CallAsync and Call")

	register(&Prop{
		ID:   "C16",
		Rule: "mixed traffic over up to 5 streams while generated streams are closed from either or both sides, once or several times, and others are opened; non-trivial: a stream was closed and another one carried traffic",
		Gen: genScen(scenShape{load: loadShape{streams: 5, maxActors: 8, maxOps: 60, maxN: 8000, kinds: allKinds,
			maxGap: 400, maxDelay: 800, bad: true, unk: true},
			evs: []int{evCloseStream, evCloseStream, evCloseStream, evOpen}, maxEv: 6, maxAt: 2500, rep: 15, parting: true}),
		Bubble: true,
		Run: func(c *Case, raw json.RawMessage) {
			p := decodePlan[planScen](raw)
			// the ends stay
			ev := p.Ev[:0]
			for _, e := range p.Ev {
				if e.K != evCloseStream || e.S > 0 {
					ev = append(ev, e)
				}
			}
			p.Ev = ev
			s := runScen(c, p)
			if s == nil || s.l == nil {
				return
			}
			ok := s.completed("operations while streams close")
			if ok {
				s.eofs()
				s.l.arrivedAll(s.deadline)
				time.Sleep(2 * time.Second)
				s.flushed()
				s.streamsLeft()
			}
			if cl := s.closedStreams(); len(cl) > 0 && len(cl) < len(s.pairs) {
				for _, o := range s.l.ops {
					if s.l.healthy(s.l.p.Actors[o.A].S) {
						c.NonTrivial()
					}
				}
			}
			s.finishAll()
		},
		Quick: 1000, Thorough: 16000, QuickS: 40, ThoroughS: 700,
		Assumptions: as,
	})
	register(&Prop{
		ID:   "C17",
		Rule: "mixed traffic while one or both ends are closed, once or several times at the same moment, together with streams closing and opening; non-trivial: something was written before the close or in flight at it",
		Gen: genScen(scenShape{load: loadShape{streams: 4, maxActors: 6, maxOps: 50, maxN: 8000, kinds: allKinds,
			maxGap: 400, maxDelay: 800, noAns: true, bad: true},
			evs: []int{evCloseEnd, evCloseEnd, evCloseEnd, evCloseStream, evOpen}, maxEv: 4, maxAt: 2500, rep: 15, parting: true}),
		Bubble: true,
		Run: scenRun(func(c *Case, s *scen) {
			ok := s.completed("operations while ends close")
			if s.over() && ok {
				for si, g := range s.l.recv {
					g.Wait(75*time.Second, fmt.Sprintf("Receive and Read on stream %d after an end was closed", si))
				}
				s.acc.Wait(75*time.Second, "AcceptStream after an end was closed")
				s.flushed()
				time.Sleep(40 * time.Second)
				s.netClosed()
				s.afterClose()
				if inFlightAtClose(s) {
					c.NonTrivial()
				}
				for _, cr := range s.closes {
					if cr.sure > 0 || len(cr.msgs) > 0 {
						c.NonTrivial()
					}
				}
			}
			s.finishAll()
		}),
		Quick: 1000, Thorough: 16000, QuickS: 40, ThoroughS: 700,
		Assumptions: as,
	})
	register(&Prop{
		ID:   "C18",
		Rule: "mixed traffic over a connection that breaks after a generated number of bytes in either direction (handshake included) or at a generated moment; non-trivial: it broke after the handshake while operations were in flight",
		Gen: genScen(scenShape{load: loadShape{streams: 3, maxActors: 6, maxOps: 40, maxN: 4000, kinds: allKinds,
			maxGap: 300, maxDelay: 800, noAns: true, bad: true, limits: true},
			evs: []int{evCut, evOpen, evCloseStream, evOpen}, maxEv: 3, maxAt: 2500, cutBytes: 20000, rep: 15}),
		Bubble: true,
		Run: scenRun(func(c *Case, s *scen) {
			s.completeCut()
			if inFlightAtClose(s) {
				c.NonTrivial()
			}
			s.finishAll()
		}),
		Quick: 6000, Thorough: 80000, QuickS: 40, ThoroughS: 700,
		Assumptions: as,
	})
	register(&Prop{
		ID:   "C19",
		Rule: "mixed traffic, opening and closing of streams and ends and cuts at any byte, with recording delegates on both ends; non-trivial: a stream was opened besides the default one",
		Gen: genScen(scenShape{load: loadShape{streams: 5, maxActors: 3, maxOps: 12, maxN: 500, kinds: allKinds,
			maxGap: 300, maxDelay: 300, bad: true},
			evs: []int{evOpen, evOpen, evCloseStream, evCloseEnd, evCut}, maxEv: 8, maxAt: 1500, cutBytes: 0, rep: 3}),
		Bubble: true,
		Run: func(c *Case, raw json.RawMessage) {
			p := decodePlan[planScen](raw)
			s := runScen(c, p)
			if s == nil {
				return
			}
			if s.l != nil {
				if s.completed("operations with faults") && s.over() {
					// the notification must not depend on anybody closing the other end
					time.Sleep(70 * time.Second)
					s.notified(true)
				}
			}
			s.finishAll()
			time.Sleep(5 * time.Second)
			s.notified(false)
			if len(s.pairs) > 1 {
				c.NonTrivial()
			}
		},
		Quick: 1200, Thorough: 20000, QuickS: 40, ThoroughS: 700,
		Assumptions: as,
	})
	register(&Prop{
		ID:   "C22",
		Rule: "mixed traffic, opening and closing and cuts at any byte; when both ends have been closed no goroutine of the library may be left and both network connections must be closed; non-trivial: the ends came up and operations ran",
		Gen: genScen(scenShape{load: loadShape{streams: 4, maxActors: 5, maxOps: 30, maxN: 3000, kinds: allKinds,
			maxGap: 300, maxDelay: 800, noAns: true, bad: true, limits: true, unk: true},
			evs: []int{evCloseEnd, evCloseStream, evOpen, evCut}, maxEv: 5, maxAt: 2000, cutBytes: 30000, rep: 10}),
		Bubble: true,
		Run: func(c *Case, raw json.RawMessage) {
			p := decodePlan[planScen](raw)
			s := runScen(c, p)
			if s == nil {
				return
			}
			if s.l != nil {
				s.completeCut()
				s.brokenLeft()
				s.finishAll()
				c.NonTrivial()
			}
			// the ends that never came up, or were closed, hold nothing
			time.Sleep(70 * time.Second)
			s.netClosed()
			if left := leftover(); len(left) > 0 {
				c.Fail("%d goroutines of the library are left after both ends were closed: %v", len(left), left)
			}
		},
		Quick: 4000, Thorough: 60000, QuickS: 40, ThoroughS: 700,
		Assumptions: as,
	})
}

// promptly is what the limits of broken connections are shorter by than those
// of connections that close.
const promptly = 85 * time.Second

// completeCut waits for the completions; where the connection did break, that
// alone must bring everything to an end.
func (s *scen) completeCut() {
	d := time.Now().Add(s.deadline)
	for !s.over() && time.Now().Before(d) && len(s.evg.Running())+len(s.l.acts.Running())+len(s.l.comp.Running()) > 0 {
		time.Sleep(50 * time.Millisecond)
	}
	if !s.over() {
		s.evg.Wait(0, "closing and opening")
		s.c.Label("not cut")
		return
	}
	// an end that closes may wait for its peer first, one whose connection has
	// broken has nothing to wait for
	rest, recv := s.deadline, 75*time.Second
	s.mu.Lock()
	if !s.ended[0] && !s.ended[1] {
		rest, recv = rest-promptly, 5*time.Second
	}
	s.mu.Unlock()
	if !s.evg.Wait(rest, "closing and opening when the connection broke") || !s.l.finish(rest, "operations after the connection broke") {
		return
	}
	for si, g := range s.l.recv {
		g.Wait(recv, fmt.Sprintf("Receive and Read on stream %d after the connection broke", si))
	}
	s.acc.Wait(recv, "AcceptStream after the connection broke")
	time.Sleep(5 * time.Second)
	s.afterClose()
	s.c.Label("cut")
}

// brokenLeft checks that where the connection broke and nobody closed the ends
// they hold no more than their timers.
func (s *scen) brokenLeft() {
	s.mu.Lock()
	ended := s.ended
	s.mu.Unlock()
	s.r.l.mu.Lock()
	cut := s.r.l.cut
	s.r.l.mu.Unlock()
	if !cut || ended[0] && ended[1] {
		return
	}
	time.Sleep(70 * time.Second)
	var left []string
	for _, w := range leftover() {
		if !strings.Contains(w, "timingwheel") && !strings.Contains(w, "go-timer") {
			left = append(left, w)
		}
	}
	if len(left) > 0 {
		s.c.Fail("%d goroutines are left after the connection broke: %v", len(left), left)
	}
	s.netClosed()
	s.c.Label("broken, not closed")
}

// streamsLeft checks ListStreams and ClosedStreamFunc on a connection that lives.
func (s *scen) streamsLeft() {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := map[uint64]bool{}
	closed := map[uint64]bool{}
	for si, id := range s.ids {
		if s.closed[si][0] || s.closed[si][1] {
			closed[id] = true
		} else {
			want[id] = true
		}
	}
	for side := 0; side < 2; side++ {
		for id := range s.opened[side] {
			want[id] = true
			if s.accepted[1-side][id] == nil {
				s.c.Fail("stream %d opened at the %s was never accepted at the %s", id, sideName(side == 1), sideName(side == 0))
			}
		}
		for id := range s.accepted[side] {
			if s.opened[1-side][id] == nil {
				s.c.Fail("stream %d was accepted at the %s but not opened at the %s", id, sideName(side == 1), sideName(side == 0))
			}
		}
	}
	for side := 0; side < 2; side++ {
		got := map[uint64]bool{}
		for _, sm := range s.r.end(side == 1).ListStreams() {
			if got[sm.StreamID()] {
				s.c.Fail("ListStreams at the %s lists stream %d twice", sideName(side == 1), sm.StreamID())
			}
			got[sm.StreamID()] = true
			if !want[sm.StreamID()] {
				s.c.Fail("ListStreams at the %s lists stream %d, which is closed or was never opened", sideName(side == 1), sm.StreamID())
			}
		}
		for id := range want {
			if !got[id] {
				s.c.Fail("ListStreams at the %s does not list the open stream %d", sideName(side == 1), id)
			}
		}
	}
	for id := range closed {
		if n := s.fnClosed[id]; n != 1 {
			s.c.Fail("ClosedStreamFunc was called %d times for the closed stream %d", n, id)
		}
	}
	for id := range want {
		if n := s.fnClosed[id]; n != 0 {
			s.c.Fail("ClosedStreamFunc was called for the open stream %d", id)
		}
	}
}

// notified checks the pairing of online and offline notifications. With gone set
// the connection ended although nobody may have closed the other end yet.
func (s *scen) notified(gone bool) {
	when := "after both ends were closed"
	if gone {
		when = "after the connection was gone"
	}
	up := [2]bool{s.r.cerr == nil, s.r.serr == nil}
	for side, r := range []*rec{s.cli, s.srv} {
		name := sideName(side == 1)
		on, off := r.events("ConnOnline"), r.events("ConnOffline")
		if side == 0 {
			if len(on) != 0 {
				s.c.Fail("a plain client was notified of ConnOnline")
			}
			if up[0] && len(off) != 1 || len(off) > 1 {
				s.c.Fail("%s: %d ConnOffline notifications at the client", when, len(off))
			}
		} else {
			if up[1] && len(on) != 1 || len(on) > 1 {
				s.c.Fail("%s: %d ConnOnline notifications at the server", when, len(on))
			}
			if len(off) != len(on) {
				s.c.Fail("%s: the server was notified of ConnOnline %d times and of ConnOffline %d times", when, len(on), len(off))
			}
			if len(on) == 1 && len(off) == 1 {
				if on[0].Client != off[0].Client || on[0].Meta != off[0].Meta {
					s.c.Fail("ConnOnline was notified for client %d, ConnOffline for client %d", on[0].Client, off[0].Client)
				}
				if off[0].At.Before(on[0].At) {
					s.c.Fail("ConnOffline came before ConnOnline")
				}
			}
		}
		type st struct{ on, off int }
		m := map[uint64]*st{}
		get := func(id uint64) *st {
			if m[id] == nil {
				m[id] = &st{}
			}
			return m[id]
		}
		for _, e := range r.events("") {
			switch e.What {
			case "DialogueOnline":
				x := get(e.Stream)
				x.on++
				if x.off > 0 {
					s.c.Fail("DialogueOnline of stream %d at the %s came after its DialogueOffline", e.Stream, name)
				}
			case "DialogueOffline":
				get(e.Stream).off++
			}
		}
		s.mu.Lock()
		acc := map[uint64]bool{}
		for id := range s.accepted[side] {
			acc[id] = true
		}
		opn := map[uint64]bool{}
		for id := range s.opened[side] {
			opn[id] = true
		}
		for i, fs := range s.p.Opened {
			if i+1 < len(s.ids) {
				if fs == (side == 1) {
					opn[s.ids[i+1]] = true
				} else {
					acc[s.ids[i+1]] = true
				}
			}
		}
		s.mu.Unlock()
		for id := range acc {
			if x := get(id); x.on != 1 || x.off != 1 {
				s.c.Fail("%s: stream %d accepted at the %s was notified online %d times and offline %d times", when, id, name, x.on, x.off)
			}
		}
		for id := range opn {
			if x := get(id); x.on != 0 || x.off != 1 {
				s.c.Fail("%s: stream %d opened at the %s was notified online %d times and offline %d times there", when, id, name, x.on, x.off)
			}
		}
		for id, x := range m {
			if acc[id] || opn[id] {
				continue
			}
			// opened or accepted just while the connection went away
			if x.on > 1 || x.off > 1 || x.off < x.on {
				s.c.Fail("%s: stream %d, which nobody got at the %s, was notified online %d times and offline %d times", when, id, name, x.on, x.off)
			}
		}
	}
}
