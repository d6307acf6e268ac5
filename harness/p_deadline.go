package gv

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"pgregory.net/rapid"
)

// ---- C13: deadlines of the byte stream ----------------------------------------

type dlSet struct {
	At  int
	Srv bool `json:",omitempty"`
	W   int  `json:",omitempty"` // 0 read, 1 write, 2 both
	D   int  // ms from then, limNone: cleared
}

type dlWrite struct {
	At  int
	N   int
	Cnt int // so many writes
}

type dlPause struct{ At, D int }

// dlSide is what one side does.
type dlSide struct {
	Writes  []dlWrite
	Bufs    []int // sizes of the buffers it reads into, cyclically
	Pauses  []dlPause
	Gap     int `json:",omitempty"` // ms it sleeps after an error
	Readers int // 1 or 2
	Writers int // each makes these writes
}

type planDL struct {
	Link  LinkPlan
	Open  int // 0: the default stream, 1: opened by the client, 2: by the server
	Sides [2]dlSide
	Sets  []dlSet
	Jam   bool `json:",omitempty"` // one side writes more than fits while the other does not read
}

func genDL(t *rapid.T, thorough bool) any {
	p := planDL{Link: genLink(t, true), Open: rapid.IntRange(0, 2).Draw(t, "open")}
	for i := range p.Sides {
		s := &p.Sides[i]
		s.Readers = 1
		if rapid.IntRange(0, 4).Draw(t, "two") == 0 {
			s.Readers = 2
		}
		s.Bufs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
			return 1 + genLen(t, 3000, "buf")
		}), 1, 4).Draw(t, "bufs")
		s.Writers = 1
		if rapid.IntRange(0, 3).Draw(t, "writers") == 0 {
			s.Writers = rapid.IntRange(2, 4).Draw(t, "nw")
		}
		s.Gap = rapid.SampledFrom([]int{0, 1, 1, 10, 300}).Draw(t, "gap")
		s.Writes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) dlWrite {
			w := dlWrite{At: genLimTime(t, "wat"), N: 1 + genLen(t, 3000, "wn"), Cnt: 1}
			switch rapid.IntRange(0, 5).Draw(t, "cntC") {
			case 0, 1:
				w.Cnt = rapid.IntRange(1, 20).Draw(t, "cnt")
			case 2:
				w.Cnt = rapid.IntRange(1, 400).Draw(t, "cnt")
				w.N = min(w.N, 300)
			}
			return w
		}), 0, 8).Draw(t, "writes")
		s.Pauses = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) dlPause {
			return dlPause{genLimTime(t, "pat"), genLimTime(t, "pd")}
		}), 0, 2).Draw(t, "pauses")
	}
	p.Jam = rapid.Bool().Draw(t, "jam")
	jamW, jamAt := 0, 0
	if p.Jam {
		w := rapid.IntRange(0, 1).Draw(t, "jamW")
		from := rapid.IntRange(0, 500).Draw(t, "jamAt")
		jamW, jamAt = w, from
		p.Sides[w].Writes = append(p.Sides[w].Writes, dlWrite{At: from, N: rapid.IntRange(1, 50).Draw(t, "jamN"), Cnt: rapid.IntRange(100, 600).Draw(t, "jamCnt")})
		p.Sides[1-w].Pauses = append(p.Sides[1-w].Pauses, dlPause{max(0, from-100), rapid.IntRange(200, 4000).Draw(t, "jamD")})
	}
	p.Sets = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) dlSet {
		s := dlSet{At: genLimTime(t, "sat"), Srv: rapid.Bool().Draw(t, "ssrv"), W: rapid.IntRange(0, 2).Draw(t, "w"), D: limNone}
		if rapid.IntRange(0, 4).Draw(t, "clear") > 0 {
			s.D = genLimTime(t, "d") - 5
		}
		return s
	}), genMin(t, 10, "sets"), 10).Draw(t, "sets")
	if p.Jam {
		p.Sets = append(p.Sets, dlSet{At: jamAt + rapid.IntRange(0, 1000).Draw(t, "jamSet"), Srv: jamW == 1, W: 1 + rapid.IntRange(0, 1).Draw(t, "jamSW"), D: genLimTime(t, "jamSD")})
	}
	return p
}

// dlBlur is how much later than at once something may be seen: goroutines that are
// held up for some nanoseconds move the virtual clock.
const dlBlur = 2 * time.Microsecond

// dlHist is the history of one deadline.
type dlHist struct {
	mu sync.Mutex
	at []time.Time
	d  []time.Time
}

func (h *dlHist) set(f func(), d time.Time) {
	h.mu.Lock()
	defer h.mu.Unlock()
	f()
	h.at = append(h.at, time.Now())
	h.d = append(h.d, d)
}

// allowed tells whether an operation may end with the deadline's error at t.
func (h *dlHist) allowed(t time.Time) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i, d := range h.d {
		if d.IsZero() || d.After(t) || h.at[i].After(t.Add(dlBlur)) {
			continue
		}
		if i+1 < len(h.at) && h.at[i+1].Before(t.Add(-dlBlur)) {
			continue
		}
		return true
	}
	return false
}

// first is when an operation begun at s had to end, if ever before t.
func (h *dlHist) first(s, t time.Time) (time.Time, bool) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for i, d := range h.d {
		if d.IsZero() {
			continue
		}
		e := s
		if h.at[i].After(e) {
			e = h.at[i]
		}
		if d.After(e) {
			e = d
		}
		if i+1 < len(h.at) && !e.Add(dlBlur).Before(h.at[i+1]) {
			continue
		}
		if e.Add(dlBlur).Before(t) {
			return e, true
		}
	}
	return time.Time{}, false
}

func runDL(c *Case, raw json.RawMessage) {
	p := decodePlan[planDL](raw)
	r := dialRig(c, p.Link, nil, nil, true)
	if r == nil {
		return
	}
	defer r.teardown()
	sm := [2]geminio.Stream{r.cli, r.srv}
	if p.Open > 0 {
		cs, ss, ok := r.open(p.Open == 2, nil)
		if !ok {
			return
		}
		sm = [2]geminio.Stream{cs, ss}
	}
	var hist [2][2]dlHist // [side][read, write]
	t0 := time.Now()
	last := 0
	for _, s := range p.Sets {
		last = max(last, s.At+max(s.D, 0))
	}
	// check one operation
	check := func(what string, side, w int, s time.Time, err error) {
		t := time.Now()
		if err != nil && !errors.Is(err, os.ErrDeadlineExceeded) {
			c.Fail("%s at the %s on a living connection: %v", what, sideName(side == 1), err)
			return
		}
		if err != nil {
			if !hist[side][w].allowed(t) {
				c.Fail("%s at the %s ended with %q %v after the start, when no deadline had passed", what, sideName(side == 1), err, t.Sub(t0))
			}
			if t.After(s.Add(dlBlur)) {
				c.NonTrivial()
				c.Label("%s was blocked", what)
			} else {
				c.Label("%s ended at once", what)
			}
		}
		if e, ok := hist[side][w].first(s, t); ok {
			c.Fail("%s at the %s, begun %v after the start, should have ended by its deadline %v after the start and did %v after it",
				what, sideName(side == 1), s.Sub(t0), e.Sub(t0), t.Sub(t0))
		}
	}
	var mu sync.Mutex
	var sent, got [2][]byte // by writing side, by reading side
	over := make(chan struct{})
	isOver := func() bool {
		select {
		case <-over:
			return true
		default:
			return false
		}
	}
	writers, readers, setters := newGroup(c), newGroup(c), newGroup(c)
	for side := 0; side < 2; side++ {
		side, sp := side, p.Sides[side]
		for rd := 0; rd < sp.Readers; rd++ {
			rd := rd
			readers.Go(fmt.Sprintf("reader %d at the %s", rd, sideName(side == 1)), func() {
				for i := 0; ; i++ {
					for _, pa := range sp.Pauses {
						if d := time.Since(t0); !isOver() && d >= ms(pa.At) && d < ms(pa.At+pa.D) {
							time.Sleep(ms(pa.At+pa.D) - d)
						}
					}
					b := make([]byte, sp.Bufs[i%len(sp.Bufs)])
					s := time.Now()
					n, err := sm[side].Read(b)
					if isOver() && err != nil {
						return
					}
					check("Read", side, 0, s, err)
					if err != nil {
						if n != 0 {
							c.Fail("Read at the %s gave %d bytes along with %v", sideName(side == 1), n, err)
						}
						time.Sleep(ms(max(sp.Gap, 1)))
						continue
					}
					if n > len(b) || n < 0 {
						c.Fail("Read into %d bytes gave %d", len(b), n)
						return
					}
					mu.Lock()
					got[side] = append(got[side], b[:n]...)
					mu.Unlock()
				}
			})
		}
		for wr := 0; wr < sp.Writers; wr++ {
			wr := wr
			writers.Go(fmt.Sprintf("writer %d at the %s", wr, sideName(side == 1)), func() {
				tag := uint32(side + 1 + wr*100000)
				for _, w := range sp.Writes {
					if d := time.Until(t0.Add(ms(w.At))); d > 0 {
						time.Sleep(d)
					}
					for k := 0; k < w.Cnt; k++ {
						tag += 2
						b := pattern(w.N, tag)
						s := time.Now()
						n, err := sm[side].Write(b)
						check("Write", side, 1, s, err)
						for i := range b {
							b[i] = 0xee
						}
						if err == nil && n != w.N {
							c.Fail("Write of %d bytes gave %d and no error", w.N, n)
						}
						if n < 0 || n > w.N {
							c.Fail("Write of %d bytes gave %d", w.N, n)
							return
						}
						mu.Lock()
						sent[side] = append(sent[side], pattern(w.N, tag)[:n]...)
						mu.Unlock()
						if err != nil {
							time.Sleep(ms(sp.Gap))
							if c.Failed() {
								return
							}
						}
					}
				}
			})
		}
	}
	do := func(s dlSet) {
		side := b2i(s.Srv)
		var d time.Time
		if s.D != limNone {
			d = time.Now().Add(ms(s.D))
		}
		var err error
		switch s.W {
		case 0:
			hist[side][0].set(func() { err = sm[side].SetReadDeadline(d) }, d)
		case 1:
			hist[side][1].set(func() { err = sm[side].SetWriteDeadline(d) }, d)
		default:
			hist[side][0].set(func() {
				hist[side][1].set(func() { err = sm[side].SetDeadline(d) }, d)
			}, d)
		}
		if err != nil {
			c.Fail("setting a deadline on a living connection: %v", err)
		}
	}
	for i, s := range p.Sets {
		// no two of them at the same moment: 10 µs apart
		at := ms(s.At) + time.Duration(i+1)*10*time.Microsecond
		setters.Go("setting a deadline", func() {
			time.Sleep(time.Until(t0.Add(at)))
			do(s)
		})
	}
	bound := time.Duration(0)
	for side := range p.Sides {
		cnt, bytes, l := 0, 0, 0
		for _, w := range p.Sides[side].Writes {
			l = max(l, w.At)
			cnt += w.Cnt * p.Sides[side].Writers
			bytes += w.Cnt * p.Sides[side].Writers * (w.N + 40)
		}
		for _, pa := range p.Sides[side].Pauses {
			bound += ms(pa.D)
			last = max(last, pa.At+pa.D)
		}
		last = max(last, l)
		bound += ms(cnt*p.Sides[side].Gap) + p.Link.slack(bytes, 4*cnt+4) + ms(cnt)
		bound += time.Duration(bytes) * ms(p.Sides[side].Gap+1) / 1000
	}
	time.Sleep(time.Until(t0.Add(ms(last + 1))))
	setters.Wait(time.Second, "setting deadlines")
	// an extended or cleared deadline lets everything go on
	for side := 0; side < 2; side++ {
		do(dlSet{Srv: side == 1, W: 2, D: limNone})
	}
	writers.Wait(bound+10*time.Second, "writers, the deadlines cleared and the readers at work")
	end := time.Now().Add(bound + 10*time.Second)
	for time.Now().Before(end) {
		mu.Lock()
		done := len(got[0]) >= len(sent[1]) && len(got[1]) >= len(sent[0])
		mu.Unlock()
		if done {
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	time.Sleep(100*time.Millisecond + p.Link.maxLat())
	mu.Lock()
	for side := 0; side < 2; side++ {
		s, g := sent[1-side], got[side]
		switch {
		case len(s) != len(g):
			c.Fail("%d bytes were written at the %s, %d were read at the other side", len(s), sideName(side == 0), len(g))
		case p.Sides[side].Readers == 1 && p.Sides[1-side].Writers == 1 && !sameBytes(s, g):
			i := 0
			for s[i] == g[i] {
				i++
			}
			c.Fail("what was read at the %s differs from what was written from byte %d of %d", sideName(side == 1), i, len(s))
		default:
			var h [256]int
			for i := range s {
				h[s[i]]++
				h[g[i]]--
			}
			for _, n := range h {
				if n != 0 {
					c.Fail("what was read at the %s differs from what was written", sideName(side == 1))
					break
				}
			}
		}
	}
	mu.Unlock()
	close(over)
	for side := 0; side < 2; side++ {
		sm[side].SetDeadline(time.Now().Add(-time.Second))
	}
	readers.Wait(time.Second, "readers, with a deadline in the past")
}

func init() {
	register(&Prop{
		ID:     "C13",
		Rule:   "deadlines set, extended, cleared and passed at generated moments at both sides of a byte stream with blocked readers (buffers of generated sizes, one or two of them, pausing now and then) and writers that run into them; non-trivial: a blocked Read or Write was ended by its deadline",
		Gen:    genDL,
		Run:    runDL,
		Bubble: true,
		Quick:  800, Thorough: 30000, QuickS: 25, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest: deadlines are kept to 2 µs"},
	})
}
