package gv

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// ---- C05: heartbeats ----------------------------------------------------------

const (
	hbIdle  = iota // nothing happens to the connection
	hbStall        // it stalls now and then, for less than a heartbeat
	hbDead         // the client is dead: nothing from it arrives anymore
	hbSplit        // nothing arrives in either direction anymore
)

type hbEv struct {
	At  int // ms
	K   int // traffic: 0 message, 1 call, 2 raw; 3: stall
	Srv bool
	D   int `json:",omitempty"` // stall: ms
	N   int `json:",omitempty"`
}

type planHB struct {
	Link   LinkPlan
	K      int
	T      int // ms until the client dies, or of the whole test
	Ev     []hbEv
	Opened []bool
	Pend   int  // which operations are pending at the time, bit set
	Close  bool `json:",omitempty"` // hbSplit: the client closes afterwards
}

func genHB(t *rapid.T, thorough bool) any {
	p := planHB{Link: genLink(t, false), K: rapid.IntRange(hbIdle, hbSplit).Draw(t, "k")}
	// the library's clock ticks every 10 ms: every virtual minute costs a second
	maxT := 130000
	if thorough {
		maxT = 1000000
	}
	p.T = rapid.IntRange(0, maxT).Draw(t, "t")
	if p.K >= hbDead {
		p.T %= 45000
	} else if p.T < 21000 {
		p.T += 21000
	}
	p.Opened = rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "opened")
	p.Ev = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hbEv {
		e := hbEv{At: rapid.IntRange(0, p.T).Draw(t, "at"), K: rapid.IntRange(0, 2).Draw(t, "ek"), Srv: rapid.Bool().Draw(t, "srv")}
		e.N = genLen(t, 40000, "n")
		if p.K == hbStall && rapid.Bool().Draw(t, "stallC") {
			e.K, e.D = 3, rapid.IntRange(0, 17000).Draw(t, "d")
		}
		return e
	}), 0, 12).Draw(t, "ev")
	p.Pend = rapid.IntRange(0, 127).Draw(t, "pend")
	p.Close = rapid.Bool().Draw(t, "close")
	return p
}

const hbPeriod = 20 * time.Second

func runHB(c *Case, raw json.RawMessage) {
	p := decodePlan[planHB](raw)
	srec, crec := &rec{c: c}, &rec{c: c}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	so.SetDelegate(srvRec{srec})
	co.SetDelegate(cliRec{crec})
	r := dialRig(c, p.Link, co, so, true)
	if r == nil {
		return
	}
	up := time.Now()
	pairs, ok := r.pairs(p.Opened)
	if !ok {
		r.teardown()
		return
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ends := []geminio.End{r.cli, r.srv}
	echo := func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }
	never := make(chan struct{})
	hang := func(_ context.Context, req geminio.Request, rsp geminio.Response) { <-never }
	for i, e := range ends {
		if err := e.Register(ctx, "echo", echo); err != nil {
			c.Fail("Register at the %s over a healthy connection: %v", sideName(i == 1), err)
		}
		if err := e.Register(ctx, "hang", hang); err != nil {
			c.Fail("Register at the %s over a healthy connection: %v", sideName(i == 1), err)
		}
	}
	dead := p.K >= hbDead
	var mu sync.Mutex
	gone := false // the client is dead by now
	isGone := func() bool { mu.Lock(); defer mu.Unlock(); return gone }
	// receivers, which run into the end
	blocked := [2]*group{newGroup(c), newGroup(c)}
	for side := range blocked {
		side := side
		for si := range pairs {
			sm := pairs[si][side]
			blocked[side].Go(fmt.Sprintf("Receive on stream %d at the %s", si, sideName(side == 1)), func() {
				for {
					m, err := sm.Receive(context.Background())
					if err != nil {
						if !isGone() {
							c.Fail("Receive on stream %d at the %s failed on a living connection: %v", si, sideName(side == 1), err)
						}
						return
					}
					m.Done()
				}
			})
			blocked[side].Go(fmt.Sprintf("Read on stream %d at the %s", si, sideName(side == 1)), func() {
				b := make([]byte, 4096)
				for {
					if _, err := sm.Read(b); err != nil {
						if !isGone() {
							c.Fail("Read on stream %d at the %s failed on a living connection: %v", si, sideName(side == 1), err)
						}
						return
					}
				}
			})
		}
		blocked[side].Go("AcceptStream at the "+sideName(side == 1), func() {
			for {
				_, err := ends[side].AcceptStream()
				if !isGone() {
					c.Fail("AcceptStream at the %s returned on a living connection: %v", sideName(side == 1), err)
				}
				if err != nil {
					return
				}
			}
		})
	}
	// an operation done now must succeed
	try := func(what string, srv bool, k, n int, si int) {
		sm := pairs[si%len(pairs)][b2i(srv)]
		var err error
		done := make(chan struct{})
		go func() {
			defer close(done)
			switch k {
			case 0:
				err = sm.Publish(ctx, sm.NewMessage(pattern(n, 7)))
			case 1:
				e := ends[b2i(srv)]
				var rsp geminio.Response
				rsp, err = e.Call(ctx, "echo", e.NewRequest(pattern(n, 9)))
				if err == nil && !sameBytes(rsp.Data(), pattern(n, 9)) {
					err = fmt.Errorf("another response")
				}
			default:
				_, err = sm.Write(pattern(n, 11))
			}
		}()
		t := time.NewTimer(60 * time.Second)
		defer t.Stop()
		select {
		case <-done:
			if err != nil && !isGone() {
				c.Fail("%s at the %s failed on a living connection: %v", what, sideName(srv), err)
			}
		case <-t.C:
			if !isGone() {
				c.Fail("%s at the %s did not complete within 60 s on a living connection", what, sideName(srv))
			}
		}
	}
	evs := newGroup(c)
	for i, e := range p.Ev {
		i, e := i, e
		if e.K == 3 {
			c.Label("stalled")
		}
		evs.Go(fmt.Sprintf("event %d", i), func() {
			time.Sleep(ms(e.At))
			if e.K == 3 {
				return
			}
			if isGone() {
				return
			}
			try("traffic", e.Srv, e.K, e.N, i)
		})
	}
	// stalls one after the other, so that they do not add up
	if p.K == hbStall {
		evs.Go("stalls", func() {
			for _, e := range p.Ev {
				if e.K == 3 {
					time.Sleep(ms(e.At % 30000))
					r.l.Stall(b2i(e.Srv), ms(e.D))
					time.Sleep(ms(e.D) + 45*time.Second)
				}
			}
		})
	}
	time.Sleep(ms(p.T))
	if !dead {
		evs.Wait(time.Duration(len(p.Ev)+1)*100*time.Second, "traffic over a living connection")
		if n := len(srec.events("ConnOffline")) + len(crec.events("ConnOffline")); n > 0 {
			c.Fail("a living connection was told offline")
		}
		for side := 0; side < 2; side++ {
			for k := 0; k < 3; k++ {
				try("traffic after the idle time", side == 1, k, 100, 0)
			}
		}
		el := time.Since(up)
		got, want := len(srec.events("Heartbeat")), int(el/hbPeriod)
		low := want - 2
		if p.K == hbStall {
			low = want - 3
		}
		if got < low || got > want+1 {
			c.Fail("%d heartbeats were told within %v, expected about %d", got, el, want)
		}
		if want > 0 {
			c.NonTrivial()
		}
		c.Label("alive")
	} else {
		mu.Lock()
		gone = true
		mu.Unlock()
		deadAt := time.Now()
		r.l.Hole(0)
		if p.K == hbSplit {
			r.l.Hole(1)
		}
		for side := 0; side < 2; side++ {
			e := ends[side]
			fail := func(what string, err error) {
				if err == nil {
					c.Fail("%s at the %s succeeded although the client is dead", what, sideName(side == 1))
				}
			}
			if p.Pend&1 != 0 {
				blocked[side].Go("Call at the "+sideName(side == 1), func() {
					_, err := e.Call(context.Background(), "hang", e.NewRequest([]byte("x")))
					fail("Call", err)
				})
			}
			if p.Pend&2 != 0 {
				blocked[side].Go("Publish at the "+sideName(side == 1), func() {
					fail("Publish", e.Publish(context.Background(), e.NewMessage([]byte("x"))))
				})
			}
			if p.Pend&4 != 0 {
				blocked[side].Go("OpenStream at the "+sideName(side == 1), func() {
					_, err := e.OpenStream()
					fail("OpenStream", err)
				})
			}
			if p.Pend&8 != 0 {
				blocked[side].Go("Register at the "+sideName(side == 1), func() {
					fail("Register", e.Register(context.Background(), "late", echo))
				})
			}
			if p.Pend&16 != 0 {
				blocked[side].Go("CallAsync at the "+sideName(side == 1), func() {
					cl, err := e.CallAsync(context.Background(), "hang", e.NewRequest([]byte("x")), nil)
					if err == nil {
						err = (<-cl.Done).Error
					}
					fail("CallAsync", err)
				})
			}
		}
		// the server notices by itself
		bound := 2*hbPeriod + 30*time.Second + 5*time.Second + 2*p.Link.maxLat()
		if blocked[1].Wait(bound, "the client fell silent, yet at the server") {
			if n := len(srec.events("ConnOffline")); n != 1 {
				c.Fail("the client fell silent, ConnOffline was called %d times", n)
			} else if at := srec.events("ConnOffline")[0].At; at.Sub(deadAt) < hbPeriod-time.Second {
				c.Fail("the client fell silent, ConnOffline was called only %v after it", at.Sub(deadAt))
			}
		}
		time.Sleep(time.Until(deadAt.Add(bound)))
		r.l.mu.Lock()
		closed := r.sconn.closed
		r.l.mu.Unlock()
		if !closed {
			c.Fail("the client fell silent, but the server did not close its connection within %v", bound)
		}
		if _, err := r.srv.OpenStream(); err == nil {
			c.Fail("OpenStream at the server succeeded although the client is dead")
		}
		if p.K == hbDead {
			// the client hears of it, as the connection works in that direction
			blocked[0].Wait(40*time.Second, "the server gave up the connection, yet at the client")
			c.Label("silent client")
		} else {
			c.Label("split")
		}
		c.NonTrivial()
	}
	mu.Lock()
	gone = true
	mu.Unlock()
	cancel()
	r.teardown()
	for side := range blocked {
		blocked[side].Wait(40*time.Second, "both ends were closed, yet at the "+sideName(side == 1))
	}
	close(never)
	time.Sleep(time.Second)
}

func init() {
	register(&Prop{
		ID:     "C05",
		Rule:   "connections that live for up to 150 seconds (thorough: 17 minutes) with generated latency, sparse traffic and stalls shorter than a heartbeat, or whose client falls silent at a generated moment, in one or both directions, with operations pending; non-trivial: at least one heartbeat, or a silent client",
		Gen:    genHB,
		Run:    runHB,
		Bubble: true,
		Quick:  360, Thorough: 20000, QuickS: 25, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest", "a stall is shorter than 17 s, the heartbeat is every 20 s, and 40 s of silence mean death"},
	})
}
