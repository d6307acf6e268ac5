package gv

import (
	"encoding/json"
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"pgregory.net/rapid"
)

// ---- C03: IDs ----------------------------------------------------------------

const (
	idGet = iota
	idGetMeta
	idReserve
	idDel
	idSleep
	idMany
)

type idOp struct {
	K int
	X uint64 `json:",omitempty"` // reserve: the ID; del: which of the live ones
	N int    `json:",omitempty"` // sleep: ms; many: IDs per goroutine
	G int    `json:",omitempty"` // many: goroutines
}

type idMaker struct {
	S   int
	Srv bool `json:",omitempty"`
	N   int
	Req bool `json:",omitempty"`
}

type planID struct {
	Mode string // "" : IDs made by the ends of a connection
	Ops  []idOp `json:",omitempty"`

	Link   LinkPlan
	Opened []bool    `json:",omitempty"` // streams, opened concurrently, by side
	Makers []idMaker `json:",omitempty"`
}

func genID(t *rapid.T, thorough bool) any {
	p := planID{Mode: rapid.SampledFrom([]string{"even", "odd", "inc", "unique", "unique", "", ""}).Draw(t, "mode")}
	many := 500
	if thorough {
		many = 5000
	}
	if p.Mode == "" {
		p.Link = genLink(t, false)
		p.Opened = rapid.SliceOfN(rapid.Bool(), 0, 24).Draw(t, "opened")
		p.Makers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) idMaker {
			return idMaker{S: rapid.IntRange(0, len(p.Opened)).Draw(t, "s"), Srv: rapid.Bool().Draw(t, "srv"),
				N: rapid.IntRange(1, many).Draw(t, "n"), Req: rapid.Bool().Draw(t, "req")}
		}), 1, 8).Draw(t, "makers")
		return p
	}
	p.Link = LinkPlan{plainDir(), plainDir()}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) idOp {
		o := idOp{K: rapid.SampledFrom([]int{idGet, idGet, idGet, idGetMeta, idReserve, idDel, idDel, idSleep, idMany}).Draw(t, "k")}
		switch o.K {
		case idReserve:
			o.X = uint64(rapid.IntRange(1, 12).Draw(t, "x"))
		case idDel:
			o.X = uint64(rapid.IntRange(0, 30).Draw(t, "x"))
		case idSleep:
			o.N = rapid.IntRange(0, 3000).Draw(t, "ms")
		case idMany:
			o.N = rapid.IntRange(1, many).Draw(t, "n")
			if p.Mode == "unique" {
				o.N = min(o.N, 40)
			}
			o.G = rapid.IntRange(1, 8).Draw(t, "g")
		}
		return o
	}), genMin(t, 60, "ops"), 60).Draw(t, "ops")
	return p
}

func runID(c *Case, raw json.RawMessage) {
	p := decodePlan[planID](raw)
	if p.Mode == "" {
		runIDEnds(c, p)
		return
	}
	f := id.NewIDCounter(id.Mode(p.Mode))
	live := map[uint64]string{} // in use, or (other modes) ever given
	var order []uint64          // live ones that may be deleted
	var mu sync.Mutex
	took := func(x uint64, how string) {
		mu.Lock()
		defer mu.Unlock()
		if x == 0 {
			c.Fail("%s gave the ID 0", how)
		}
		if by, dup := live[x]; dup {
			c.Fail("%s gave %d, which is in use already (%s)", how, x, by)
		}
		if p.Mode == "even" && x%2 != 0 || p.Mode == "odd" && x%2 != 1 {
			c.Fail("%s of a counter of %s IDs gave %d", how, p.Mode, x)
		}
		live[x] = how
		order = append(order, x)
	}
	for i, o := range p.Ops {
		switch o.K {
		case idGet:
			took(f.GetID(), fmt.Sprintf("GetID (op %d)", i))
		case idGetMeta:
			x, err := f.GetIDByMeta([]byte("meta"))
			if err != nil {
				c.Fail("GetIDByMeta: %v", err)
				return
			}
			took(x, fmt.Sprintf("GetIDByMeta (op %d)", i))
		case idReserve:
			f.ReserveID(o.X)
			if p.Mode == "unique" {
				if _, dup := live[o.X]; !dup {
					live[o.X] = fmt.Sprintf("reserved by op %d", i)
					order = append(order, o.X)
				}
			}
		case idDel:
			if p.Mode != "unique" || len(order) == 0 {
				continue
			}
			k := int(o.X) % len(order)
			f.DelID(order[k])
			delete(live, order[k])
			order = append(order[:k], order[k+1:]...)
			c.Label("freed")
		case idSleep:
			time.Sleep(ms(o.N))
		case idMany:
			var wg sync.WaitGroup
			for g := 0; g < o.G; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					mine := make([]uint64, o.N)
					for k := range mine {
						mine[k] = f.GetID()
					}
					for _, x := range mine {
						took(x, fmt.Sprintf("GetID (op %d, goroutine %d of %d)", i, g, o.G))
					}
				}()
			}
			wg.Wait()
			if o.G > 1 {
				c.Label("concurrent")
			}
		}
	}
	c.Label("mode %s", p.Mode)
	if len(live) > 1 {
		c.NonTrivial()
	}
}

func runIDEnds(c *Case, p planID) {
	r := dialRig(c, p.Link, nil, nil, true)
	if r == nil {
		return
	}
	defer r.teardown()
	// streams are opened from both sides at the same time
	type sd struct {
		o, a geminio.Stream
	}
	var mu sync.Mutex
	opened := [2]map[uint64]geminio.Stream{{}, {}}
	accepted := [2]map[uint64]geminio.Stream{{}, {}}
	want := [2]int{}
	g := newGroup(c)
	for i, srv := range p.Opened {
		i, side := i, b2i(srv)
		want[side]++
		g.Go(fmt.Sprintf("OpenStream %d at the %s", i, sideName(srv)), func() {
			sm, err := r.end(srv).OpenStream()
			if err != nil {
				c.Fail("OpenStream at the %s over a healthy connection: %v", sideName(srv), err)
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if opened[side][sm.StreamID()] != nil {
				c.Fail("two streams opened at the %s have the same ID %d", sideName(srv), sm.StreamID())
			}
			opened[side][sm.StreamID()] = sm
		})
	}
	for side := 0; side < 2; side++ {
		side := side
		for k := 0; k < want[1-side]; k++ {
			g.Go("AcceptStream at the "+sideName(side == 1), func() {
				sm, err := r.end(side == 1).AcceptStream()
				if err != nil {
					c.Fail("AcceptStream at the %s over a healthy connection: %v", sideName(side == 1), err)
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if accepted[side][sm.StreamID()] != nil {
					c.Fail("two streams accepted at the %s have the same ID %d", sideName(side == 1), sm.StreamID())
				}
				accepted[side][sm.StreamID()] = sm
			})
		}
	}
	if !g.Wait(60*time.Second, "opening and accepting streams over a healthy connection") || c.Failed() {
		return
	}
	pairs := [][2]geminio.Stream{{r.cli, r.srv}}
	var ids []uint64
	for side := 0; side < 2; side++ {
		for x, sm := range opened[side] {
			other := accepted[1-side][x]
			if other == nil {
				c.Fail("stream %d opened at the %s was not accepted at the other side under that ID", x, sideName(side == 1))
				return
			}
			if opened[1-side][x] != nil || accepted[side][x] != nil || x == r.cli.StreamID() || x == 0 {
				c.Fail("the ID %d of a stream opened at the %s is that of another stream", x, sideName(side == 1))
			}
			ids = append(ids, x)
			if side == 0 {
				pairs = append(pairs, [2]geminio.Stream{sm, other})
			} else {
				pairs = append(pairs, [2]geminio.Stream{other, sm})
			}
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	var made [2]map[uint64]string
	made[0], made[1] = map[uint64]string{}, map[uint64]string{}
	mk := newGroup(c)
	for i, m := range p.Makers {
		i, m := i, m
		mk.Go(fmt.Sprintf("maker %d", i), func() {
			sm := pairs[m.S%len(pairs)][b2i(m.Srv)]
			mine := make([]uint64, m.N)
			what := "message"
			for k := range mine {
				if m.Req {
					mine[k] = sm.NewRequest([]byte("x")).ID()
				} else {
					mine[k] = sm.NewMessage([]byte("x"), options.NewMessage()).ID()
				}
			}
			if m.Req {
				what = "request"
			}
			mu.Lock()
			defer mu.Unlock()
			for _, x := range mine {
				who := fmt.Sprintf("%s of maker %d at the %s", what, i, sideName(m.Srv))
				if x == packet.PacketIDNull {
					c.Fail("the %s has the ID 0", who)
				}
				for s := 0; s < 2; s++ {
					if by, dup := made[s][x]; dup {
						c.Fail("the %s has the ID %d, which is that of a %s", who, x, by)
					}
				}
				made[b2i(m.Srv)][x] = who
			}
		})
	}
	mk.Wait(30*time.Second, "making messages and requests")
	c.Label("ends")
	if len(p.Opened) > 0 || len(p.Makers) > 1 {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID:     "C03",
		Rule:   "operation sequences (get, get by meta, reserve, free, time passing, bursts from up to 8 goroutines) on counters of every mode against a set model; or streams opened concurrently from both sides of a connection, and messages and requests made by up to 8 goroutines; non-trivial: at least two IDs",
		Gen:    genID,
		Run:    runID,
		Bubble: true,
		Quick:  2800, Thorough: 32000, QuickS: 30, ThoroughS: 400,
		Assumptions: []string{"fewer than 2^31 IDs are made by one counter"},
	})
}
