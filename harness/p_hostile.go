package gv

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
	"pgregory.net/rapid"
)

// ---- C23: a peer that breaks the rules --------------------------------------------

// A box between a client and a server reads the packets of both directions and
// changes what is on the way, so that to each end the other one seems to break the
// rules.

const (
	hoDrop    = iota // the packet is left out
	hoDup            // comes several times
	hoHold           // comes after the next one
	hoInject         // another one comes before it
	hoEcho           // one that refers to it comes after it
	hoType           // is said to be another kind
	hoID             // has another packet ID
	hoSession        // has another session ID
	hoBytes          // bytes of the payload are overwritten
	hoLen            // the length field lies: the framing is lost
	hoTrunc          // the payload is cut short, the length is right
	hoReflect        // goes back to whom it came from, too
	hoCut            // the connection breaks instead
	hoHole           // nothing comes from here on
	hoReplay         // an earlier packet of this direction comes again after it
	hoJunk           // other bytes come instead
	nHo
)

var hoNames = []string{"drop", "duplicate", "reorder", "inject", "refer", "retype", "other ID", "other session", "overwrite", "wrong length", "truncate", "reflect", "cut", "silence", "replay", "junk"}

var hoKinds = []byte{0, 0xff, 0x01, 0x02, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82}

type hoEdit struct {
	S2C  bool `json:",omitempty"`
	At   int  // index of the packet in this direction, among those of kind T
	T    int  `json:",omitempty"`
	Op   int
	N    int     `json:",omitempty"`
	V    uint64  `json:",omitempty"`
	Spec pktSpec `json:",omitzero"`
	B    []byte  `json:",omitempty"`
}

const (
	hkCall = iota
	hkCallAsync
	hkPublish
	hkPublishAsync
	hkWrite
	hkOpen
	hkClose
	hkRegister
	hkList
	hkCallForever
	hkPubForever
	nHk
)

type hoOp struct {
	At  int
	Srv bool `json:",omitempty"`
	K   int
	St  int `json:",omitempty"`
	TO  int `json:",omitempty"`
	N   int `json:",omitempty"`
}

type planHo struct {
	Frag  [2][]int `json:",omitempty"`
	Edits []hoEdit
	Ops   []hoOp
	Opens [2]int
	Timer bool `json:",omitempty"` // shared with the other connection
	Dlg   bool `json:",omitempty"`
	Deaf  bool `json:",omitempty"` // neither hears of the end of the other's connection
	End   int  // who closes first: 0 both, 1 client, 2 server, 3 the connection breaks
}

func genHo(t *rapid.T, thorough bool) any {
	p := planHo{Timer: rapid.Bool().Draw(t, "timer"), Dlg: rapid.Bool().Draw(t, "dlg"), End: rapid.IntRange(0, 3).Draw(t, "end")}
	p.Opens = [2]int{rapid.IntRange(0, 2).Draw(t, "opens0"), rapid.IntRange(0, 2).Draw(t, "opens1")}
	p.Deaf = rapid.IntRange(0, 3).Draw(t, "deaf") == 0
	p.Frag[0], p.Frag[1] = genFrag(t, "frag0"), genFrag(t, "frag1")
	small := func(label string) uint64 {
		if rapid.IntRange(0, 9).Draw(t, label+"C") == 0 {
			return genU64(t, label+"U")
		}
		return uint64(rapid.IntRange(0, 12).Draw(t, label))
	}
	p.Edits = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hoEdit {
		e := hoEdit{S2C: rapid.Bool().Draw(t, "s2c"), Op: rapid.IntRange(0, nHo+1).Draw(t, "op")}
		if e.Op >= nHo {
			e.Op = hoSession
		}
		switch rapid.IntRange(0, 9).Draw(t, "atC") {
		case 0:
			e.At = 0
		case 1:
			e.At = 1
		case 2, 3, 4, 5:
			e.T = int(rapid.SampledFrom(hoKinds[2:]).Draw(t, "of"))
			e.At = rapid.IntRange(0, 4).Draw(t, "nth")
		default:
			e.At = rapid.IntRange(1, 40).Draw(t, "at")
		}
		switch e.Op {
		case hoDup, hoReplay:
			e.N = rapid.IntRange(1, 5).Draw(t, "n")
		case hoInject, hoEcho:
			e.Spec = genPktSpec(t, 60)
			e.Spec.ID, e.Spec.A, e.Spec.B = small("id"), small("a"), small("b")
			if rapid.Bool().Draw(t, "one") {
				e.Spec.A = 1
			}
			e.N = rapid.IntRange(1, 3).Draw(t, "n")
		case hoType:
			e.V = uint64(rapid.SampledFrom(hoKinds).Draw(t, "type"))
		case hoID, hoSession:
			e.V = small("v")
			if e.Op == hoSession && rapid.Bool().Draw(t, "ofC") {
				e.T = int(rapid.SampledFrom([]byte{0x31, 0x32, 0x32, 0x41, 0x42, 0x51}).Draw(t, "ofSession"))
				e.At = rapid.IntRange(0, 4).Draw(t, "nthSession")
			}
		case hoBytes:
			e.N = rapid.IntRange(0, 60).Draw(t, "n")
			e.B = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "b")
		case hoLen:
			e.V = uint64(rapid.OneOf(rapid.Uint32Range(0, 40), rapid.Uint32Range(0, 1000), rapid.SampledFrom([]uint32{1 << 20, 1 << 28, 0x7fffffff, 0xffffffff})).Draw(t, "v"))
		case hoTrunc:
			e.N = rapid.IntRange(0, 40).Draw(t, "n")
		case hoJunk:
			e.B = rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "b")
		}
		return e
	}), genMin(t, 12, "edits"), 12).Draw(t, "edits")
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hoOp {
		o := hoOp{At: rapid.IntRange(0, 400).Draw(t, "at"), Srv: rapid.Bool().Draw(t, "srv"), K: rapid.IntRange(0, nHk-1).Draw(t, "k"),
			St: rapid.IntRange(0, 5).Draw(t, "st"), TO: rapid.IntRange(20, 2000).Draw(t, "to"), N: rapid.IntRange(0, 300).Draw(t, "n")}
		if rapid.Bool().Draw(t, "early") {
			o.At = 0
		}
		return o
	}), genMin(t, 14, "ops"), 14).Draw(t, "ops")
	return p
}

type hoPkt struct{ b []byte }

func (p hoPkt) id() uint64 { return binary.BigEndian.Uint64(p.b[2:10]) }

// session is where the packet's session ID is in it, or -1.
func (p hoPkt) session() int {
	switch p.b[1] {
	case 0x31:
		// of the one who opens
		if len(p.b) >= 14+10 {
			return 14 + 2
		}
	case 0x32:
		if len(p.b) >= 14+18 {
			return 14 + 10
		}
	case 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82:
		if len(p.b) >= 14+8 {
			return 14
		}
	}
	return -1
}

// hoBox carries packets from one end to the other.
type hoBox struct {
	c     *Case
	plan  *planHo
	conns [2]*memConn // towards the client, towards the server
	wmu   [2]sync.Mutex
	links [2]*link
	mu    sync.Mutex
	hit   int
	ids   [2][]uint64 // of packets and of sessions, which went by
}

// known gives one of the IDs (which: 0 of packets, 1 of sessions) there are; big
// ones are themselves.
func (x *hoBox) known(which int, v uint64) uint64 {
	x.mu.Lock()
	defer x.mu.Unlock()
	if v > 12 || len(x.ids[which]) == 0 {
		return v
	}
	return x.ids[which][v%uint64(len(x.ids[which]))]
}

func (x *hoBox) note(p hoPkt) {
	x.mu.Lock()
	defer x.mu.Unlock()
	ids := [2]uint64{p.id(), 1}
	if o := p.session(); o >= 0 {
		ids[1] = binary.BigEndian.Uint64(p.b[o:])
	}
	for i, v := range ids {
		if !slices.Contains(x.ids[i], v) {
			x.ids[i] = append(x.ids[i], v)
		}
	}
}

// write gives bytes to the end of index to.
func (x *hoBox) write(to int, b []byte) {
	x.wmu[to].Lock()
	defer x.wmu[to].Unlock()
	x.conns[to].Write(b)
}

func (x *hoBox) run(from int) {
	to := 1 - from
	src := x.conns[from]
	defer func() {
		if x.plan.Deaf {
			io.Copy(io.Discard, src)
			return
		}
		// the end of one connection is that of the other one
		x.conns[to].Close()
		io.Copy(io.Discard, src)
		src.Close()
	}()
	var seen []hoPkt
	count := map[byte]int{}
	hole := false
	for n := 0; ; n++ {
		hdr := make([]byte, 14)
		if _, err := io.ReadFull(src, hdr); err != nil {
			return
		}
		b := make([]byte, 14+int(binary.BigEndian.Uint32(hdr[10:14])))
		copy(b, hdr)
		if _, err := io.ReadFull(src, b[14:]); err != nil {
			return
		}
		p := hoPkt{b}
		x.note(p)
		seen = append(seen, hoPkt{append([]byte(nil), b...)})
		typ := b[1]
		out := [][]byte{b}
		var before, after, back [][]byte
		for i := range x.plan.Edits {
			e := &x.plan.Edits[i]
			if e.S2C != (from == 1) {
				continue
			}
			if e.T == 0 && e.At != n || e.T != 0 && (byte(e.T) != typ || e.At != count[typ]) {
				continue
			}
			x.mu.Lock()
			x.hit++
			x.mu.Unlock()
			x.c.Label("%s", hoNames[e.Op])
			if e.Op == hoSession {
				x.c.Label("%s %s", hoNames[e.Op], typeName(typ))
			}
			x.c.Trace("%s packet %d (%s): %s", sideName(from == 1), n, typeName(b[1]), hoNames[e.Op])
			switch e.Op {
			case hoDrop:
				out = nil
			case hoDup:
				for k := 0; k < e.N; k++ {
					after = append(after, b)
				}
			case hoHold:
				out = nil
				nx := seen[len(seen)-1].b
				go func() {
					// after what comes next, if anything does
					time.Sleep(5 * time.Millisecond)
					x.write(to, nx)
				}()
			case hoInject:
				s := e.Spec
				s.ID = x.known(0, s.ID)
				if s.A != 1 {
					s.A = x.known(1, s.A)
				}
				for k := 0; k < e.N; k++ {
					before = append(before, s.reference())
				}
			case hoEcho:
				s := e.Spec
				s.ID = p.id()
				if o := p.session(); o >= 0 {
					s.A = binary.BigEndian.Uint64(p.b[o:])
				}
				for k := 0; k < e.N; k++ {
					back = append(back, s.reference())
				}
			case hoType:
				b[1] = byte(e.V)
			case hoID:
				binary.BigEndian.PutUint64(b[2:10], x.known(0, e.V))
			case hoSession:
				if o := p.session(); o >= 0 && o+8 <= len(b) {
					binary.BigEndian.PutUint64(b[o:], x.known(1, e.V))
				}
			case hoBytes:
				for i, v := range e.B {
					if k := 14 + e.N + i; k < len(b) {
						b[k] = v
					}
				}
			case hoLen:
				binary.BigEndian.PutUint32(b[10:14], uint32(e.V))
			case hoTrunc:
				if 14+e.N < len(b) && out != nil {
					b = b[:14+e.N]
					binary.BigEndian.PutUint32(b[10:14], uint32(e.N))
					out = [][]byte{b}
				}
			case hoReflect:
				back = append(back, b)
			case hoCut:
				x.links[0].Cut()
				x.links[1].Cut()
				return
			case hoHole:
				hole = true
			case hoReplay:
				after = append(after, seen[max(0, len(seen)-1-e.N)].b)
			case hoJunk:
				out = [][]byte{e.B}
			}
		}
		count[typ]++
		if hole {
			continue
		}
		for _, w := range append(append(before, out...), after...) {
			x.write(to, w)
		}
		for _, w := range back {
			x.write(from, w)
		}
	}
}

func typeName(b byte) string { return fmt.Sprintf("0x%02x", b) }

func runHo(c *Case, raw json.RawMessage) {
	p := decodePlan[planHo](raw)
	var tmr timer.Timer
	co, so := client.NewEndOptions(), server.NewEndOptions()
	bco, bso := client.NewEndOptions(), server.NewEndOptions()
	if p.Timer {
		tmr = timer.NewTimer()
		co.SetTimer(tmr)
		so.SetTimer(tmr)
		bco.SetTimer(tmr)
		bso.SetTimer(tmr)
	}
	if p.Dlg {
		cr, sr := &rec{c: c}, &rec{c: c}
		co.SetDelegate(cliRec{cr})
		so.SetDelegate(srvRec{sr})
	}
	// someone else's connection, which must not notice anything
	by := dialRig(c, LinkPlan{plainDir(), plainDir()}, bco, bso, true)
	if by == nil {
		return
	}
	for side := 0; side < 2; side++ {
		if err := by.end(side == 1).Register(context.Background(), "echo", func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }); err != nil {
			c.Fail("Register over a healthy connection: %v", err)
		}
	}
	stop := make(chan struct{})
	byg := newGroup(c)
	for side := 0; side < 2; side++ {
		byg.Go("the other connection", func() {
			for k := 0; ; k++ {
				select {
				case <-stop:
					return
				case <-time.After(50 * time.Millisecond):
				}
				want := pattern(20, uint32(k))
				ctx, cancel := context.WithTimeout(context.Background(), time.Second)
				rsp, err := by.end(side == 1).Call(ctx, "echo", by.end(side == 1).NewRequest(want))
				cancel()
				if err != nil || !sameBytes(rsp.Data(), want) {
					c.Fail("a call over another, healthy connection: %v, or another response", err)
					return
				}
			}
		})
	}

	lp := LinkPlan{plainDir(), plainDir()}
	lp.C2S.Frag, lp.S2C.Frag = p.Frag[0], p.Frag[1]
	x := &hoBox{c: c, plan: &p}
	var cc, sc *memConn
	cc, x.conns[0], x.links[0] = newLink(plainDir(), lp.S2C, "c")
	x.conns[1], sc, x.links[1] = newLink(lp.C2S, plainDir(), "s")
	go x.run(0)
	go x.run(1)
	var ends [2]geminio.End
	up := newGroup(c)
	up.Go("NewEndWithConn at the client", func() {
		if e, err := client.NewEndWithConn(cc, co); err == nil {
			ends[0] = e
		}
	})
	up.Go("NewEndWithConn at the server", func() {
		if e, err := server.NewEndWithConn(sc, so); err == nil {
			ends[1] = e
		}
	})
	if !up.Wait(60*time.Second, "coming up, or not") {
		x.links[0].Cut()
		x.links[1].Cut()
		close(stop)
		return
	}
	if ends[0] != nil && ends[1] != nil {
		c.Label("both came up")
	}

	// users of both ends
	users, forever, limited := newGroup(c), newGroup(c), newGroup(c)
	var mu sync.Mutex
	var streams [2][]geminio.Stream
	consume := func(side int, sm geminio.Stream) {
		name := sideName(side == 1)
		users.Go("Receive at the "+name, func() {
			for {
				m, err := sm.Receive(context.Background())
				if err != nil {
					return
				}
				m.Done()
			}
		})
		users.Go("Read at the "+name, func() {
			b := make([]byte, 100)
			for {
				if _, err := sm.Read(b); err != nil {
					return
				}
			}
		})
		mu.Lock()
		streams[side] = append(streams[side], sm)
		mu.Unlock()
	}
	echo := func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }
	for side := 0; side < 2; side++ {
		e := ends[side]
		if e == nil {
			continue
		}
		consume(side, e)
		users.Go("AcceptStream at the "+sideName(side == 1), func() {
			for {
				sm, err := e.AcceptStream()
				if err != nil {
					return
				}
				consume(side, sm)
			}
		})
		limited.Go("Register at the "+sideName(side == 1), func() {
			ctx, cancel := context.WithTimeout(context.Background(), time.Second)
			defer cancel()
			e.Register(ctx, "echo", echo)
		})
	}
	for side := 0; side < 2; side++ {
		for k := 0; k < p.Opens[side] && ends[side] != nil; k++ {
			limited.Go("OpenStream at the "+sideName(side == 1), func() {
				if sm, err := ends[side].OpenStream(); err == nil {
					consume(side, sm)
				}
			})
		}
	}
	time.Sleep(10 * time.Millisecond)
	t0 := time.Now()
	last := 0
	done := 0
	for i, o := range p.Ops {
		side := b2i(o.Srv)
		if ends[side] == nil {
			continue
		}
		done++
		last = max(last, o.At)
		what := fmt.Sprintf("operation %d (kind %d) at the %s", i, o.K, sideName(o.Srv))
		g := limited
		if o.K == hkCallForever || o.K == hkPubForever {
			g = forever
		}
		g.Go(what, func() {
			time.Sleep(time.Until(t0.Add(ms(o.At))))
			mu.Lock()
			sm := streams[side][o.St%len(streams[side])]
			mu.Unlock()
			ctx := context.Background()
			data := pattern(o.N, uint32(i))
			begun := time.Now()
			lim := ms(o.TO) + ms(100)
			switch o.K {
			case hkCall:
				op := options.Call()
				op.SetTimeout(ms(o.TO))
				sm.Call(ctx, "echo", sm.NewRequest(data), op)
			case hkCallAsync:
				op := options.Call()
				op.SetTimeout(ms(o.TO))
				if cl, err := sm.CallAsync(ctx, "echo", sm.NewRequest(data), nil, op); err == nil {
					<-cl.Done
				}
			case hkPublish:
				op := options.Publish()
				op.SetTimeout(ms(o.TO))
				sm.Publish(ctx, sm.NewMessage(data), op)
			case hkPublishAsync:
				op := options.Publish()
				op.SetTimeout(ms(o.TO))
				if pb, err := sm.PublishAsync(ctx, sm.NewMessage(data), nil, op); err == nil {
					<-pb.Done
				}
			case hkWrite:
				sm.Write(data)
			case hkOpen:
				lim = 31 * time.Second
				if sm, err := ends[side].OpenStream(); err == nil {
					consume(side, sm)
				}
			case hkClose:
				lim = 31 * time.Second
				sm.Close()
			case hkRegister:
				ctx, cancel := context.WithTimeout(ctx, ms(o.TO))
				defer cancel()
				sm.Register(ctx, fmt.Sprintf("m%d", i), echo)
			case hkList:
				ends[side].ListStreams()
			case hkCallForever:
				sm.Call(ctx, "echo", sm.NewRequest(data))
				return
			case hkPubForever:
				sm.Publish(ctx, sm.NewMessage(data))
				return
			}
			if el := time.Since(begun); el > lim {
				c.Fail("%s, limited to %d ms, took %v", what, o.TO, el)
			}
		})
	}
	time.Sleep(ms(last) + 3*time.Second)
	limited.Wait(35*time.Second, "operations with limits, whatever the peer does")
	closing := newGroup(c)
	first := newGroup(c)
	for side := 0; side < 2; side++ {
		if e := ends[side]; e != nil && (p.End == 0 || p.End == side+1) {
			first.Go("Close of the "+sideName(side == 1), func() { e.Close() })
		}
	}
	if p.End == 3 {
		x.links[0].Cut()
		x.links[1].Cut()
	}
	if first.Wait(45*time.Second, "Close, whatever the peer does") {
		for side := 0; side < 2; side++ {
			if e := ends[side]; e != nil {
				closing.Go("Close of the "+sideName(side == 1), func() { e.Close() })
			}
		}
		closing.Wait(45*time.Second, "Close, whatever the peer does")
	}
	forever.Wait(45*time.Second, "operations at closed ends")
	users.Wait(45*time.Second, "Receive, Read and AcceptStream at closed ends")
	close(stop)
	byg.Wait(5*time.Second, "the other connection")
	by.teardown()
	// an end whose peer no longer answers gives up after its close timeout of 30 s
	time.Sleep(70 * time.Second)
	if p.Timer {
		tmr.Close()
		time.Sleep(100 * time.Millisecond)
	}
	if !c.Failed() {
		if lo := leftover(); len(lo) > 0 {
			c.Fail("goroutines left after everything was closed: %s", strings.Join(lo, "; "))
		}
		for i, mc := range []*memConn{cc, sc} {
			mc.l.mu.Lock()
			cl := mc.closed
			mc.l.mu.Unlock()
			if !cl {
				c.Fail("the %s's net.Conn was never closed", sideName(i == 1))
			}
		}
	}
	x.mu.Lock()
	if x.hit > 0 && done > 0 {
		c.NonTrivial()
	}
	x.mu.Unlock()
}

func init() {
	register(&Prop{
		ID:     "C23",
		Rule:   "two ends with a box between them that drops, duplicates, reorders, injects, retypes, renumbers, overwrites, truncates, reflects, replays packets, loses the framing, cuts or falls silent at up to 12 generated packets of either direction, handshake included, while both sides operate; next to them a healthy connection, sharing the timer or not; non-trivial: a packet was tampered with and an operation ran",
		Gen:    genHo,
		Run:    runHo,
		Bubble: true,
		Quick:  600, Thorough: 40000, QuickS: 25, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest", "what a peer makes an end store is bounded: up to 12 packets are tampered with"},
	})
}
