package gv

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// ---- C15: opening streams and their identity ------------------------------------

type stOpen struct {
	At    int
	Srv   bool   `json:",omitempty"`
	Meta  Blob   `json:"m"`
	Peer  string `json:",omitempty"`
	Early int    `json:",omitempty"` // bytes written as soon as it is open
	Msgs  int    `json:",omitempty"` // and messages
	Reg   bool   `json:",omitempty"` // and a method, which the acceptor calls
	Close int    // closed by the opener so many ms afterwards, limNone: not
	Plain bool   `json:",omitempty"` // no options
	Short bool   `json:",omitempty"` // closed by the opener at once
}

type planSt struct {
	Rep   int `json:",omitempty"` // everything is opened so many times
	Link  LinkPlan
	Opens []stOpen
	Acc   [2]int // AcceptStream starts after so many ms, at the client, server
	NAcc  [2]int // so many accept
	Func  bool   `json:",omitempty"` // the server uses AcceptStreamFunc
	Hij   bool   `json:",omitempty"` // and hijacks there, after so many ms
	RegN  int    `json:",omitempty"` // and registers so many methods there
	Hello int    `json:",omitempty"` // and sends so many bytes and a message there
	Slow  int    `json:",omitempty"`
	Conn  bool   `json:",omitempty"` // accept through net.Listener's Accept
	Tail  int    `json:",omitempty"` // so many are opened by an end that closes at once
	TSrv  bool   `json:",omitempty"` // by the server
	Pace  int    `json:",omitempty"` // and accepted one every so many ms
}

func genSt(t *rapid.T, thorough bool) any {
	p := planSt{Link: genLink(t, false), Func: rapid.IntRange(0, 3).Draw(t, "func") == 0, Conn: rapid.IntRange(0, 3).Draw(t, "conn") == 0}
	for i := range p.Acc {
		if rapid.Bool().Draw(t, "accC") {
			p.Acc[i] = genLimTime(t, "acc")
		}
		p.NAcc[i] = 1
		if rapid.IntRange(0, 3).Draw(t, "naccC") == 0 {
			p.NAcc[i] = rapid.IntRange(2, 3).Draw(t, "nacc")
		}
	}
	if p.Func && rapid.IntRange(0, 3).Draw(t, "hij") > 0 {
		switch rapid.IntRange(0, 2).Draw(t, "how") {
		case 0:
			p.Hij = true
		case 1:
			p.RegN = rapid.IntRange(1, 12).Draw(t, "regN")
		default:
			p.Hello = genLen(t, 5000, "hello")
		}
		if rapid.Bool().Draw(t, "slowC") {
			p.Slow = rapid.IntRange(1, 300).Draw(t, "slow")
		}
	}
	burst := rapid.Bool().Draw(t, "burst")
	p.Opens = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) stOpen {
		o := stOpen{Srv: rapid.Bool().Draw(t, "srv"), Close: limNone}
		if !burst {
			o.At = genLimTime(t, "at")
		}
		o.Plain = rapid.IntRange(0, 4).Draw(t, "plain") == 0
		if !o.Plain {
			o.Meta = genBlob(t, 2000, "meta")
			o.Peer = genStr(t, 20, "peer")
		}
		if rapid.Bool().Draw(t, "earlyC") {
			o.Early = genLen(t, 5000, "early")
			o.Msgs = rapid.IntRange(0, 3).Draw(t, "msgs")
			o.Reg = rapid.Bool().Draw(t, "reg")
		}
		if rapid.IntRange(0, 2).Draw(t, "closeC") == 0 {
			o.Close = genLimTime(t, "close")
		}
		if !o.Reg && rapid.IntRange(0, 4).Draw(t, "short") == 0 {
			o.Short = true
		}
		return o
	}), genMin(t, 24, "opens"), 24).Draw(t, "opens")
	if rapid.IntRange(0, 2).Draw(t, "tailC") == 0 {
		p.Tail, p.TSrv = rapid.IntRange(1, 6).Draw(t, "tail"), rapid.Bool().Draw(t, "tsrv")
		if rapid.Bool().Draw(t, "paceC") {
			p.Pace = rapid.IntRange(1, 600).Draw(t, "pace")
		}
	}
	if rapid.IntRange(0, 29).Draw(t, "repC") == 0 {
		p.Rep = rapid.IntRange(2, 12).Draw(t, "rep")
		p.Acc = [2]int{} // a stream nobody accepts holds up the next ones
	}
	return p
}

type stGot struct {
	sm geminio.Stream
	at time.Time
}

func runSt(c *Case, raw json.RawMessage) {
	p := decodePlan[planSt](raw)
	if p.Rep > 1 {
		c.Label("many streams")
		once := p.Opens
		for k := 1; k < p.Rep; k++ {
			p.Opens = append(p.Opens, once...)
		}
	}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	var mu sync.Mutex
	acc := [2][]stGot{}
	work := newGroup(c)
	accepted := func(side int, sm geminio.Stream) {
		mu.Lock()
		acc[side] = append(acc[side], stGot{sm, time.Now()})
		mu.Unlock()
	}
	closed := map[uint64]int{}
	so.SetClosedStreamFunc(func(sm geminio.Stream) {
		mu.Lock()
		closed[sm.StreamID()]++
		mu.Unlock()
	})
	if p.Func {
		so.SetAcceptStreamFunc(func(sm geminio.Stream) {
			if p.Hij {
				// it serves the very first call
				time.Sleep(ms(p.Slow))
				if err := sm.Hijack(func(_ context.Context, m string, req geminio.Request, rsp geminio.Response) {
					rsp.SetData([]byte(fmt.Sprintf("%s at %d", m, sm.StreamID())))
				}); err != nil {
					c.Fail("Hijack in the accept function: %v", err)
				}
			}
			if p.RegN > 0 {
				time.Sleep(ms(p.Slow))
				for k := 0; k < p.RegN; k++ {
					k := k
					if err := sm.Register(context.Background(), fmt.Sprintf("in%d", k), func(_ context.Context, req geminio.Request, rsp geminio.Response) {
						rsp.SetData([]byte(fmt.Sprintf("%d at %d", k, sm.StreamID())))
					}); err != nil {
						c.Fail("Register in the accept function: %v", err)
					}
				}
			}
			if p.Hello > 0 {
				time.Sleep(ms(p.Slow))
				if n, err := sm.Write(pattern(p.Hello, uint32(sm.StreamID()))); n != p.Hello || err != nil {
					c.Fail("Write in the accept function: %d of %d, %v", n, p.Hello, err)
				}
				if _, err := sm.PublishAsync(context.Background(), sm.NewMessage([]byte(fmt.Sprintf("hello %d", sm.StreamID()))), nil); err != nil {
					c.Fail("PublishAsync in the accept function: %v", err)
				}
			}
			accepted(1, sm)
		})
	}
	r := dialRig(c, p.Link, co, so, true)
	if r == nil {
		return
	}
	ends := [2]geminio.End{r.cli, r.srv}
	over := make(chan struct{})
	var pace atomic.Int64
	t0 := time.Now()
	accs := newGroup(c)
	for side := 0; side < 2; side++ {
		if side == 1 && p.Func {
			continue
		}
		for k := 0; k < p.NAcc[side]; k++ {
			side := side
			accs.Go("AcceptStream at the "+sideName(side == 1), func() {
				time.Sleep(ms(p.Acc[side]))
				for {
					var sm geminio.Stream
					var err error
					if p.Conn {
						cn, e := ends[side].Accept()
						if err = e; e == nil {
							var ok bool
							if sm, ok = cn.(geminio.Stream); !ok {
								c.Fail("Accept gave a %T, no stream", cn)
								return
							}
						}
					} else {
						sm, err = ends[side].AcceptStream()
					}
					if err != nil {
						select {
						case <-over:
						default:
							c.Fail("AcceptStream at the %s on a living connection: %v", sideName(side == 1), err)
						}
						return
					}
					accepted(side, sm)
					time.Sleep(ms(int(pace.Load())))
				}
			})
		}
	}
	opened := make([]geminio.Stream, len(p.Opens))
	openedAt := make([]time.Time, len(p.Opens))
	earlyOf := func(i int) []byte { return pattern(p.Opens[i].Early, uint32(i+1)) }
	last := max(p.Acc[0], p.Acc[1])
	for i, o := range p.Opens {
		last = max(last, o.At)
		work.Go(fmt.Sprintf("OpenStream %d at the %s", i, sideName(o.Srv)), func() {
			time.Sleep(time.Until(t0.Add(ms(o.At))))
			var opts []*options.OpenStreamOptions
			if !o.Plain {
				oo := options.OpenStream()
				oo.SetMeta(o.Meta.Bytes())
				oo.SetPeer(o.Peer)
				opts = append(opts, oo)
			}
			sm, err := ends[b2i(o.Srv)].OpenStream(opts...)
			if err != nil {
				c.Fail("OpenStream %d at the %s on a living connection: %v", i, sideName(o.Srv), err)
				return
			}
			if p.Hij && !o.Srv {
				rsp, err := sm.Call(context.Background(), "first", sm.NewRequest(nil))
				if want := fmt.Sprintf("first at %d", sm.StreamID()); err != nil || string(rsp.Data()) != want {
					c.Fail("the accept function hijacked stream %d, but a call by its opener failed: %v, or got another response", sm.StreamID(), err)
				} else {
					c.Label("first call hijacked")
				}
			}
			if p.RegN > 0 && !o.Srv {
				k := i % p.RegN
				rsp, err := sm.Call(context.Background(), fmt.Sprintf("in%d", k), sm.NewRequest(nil))
				if want := fmt.Sprintf("%d at %d", k, sm.StreamID()); err != nil || string(rsp.Data()) != want {
					c.Fail("the accept function registered %d methods on stream %d, but a call of its opener to one of them failed: %v, or got another response", p.RegN, sm.StreamID(), err)
				} else {
					c.Label("first call to a method of the accept function")
				}
			}
			if p.Hello > 0 && !o.Srv {
				got := make([]byte, p.Hello)
				if _, err := io.ReadFull(sm, got); err != nil || !bytes.Equal(got, pattern(p.Hello, uint32(sm.StreamID()))) {
					c.Fail("the opener of stream %d did not get the %d bytes which the accept function wrote: %v", sm.StreamID(), p.Hello, err)
				}
				if m, err := sm.Receive(context.Background()); err != nil || string(m.Data()) != fmt.Sprintf("hello %d", sm.StreamID()) {
					c.Fail("the opener of stream %d did not get the message which the accept function published: %v", sm.StreamID(), err)
				} else {
					m.Done()
					c.Label("hello of the accept function")
				}
			}
			// what is sent at once must not get lost
			if o.Early > 0 {
				if n, err := sm.Write(earlyOf(i)); err != nil || n != o.Early {
					c.Fail("Write on a stream just opened: %d, %v", n, err)
				}
			}
			for k := 0; k < o.Msgs; k++ {
				if _, err := sm.PublishAsync(context.Background(), sm.NewMessage([]byte(fmt.Sprintf("m%d.%d", i, k))), nil); err != nil {
					c.Fail("PublishAsync on a stream just opened: %v", err)
				}
			}
			if o.Reg {
				err := sm.Register(context.Background(), fmt.Sprintf("r%d", i), func(_ context.Context, req geminio.Request, rsp geminio.Response) {
					rsp.SetData(append([]byte(fmt.Sprintf("%d:", i)), req.Data()...))
				})
				if err != nil {
					c.Fail("Register on a stream just opened: %v", err)
				}
			}
			if o.Short {
				sm.Close()
			}
			mu.Lock()
			opened[i], openedAt[i] = sm, time.Now()
			mu.Unlock()
		})
	}
	// a stream is open after a round trip, and Register waits for the acceptor
	if !work.Wait(time.Until(t0.Add(ms(last)))+time.Second+ms(p.Slow)+10*p.Link.maxLat(), "opening streams over a healthy connection") {
		close(over)
		r.teardown()
		return
	}
	time.Sleep(time.Until(t0.Add(ms(last))) + 100*time.Millisecond + 4*p.Link.maxLat())
	mu.Lock()
	ids := map[uint64]int{}
	peerOf := make([]geminio.Stream, len(p.Opens))
	for i, sm := range opened {
		if sm == nil {
			continue
		}
		if j, dup := ids[sm.StreamID()]; dup || sm.StreamID() <= 1 {
			c.Fail("stream %d has ID %d, as stream %d", i, sm.StreamID(), j)
		}
		ids[sm.StreamID()] = i
	}
	for side := range acc {
		seen := map[uint64]bool{}
		for _, g := range acc[side] {
			id := g.sm.StreamID()
			i, ok := ids[id]
			if !ok || b2i(p.Opens[i].Srv) == side {
				c.Fail("the %s accepted a stream with ID %d that the other side did not open", sideName(side == 1), id)
				continue
			}
			if seen[id] {
				c.Fail("the %s accepted the stream with ID %d twice", sideName(side == 1), id)
			}
			seen[id] = true
			peerOf[i] = g.sm
		}
	}
	for i, sm := range opened {
		o := p.Opens[i]
		if sm == nil {
			continue
		}
		if peerOf[i] == nil {
			c.Fail("stream %d (ID %d) was opened at the %s but never accepted", i, sm.StreamID(), sideName(o.Srv))
			continue
		}
		for k, s := range []geminio.Stream{sm, peerOf[i]} {
			who := []string{"opener", "acceptor"}[k]
			if !sameBytes(s.Meta(), o.Meta.Bytes()) && len(s.Meta())+len(o.Meta.Bytes()) > 0 {
				c.Fail("Meta of stream %d at the %s is %q, not that given to OpenStream", i, who, s.Meta())
			}
			if s.Peer() != o.Peer {
				c.Fail("Peer of stream %d at the %s is %q, given %q to OpenStream", i, who, s.Peer(), o.Peer)
			}
			if s.ClientID() != r.cli.ClientID() {
				c.Fail("ClientID of stream %d at the %s is %d, the client's is %d", i, who, s.ClientID(), r.cli.ClientID())
			}
			if s.Side() != geminio.Side(k) {
				c.Fail("Side of stream %d at the %s is %v", i, who, s.Side())
			}
			e := ends[b2i(o.Srv)]
			if k == 1 {
				e = ends[1-b2i(o.Srv)]
			}
			if s.LocalAddr().String() != e.LocalAddr().String() || s.RemoteAddr().String() != e.RemoteAddr().String() {
				c.Fail("addresses of stream %d at the %s are %v and %v, those of its end %v and %v", i, who, s.LocalAddr(), s.RemoteAddr(), e.LocalAddr(), e.RemoteAddr())
			}
		}
	}
	// streams opened one after the other are accepted in that order
	for side := range acc {
		if p.NAcc[side] > 1 {
			continue
		}
		for _, g := range acc[side] {
			i, ok := ids[g.sm.StreamID()]
			if !ok {
				continue
			}
			began := t0.Add(ms(p.Opens[i].At))
			for j, sm := range opened {
				// j was open before i was begun, so it's accepted before
				if sm == nil || p.Opens[j].Srv != p.Opens[i].Srv || !openedAt[j].Before(began) || peerOf[j] == nil {
					continue
				}
				for _, h := range acc[side] {
					if h.sm.StreamID() == sm.StreamID() && h.at.After(g.at) {
						c.Fail("stream %d was open before stream %d was begun, but was accepted after it", j, i)
					}
				}
			}
		}
	}
	mu.Unlock()
	list := func(when string, alive func(i int) bool) {
		var want []uint64
		want = append(want, 1)
		for i, sm := range opened {
			if sm != nil && alive(i) && !p.Opens[i].Short {
				want = append(want, sm.StreamID())
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		for side := 0; side < 2; side++ {
			var got []uint64
			for _, s := range ends[side].ListStreams() {
				if i, ok := ids[s.StreamID()]; ok && p.Opens[i].Short && !alive(-1) {
					continue // maybe not over yet
				}
				got = append(got, s.StreamID())
			}
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			if fmt.Sprint(got) != fmt.Sprint(want) {
				c.Fail("ListStreams at the %s %s gives %v, the streams are %v", sideName(side == 1), when, got, want)
			}
		}
	}
	if !c.Failed() {
		list("with all open", func(i int) bool { return i >= 0 })
	}
	// the early data is there, on its own stream
	g := newGroup(c)
	for i, o := range p.Opens {
		if opened[i] == nil || peerOf[i] == nil {
			continue
		}
		ps := peerOf[i]
		if o.Early > 0 {
			g.Go(fmt.Sprintf("reading what was written at once on stream %d", i), func() {
				b := make([]byte, 0, o.Early)
				buf := make([]byte, 1500)
				for len(b) < o.Early {
					n, err := ps.Read(buf)
					b = append(b, buf[:n]...)
					if err != nil {
						c.Fail("Read on stream %d: %v", i, err)
						return
					}
				}
				if !sameBytes(b, earlyOf(i)) {
					c.Fail("what was written at once on stream %d was read as something else", i)
				}
				if o.Short {
					if n, err := ps.Read(buf); n != 0 || err == nil {
						c.Fail("stream %d was closed, but Read gives %d bytes, %v", i, n, err)
					}
				}
			})
		}
		g.Go(fmt.Sprintf("receiving what was published at once on stream %d", i), func() {
			for k := 0; k < o.Msgs; k++ {
				m, err := ps.Receive(context.Background())
				if err != nil {
					c.Fail("Receive on stream %d: %v", i, err)
					return
				}
				if string(m.Data()) != fmt.Sprintf("m%d.%d", i, k) {
					c.Fail("message %d on stream %d is %q", k, i, m.Data())
				}
				m.Done()
			}
			if o.Short {
				if m, err := ps.Receive(context.Background()); err == nil {
					c.Fail("stream %d was closed, but Receive gives another message: %q", i, m.Data())
				}
				c.Label("closed at once")
			}
		})
		if o.Reg {
			g.Go(fmt.Sprintf("calling what was registered at once on stream %d", i), func() {
				rsp, err := ps.Call(context.Background(), fmt.Sprintf("r%d", i), ps.NewRequest([]byte("x")))
				if err != nil || string(rsp.Data()) != fmt.Sprintf("%d:x", i) {
					c.Fail("the call of what was registered at once on stream %d: %v, or another response", i, err)
				}
			})
		}
		if o.Early > 0 || o.Msgs > 0 || o.Reg {
			c.Label("early data")
		}
	}
	if !g.Wait(time.Second+p.Link.slack(len(p.Opens)*8000, len(p.Opens)*8)+4*p.Link.maxLat(), "what was sent at once on streams just opened") || c.Failed() {
		close(over)
		r.teardown()
		return
	}
	// closed streams vanish, the others stay
	any := false
	for i, o := range p.Opens {
		if o.Close != limNone || o.Short {
			any = true
			opened[i].Close()
		}
	}
	if any {
		time.Sleep(100*time.Millisecond + 8*p.Link.maxLat())
		list("with some closed", func(i int) bool { return i < 0 || p.Opens[i].Close == limNone })
		mu.Lock()
		for i, o := range p.Opens {
			n := closed[opened[i].StreamID()]
			if gone := o.Close != limNone || o.Short; n != b2i(gone) {
				c.Fail("ClosedStreamFunc was called %d times for stream %d (closed: %v)", n, i, gone)
			}
		}
		mu.Unlock()
		c.Label("closed some")
	}
	for i, o := range p.Opens {
		if o.Close == limNone && !o.Short {
			g.Go(fmt.Sprintf("Publish on stream %d, which is open", i), func() {
				go func() {
					m, err := opened[i].Receive(context.Background())
					if err == nil {
						m.Done()
					}
				}()
				if err := peerOf[i].Publish(context.Background(), peerOf[i].NewMessage([]byte("still"))); err != nil {
					c.Fail("Publish on stream %d, which is open: %v", i, err)
				}
			})
		}
	}
	g.Wait(time.Second+4*p.Link.maxLat(), "publishing on the streams still open")
	pace.Store(int64(p.Pace))
	// an end which opens streams, sends and closes is not done with: they are
	// accepted and give everything
	var tail []geminio.Stream
	from, to := ends[b2i(p.TSrv)], 1-b2i(p.TSrv)
	tdata := func(i int) []byte { return pattern(i*i*150, uint32(i+77)) }
	mu.Lock()
	had := len(acc[to])
	mu.Unlock()
	for i := 0; i < p.Tail && !c.Failed(); i++ {
		c.within(time.Second+6*p.Link.maxLat(), "OpenStream", func() {
			sm, err := from.OpenStream()
			if err != nil {
				c.Fail("OpenStream on a living connection: %v", err)
				return
			}
			tail = append(tail, sm)
		})
	}
	for i, sm := range tail {
		if n, err := sm.Write(tdata(i)); err != nil || n != len(tdata(i)) {
			c.Fail("Write on a stream just opened: %d, %v", n, err)
		}
		if _, err := sm.PublishAsync(context.Background(), sm.NewMessage([]byte("tail")), nil); err != nil {
			c.Fail("PublishAsync on a stream just opened: %v", err)
		}
	}
	close(over)
	if len(tail) > 0 && !c.Failed() {
		g.Go("Close of the end that opened streams", func() { from.Close() })
		time.Sleep(ms(p.Pace*(p.Tail+1)) + time.Second + p.Link.slack(p.Tail*8000, p.Tail*8) + 4*p.Link.maxLat())
		mu.Lock()
		got := acc[to][had:]
		mu.Unlock()
		if len(got) != len(tail) {
			c.Fail("%d streams were opened before the %s closed, but %d were accepted", len(tail), sideName(p.TSrv), len(got))
		}
		for _, ps := range got {
			i := slices.IndexFunc(tail, func(sm geminio.Stream) bool { return sm.StreamID() == ps.sm.StreamID() })
			if i < 0 {
				c.Fail("the %s accepted a stream with ID %d that the other side did not open", sideName(!p.TSrv), ps.sm.StreamID())
				continue
			}
			g.Go("what was sent on a stream before its end closed", func() {
				b, err := io.ReadAll(ps.sm)
				if err != nil || !sameBytes(b, tdata(i)) {
					c.Fail("Read of what was written before the end was closed gave %d of %d bytes, or others, %v", len(b), len(tdata(i)), err)
				}
				m, err := ps.sm.Receive(context.Background())
				if err != nil || string(m.Data()) != "tail" {
					c.Fail("Receive of what was published before the end was closed: %v, or another message", err)
				}
				if _, err = ps.sm.Receive(context.Background()); err == nil {
					c.Fail("Receive on a stream of a closed end gave another message")
				}
				c.Label("end closed at once")
			})
		}
		g.Wait(30*time.Second, "what was sent before the end was closed")
	}
	r.teardown()
	accs.Wait(20*time.Second, "AcceptStream, both ends were closed")
	both := [2]bool{}
	for _, o := range p.Opens {
		both[b2i(o.Srv)] = true
	}
	if both[0] && both[1] || len(p.Opens) > 3 {
		c.NonTrivial()
	}
	if p.Func {
		c.Label("AcceptStreamFunc")
	}
}

func init() {
	register(&Prop{
		ID:     "C15",
		Rule:   "up to 24 streams opened from both sides, at once or spread in time, with generated meta and peer, sent to as soon as they are open and accepted late, by several goroutines, Accept, or AcceptStreamFunc; some closed afterwards; non-trivial: streams from both sides, or more than three",
		Gen:    genSt,
		Run:    runSt,
		Bubble: true,
		Quick:  1500, Thorough: 30000, QuickS: 25, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest", "fewer than 32 streams wait to be accepted"},
	})
}
