package gv

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"pgregory.net/rapid"
)

// A load is a generated mix of messages, RPCs and raw bytes over the streams of
// one connection, together with the bookkeeping that judges it: what was sent,
// what arrived where, what was answered, and how each operation completed.

const (
	kPublish = iota
	kPublishAsync
	kAtMostOnce
	kCall
	kCallAsync
	kRaw
)

var kindNames = []string{"Publish", "PublishAsync", "at-most-once Publish", "Call", "CallAsync", "Write"}

// op is one operation of an actor.
type op struct {
	A      int    // actor
	K      int    // kind
	N      int    // payload bytes
	C      int    `json:",omitempty"` // custom bytes
	Gap    int    `json:",omitempty"` // ms before
	Delay  int    `json:",omitempty"` // ms the other side takes to answer
	Bad    bool   `json:",omitempty"` // answered with an error
	Apart  bool   `json:",omitempty"` // answered from another goroutine
	NoAns  bool   `json:",omitempty"` // never answered (messages only)
	Shared bool   `json:",omitempty"` // completion through the actor's shared channel
	Unk    bool   `json:",omitempty"` // calls a method nobody registered
	Limit  int    `json:",omitempty"` // ms: time limit of the operation (0: none)
	LimBy  int    `json:",omitempty"` // 0: context deadline, 1: timeout option
	Topic  string `json:",omitempty"`
	Back   int    `json:",omitempty"` // the handler itself calls back so many times
	Next   bool   `json:",omitempty"` // the handler waits for the actor's next call to arrive
	X      int    `json:",omitempty"` // so many more of the same at once
}

// actor runs its operations one after the other on one end of one stream.
type actor struct {
	S   int  // stream
	Srv bool `json:",omitempty"`
}

type trafficPlan struct {
	Actors []actor
	Ops    []op
	Hij    int `json:",omitempty"` // calls are served by hijacking: 1 by pattern, 2 all
	Rep    int `json:",omitempty"` // the whole list is done so many more times
}

// bursts tells whether some operation is done many times at once.
func (p trafficPlan) bursts() bool {
	for _, o := range p.Ops {
		if o.X > 0 {
			return true
		}
	}
	return false
}

func (p trafficPlan) expand() trafficPlan {
	out := trafficPlan{Actors: p.Actors, Hij: p.Hij}
	for i := 0; i <= p.Rep; i++ {
		for _, o := range p.Ops {
			x := o.X
			o.X = 0
			out.Ops = append(out.Ops, o)
			for o.Gap = 0; x > 0; x-- {
				out.Ops = append(out.Ops, o)
			}
		}
	}
	return out
}

type loadShape struct {
	streams            int
	maxActors, maxOps  int
	maxN               int
	kinds              []int
	maxGap, maxDelay   int
	noAns, bad, limits bool
	unk                bool
	nested             bool // handlers that call back, or wait for other calls
	mult               int  // how many of the same at once
	multC              int  // in one of so many plans
}

func genLoad(t *rapid.T, s loadShape) trafficPlan {
	var p trafficPlan
	p.Actors = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) actor {
		return actor{S: rapid.IntRange(0, s.streams-1).Draw(t, "s"), Srv: rapid.Bool().Draw(t, "srv")}
	}), 1, s.maxActors).Draw(t, "actors")
	burst := rapid.IntRange(0, 2).Draw(t, "burst") > 0
	if s.nested && rapid.IntRange(0, 3).Draw(t, "hijC") == 0 {
		p.Hij = rapid.IntRange(1, 2).Draw(t, "hij")
	}
	multC := 20
	if s.multC > 0 {
		multC = s.multC
	}
	mult := s.mult > 0 && rapid.IntRange(0, multC-1).Draw(t, "multC") == 0
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) op {
		o := op{
			A:      rapid.IntRange(0, len(p.Actors)-1).Draw(t, "a"),
			K:      rapid.SampledFrom(s.kinds).Draw(t, "k"),
			N:      genLen(t, s.maxN, "n"),
			Apart:  rapid.Bool().Draw(t, "apart"),
			Shared: rapid.Bool().Draw(t, "shared"),
		}
		if rapid.IntRange(0, 2).Draw(t, "cC") == 0 {
			o.C = rapid.IntRange(0, 60).Draw(t, "c")
		}
		if !burst && s.maxGap > 0 && rapid.IntRange(0, 2).Draw(t, "gapC") == 0 {
			o.Gap = rapid.IntRange(0, s.maxGap).Draw(t, "gap")
		}
		if s.maxDelay > 0 && rapid.IntRange(0, 3).Draw(t, "delayC") == 0 {
			o.Delay = rapid.IntRange(0, s.maxDelay).Draw(t, "delay")
		}
		if s.bad && rapid.IntRange(0, 3).Draw(t, "badC") == 0 {
			o.Bad = true
		}
		if s.noAns && o.K <= kPublishAsync && rapid.IntRange(0, 3).Draw(t, "noansC") == 0 {
			o.NoAns = true
		}
		if s.unk && (o.K == kCall || o.K == kCallAsync) && rapid.IntRange(0, 4).Draw(t, "unkC") == 0 {
			o.Unk = true
		}
		if s.nested && (o.K == kCall || o.K == kCallAsync) && !o.Unk {
			if rapid.IntRange(0, 3).Draw(t, "backC") == 0 {
				o.Back = rapid.IntRange(1, 3).Draw(t, "back")
			}
			o.Next = o.K == kCallAsync && rapid.IntRange(0, 3).Draw(t, "next") == 0
		}
		if s.limits && o.K != kRaw && o.K != kAtMostOnce && rapid.IntRange(0, 2).Draw(t, "limC") == 0 {
			o.Limit = rapid.IntRange(1, 8000).Draw(t, "limit")
			o.LimBy = rapid.IntRange(0, 1).Draw(t, "limby")
		}
		if mult && rapid.IntRange(0, 2).Draw(t, "x") == 0 && (o.K == kPublishAsync || o.K == kAtMostOnce || o.K == kCallAsync || o.K == kRaw) {
			o.X = rapid.IntRange(1, s.mult).Draw(t, "xn")
			o.N = min(o.N, 200)
			if o.K != kCallAsync {
				// the receiver does not hold up the connection
				o.Delay = 0
			}
		}
		return o
	}), genMin(t, s.maxOps, "ops"), s.maxOps).Draw(t, "ops")
	return p
}

func (p trafficPlan) bytes() int {
	n := 0
	for _, o := range p.Ops {
		n += 300 + (o.N+o.C)*3
	}
	return n
}

func (p trafficPlan) time() time.Duration {
	d := time.Duration(0)
	for _, o := range p.Ops {
		d += ms(o.Gap) + ms(o.Delay) + ms(o.Limit)
	}
	return d
}

// opState is what is known about one operation.
type opState struct {
	op
	i int
	// next is the next call of the actor which a handler gets, arr is closed when
	// this one arrives there
	next *opState
	arr  chan struct{}
	once sync.Once

	mu        sync.Mutex
	id        uint64
	started   time.Time
	returned  bool
	retErr    error
	delivered int
	answered  bool
	ansErr    error // what the answer call itself returned
	completed int
	err       error
	compAt    time.Time
	async     any // *geminio.Publish or *geminio.Call
}

// rawDir is the byte stream from one side of one stream to the other.
type rawDir struct {
	mu     sync.Mutex // one writer at a time, in recorded order
	xmu    sync.Mutex
	sent   []byte // everything handed to Write, in order
	sureN  int    // bytes of successful Writes
	dead   bool   // a Write failed: no more writes
	got    int
	eof    error
	stuckN int
}

type load struct {
	c     *Case
	p     trafficPlan
	pairs [][2]geminio.Stream
	ops   []*opState
	raw   [][2]*rawDir // [stream][from side]
	// lastMsg is the last delivered message of an actor
	mu      sync.Mutex
	lastMsg map[int]int
	// faulty: the connection or the streams may go away; errors are legitimate
	faulty atomic.Bool
	// bad streams may go away while the connection stays healthy
	bad []atomic.Bool

	ctx    context.Context
	cancel context.CancelFunc
	recv   []*group // receivers, by stream
	ans    *group   // answers apart
	acts   *group   // actors
	comp   *group   // completions
	// stall, if set, is consulted before each receive
	stall  func(stream int, server bool) time.Duration
	strays []func() int
	bufs   []int // read buffer sizes, cycled
}

const (
	echoMethod = "gv/echo"
	backMethod = "gv/back"
	noMethod   = "gv/none"
)

func (o *opState) method() string {
	if o.Unk {
		return noMethod
	}
	return echoMethod
}

func newLoad(c *Case, p trafficPlan, pairs [][2]geminio.Stream, faulty bool) *load {
	l := &load{c: c, p: p, pairs: pairs, lastMsg: map[int]int{},
		ans: newGroup(c), acts: newGroup(c), comp: newGroup(c)}
	l.faulty.Store(faulty)
	l.ctx, l.cancel = context.WithCancel(context.Background())
	for i, o := range p.Ops {
		l.ops = append(l.ops, &opState{op: o, i: i, arr: make(chan struct{})})
	}
	last := map[int]*opState{}
	for i := len(l.ops) - 1; i >= 0; i-- {
		if o := l.ops[i]; (o.K == kCall || o.K == kCallAsync) && !o.Unk {
			o.next = last[o.A]
			last[o.A] = o
		}
	}
	l.bad = make([]atomic.Bool, len(pairs))
	for range pairs {
		l.recv = append(l.recv, newGroup(c))
		l.raw = append(l.raw, [2]*rawDir{{}, {}})
	}
	return l
}

func (l *load) healthy(si int) bool { return !l.faulty.Load() && !l.bad[si].Load() }

func (o *opState) payload() []byte {
	b := make([]byte, 8, 8+o.N)
	binary.BigEndian.PutUint32(b, uint32(o.i))
	binary.BigEndian.PutUint32(b[4:], 0xC0DEFACE)
	return append(b, pattern(o.N, uint32(o.i)+77)...)
}

func (o *opState) custom() []byte {
	if o.C == 0 {
		return nil
	}
	return pattern(o.C, uint32(o.i)+1000003)
}

func (o *opState) errText() string { return fmt.Sprintf("refused %d", o.i) }

func (l *load) find(b []byte) *opState {
	if len(b) < 8 || binary.BigEndian.Uint32(b[4:]) != 0xC0DEFACE {
		return nil
	}
	i := int(binary.BigEndian.Uint32(b))
	if i >= len(l.ops) {
		return nil
	}
	return l.ops[i]
}

// arrived checks an arriving payload and returns its operation.
func (l *load) arrived(what string, si int, server bool, data, custom []byte, kinds ...int) *opState {
	o := l.find(data)
	if o == nil {
		l.c.Fail("stream %d at the %s got a %s nobody sent: %d bytes", si, sideName(server), what, len(data))
		return nil
	}
	ok := false
	for _, k := range kinds {
		ok = ok || o.K == k
	}
	if !ok {
		l.c.Fail("op %d, a %s, arrived as a %s", o.i, kindNames[o.K], what)
		return nil
	}
	a := l.p.Actors[o.A]
	if a.S != si || a.Srv == server {
		l.c.Fail("%s of op %d, sent on stream %d from the %s, arrived on stream %d at the %s", what, o.i, a.S, sideName(a.Srv), si, sideName(server))
		return nil
	}
	if !sameBytes(data, o.payload()) {
		l.c.Fail("%s of op %d arrived with other data (%d bytes, sent %d)", what, o.i, len(data), o.N+8)
	}
	if !sameBytes(custom, o.custom()) {
		l.c.Fail("%s of op %d arrived with other custom data (%d bytes, sent %d)", what, o.i, len(custom), o.C)
	}
	o.mu.Lock()
	o.delivered++
	n := o.delivered
	o.mu.Unlock()
	if n > 1 {
		l.c.Fail("%s of op %d was delivered %d times", what, o.i, n)
	}
	return o
}

// serve starts the receivers of both sides of every stream. It registers the
// RPC, which needs the connection to be healthy unless the load is faulty.
func (l *load) serve() bool {
	needRPC, needBack := map[[2]int]bool{}, map[[2]int]bool{}
	for _, o := range l.ops {
		if (o.K == kCall || o.K == kCallAsync) && !o.Unk {
			a := l.p.Actors[o.A]
			needRPC[[2]int{a.S, b2i(!a.Srv)}] = true
			if o.Back > 0 {
				needBack[[2]int{a.S, b2i(a.Srv)}] = true
			}
		}
	}
	ok := true
	reg := newGroup(l.c)
	for si := range l.pairs {
		for side := 0; side < 2; side++ {
			si, side := si, side
			sm := l.pairs[si][side]
			if needRPC[[2]int{si, side}] {
				reg.Go(fmt.Sprintf("Register on stream %d at the %s", si, sideName(side == 1)), func() {
					h := l.handler(si, side == 1, sm)
					if l.p.Hij > 0 {
						hijack := func(ctx context.Context, method string, req geminio.Request, rsp geminio.Response) {
							switch method {
							case echoMethod:
								h(ctx, req, rsp)
							case backMethod:
								l.back(ctx, req, rsp)
							default:
								rsp.SetError(errors.New("no such rpc: " + method))
							}
						}
						var ho []*options.HijackOptions
						if l.p.Hij == 1 {
							o := options.Hijack()
							o.SetMatch(true, "^"+echoMethod+"$")
							ho = append(ho, o)
						}
						if err := sm.Hijack(hijack, ho...); err != nil {
							l.c.Fail("Hijack on stream %d at the %s: %v", si, sideName(side == 1), err)
						}
						return
					}
					if err := sm.Register(context.Background(), echoMethod, h); err != nil {
						ok = false
						if l.healthy(si) {
							l.c.Fail("Register on stream %d at the %s over a healthy connection: %v", si, sideName(side == 1), err)
						}
					}
				})
			}
			if needBack[[2]int{si, side}] {
				reg.Go(fmt.Sprintf("Register on stream %d at the %s", si, sideName(side == 1)), func() {
					if err := sm.Register(context.Background(), backMethod, l.back); err != nil {
						ok = false
						if l.healthy(si) {
							l.c.Fail("Register on stream %d at the %s over a healthy connection: %v", si, sideName(side == 1), err)
						}
					}
				})
			}
			l.recv[si].Go(fmt.Sprintf("Receive on stream %d at the %s", si, sideName(side == 1)), func() { l.receive(si, side == 1, sm) })
			l.recv[si].Go(fmt.Sprintf("Read on stream %d at the %s", si, sideName(side == 1)), func() { l.read(si, side == 1, sm) })
		}
	}
	if !reg.Wait(60*time.Second, "registering RPCs") {
		return false
	}
	return ok
}

func (l *load) back(_ context.Context, req geminio.Request, rsp geminio.Response) {
	rsp.SetData(append([]byte("back:"), req.Data()...))
}

func (l *load) handler(si int, server bool, sm geminio.Stream) geminio.RPC {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		o := l.arrived("request", si, server, req.Data(), req.Custom(), kCall, kCallAsync)
		if o == nil {
			return
		}
		if req.Method() != echoMethod || req.StreamID() != sm.StreamID() || req.ClientID() != sm.ClientID() {
			l.c.Fail("request of op %d arrived as %q of client/stream %d/%d on stream %d/%d", o.i, req.Method(), req.ClientID(), req.StreamID(), sm.ClientID(), sm.StreamID())
		}
		o.once.Do(func() { close(o.arr) })
		if o.Delay > 0 {
			t := time.NewTimer(ms(o.Delay))
			select {
			case <-t.C:
			case <-l.ctx.Done():
			}
			t.Stop()
		}
		for k := 0; k < o.Back; k++ {
			data := fmt.Sprintf("%d of %d", k, o.i)
			back, err := sm.Call(l.ctx, backMethod, sm.NewRequest([]byte(data)))
			if err == nil && string(back.Data()) != "back:"+data {
				l.c.Fail("a call from within the handler of op %d got another response: %q", o.i, trunc(string(back.Data()), 60))
			}
			if err != nil && l.ctx.Err() == nil && l.healthy(si) {
				l.c.Fail("a call from within the handler of op %d failed on a healthy connection: %v", o.i, err)
			}
			l.c.Label("called back")
		}
		if o.Next && o.next != nil {
			select {
			case <-o.next.arr:
				l.c.Label("waited for the next call")
			case <-l.ctx.Done():
			}
		}
		o.mu.Lock()
		o.answered = true
		o.mu.Unlock()
		if o.Bad {
			rsp.SetError(errors.New(o.errText()))
			return
		}
		rsp.SetData(append([]byte("re:"), req.Data()...))
		if o.C > 0 {
			rsp.SetCustom(append([]byte("rc:"), req.Custom()...))
		}
	}
}

func (l *load) pause(si int, server bool) {
	if l.stall != nil {
		if d := l.stall(si, server); d > 0 {
			time.Sleep(d)
		}
	}
}

func (l *load) receive(si int, server bool, sm geminio.Stream) {
	for {
		l.pause(si, server)
		m, err := sm.Receive(l.ctx)
		if err != nil {
			if l.ctx.Err() == nil && l.healthy(si) {
				l.c.Fail("Receive on stream %d at the %s failed on a healthy connection: %v", si, sideName(server), err)
			}
			return
		}
		o := l.arrived("message", si, server, m.Data(), m.Custom(), kPublish, kPublishAsync, kAtMostOnce)
		if o == nil {
			continue
		}
		l.mu.Lock()
		if last, seen := l.lastMsg[o.A]; seen && last > o.i {
			l.c.Fail("messages of one publisher arrived out of order: op %d after op %d", o.i, last)
		}
		l.lastMsg[o.A] = o.i
		l.mu.Unlock()
		if m.Topic() != o.Topic {
			l.c.Fail("message of op %d arrived with topic %q, sent with %q", o.i, m.Topic(), o.Topic)
		}
		if o.NoAns {
			continue
		}
		answer := func() {
			if o.Delay > 0 {
				t := time.NewTimer(ms(o.Delay))
				select {
				case <-t.C:
				case <-l.ctx.Done():
				}
				t.Stop()
			}
			o.mu.Lock()
			o.answered = true
			o.mu.Unlock()
			var err error
			if o.Bad {
				err = m.Error(errors.New(o.errText()))
			} else {
				err = m.Done()
			}
			o.mu.Lock()
			o.ansErr = err
			o.mu.Unlock()
			if err != nil && l.healthy(si) {
				l.c.Fail("answering the message of op %d on a healthy connection: %v", o.i, err)
			}
		}
		if o.Apart {
			l.ans.Go(fmt.Sprintf("answer to op %d", o.i), answer)
		} else {
			answer()
		}
	}
}

func (l *load) read(si int, server bool, sm geminio.Stream) {
	d := l.raw[si][b2i(!server)]
	buf := make([]byte, 4096)
	for k := 0; ; k++ {
		l.pause(si, server)
		b := buf
		if len(l.bufs) > 0 {
			b = buf[:min(len(buf), max(1, l.bufs[k%len(l.bufs)]))]
		}
		n, err := sm.Read(b)
		if n > 0 {
			d.xmu.Lock()
			if d.got+n > len(d.sent) || !sameBytes(b[:n], d.sent[d.got:d.got+n]) {
				l.c.Fail("stream %d at the %s read bytes that were not written there next: at offset %d of %d written, %d bytes", si, sideName(server), d.got, len(d.sent), n)
			}
			d.got += n
			d.xmu.Unlock()
			for i := range b[:n] {
				b[i] = 0xDD
			}
		}
		if err != nil {
			d.xmu.Lock()
			d.eof = err
			d.xmu.Unlock()
			if l.ctx.Err() == nil && l.healthy(si) {
				l.c.Fail("Read on stream %d at the %s failed on a healthy connection: %v", si, sideName(server), err)
			}
			return
		}
	}
}

func (l *load) limit(o *opState) (context.Context, context.CancelFunc, time.Duration) {
	if o.Limit > 0 && o.LimBy == 0 {
		ctx, cancel := context.WithTimeout(context.Background(), ms(o.Limit))
		return ctx, cancel, 0
	}
	return context.Background(), func() {}, ms(o.Limit)
}

// run starts the actors.
func (l *load) run() {
	for ai := range l.p.Actors {
		ai := ai
		a := l.p.Actors[ai]
		sm := l.pairs[a.S][b2i(a.Srv)]
		var mine []*opState
		nAsync := 0
		for _, o := range l.ops {
			if o.A == ai {
				mine = append(mine, o)
				nAsync++
			}
		}
		pubs := make(chan *geminio.Publish, 2*nAsync)
		calls := make(chan *geminio.Call, 2*nAsync)
		type reg struct {
			p *geminio.Publish
			c *geminio.Call
			o *opState
		}
		var regMu sync.Mutex
		regs := map[any]*opState{}
		settle := func(k any, done func(o *opState)) {
			// the completion may come before the call has returned
			for i := 0; ; i++ {
				regMu.Lock()
				o := regs[k]
				regMu.Unlock()
				if o != nil {
					done(o)
					return
				}
				if i > 100 {
					l.c.Fail("a completion for an operation that was never returned")
					return
				}
				time.Sleep(10 * time.Millisecond)
			}
		}
		l.acts.Go(fmt.Sprintf("actor %d", ai), func() {
			shared := 0
			for _, o := range mine {
				time.Sleep(ms(o.Gap))
				o.mu.Lock()
				o.started = time.Now()
				o.mu.Unlock()
				ctx, cancel, timeout := l.limit(o)
				switch o.K {
				case kPublish, kPublishAsync, kAtMostOnce:
					mo := options.NewMessage()
					if o.K == kAtMostOnce {
						mo.SetCnss(options.CnssAtMostOnce)
					}
					if o.C > 0 {
						mo.SetCustom(o.custom())
					}
					if o.Topic != "" {
						mo.SetTopic(o.Topic)
					}
					m := sm.NewMessage(o.payload(), mo)
					po := []*options.PublishOptions{}
					if timeout > 0 {
						x := options.Publish()
						x.SetTimeout(timeout)
						po = append(po, x)
					}
					if o.K == kPublishAsync {
						var ch chan *geminio.Publish
						if o.Shared {
							ch = pubs
						} else if o.Apart {
							ch = make(chan *geminio.Publish, 2)
							l.stray(func() int { return len(ch) })
						}
						pb, err := sm.PublishAsync(ctx, m, ch, po...)
						o.ret(err)
						if err != nil {
							cancel()
							if l.healthy(a.S) {
								l.c.Fail("PublishAsync of op %d on a healthy connection: %v", o.i, err)
							}
							continue
						}
						if o.Shared {
							regMu.Lock()
							regs[pb] = o
							regMu.Unlock()
							shared++
							continue
						}
						l.comp.Go(fmt.Sprintf("completion of op %d", o.i), func() {
							defer cancel()
							l.pubDone(o, pb, <-pb.Done)
						})
						continue
					}
					err := sm.Publish(ctx, m, po...)
					cancel()
					o.ret(err)
					if o.K == kAtMostOnce {
						if err != nil && l.healthy(a.S) {
							l.c.Fail("at-most-once Publish of op %d on a healthy connection: %v", o.i, err)
						}
						continue
					}
					l.complete(o, err)
				case kCall, kCallAsync:
					ro := options.NewRequest()
					if o.C > 0 {
						ro.SetCustom(o.custom())
					}
					req := sm.NewRequest(o.payload(), ro)
					o.id = req.ID()
					copts := []*options.CallOptions{}
					if timeout > 0 {
						x := options.Call()
						x.SetTimeout(timeout)
						copts = append(copts, x)
					}
					if o.K == kCallAsync {
						var ch chan *geminio.Call
						if o.Shared {
							ch = calls
						} else if o.Apart {
							ch = make(chan *geminio.Call, 2)
							l.stray(func() int { return len(ch) })
						}
						cl, err := sm.CallAsync(ctx, o.method(), req, ch, copts...)
						o.ret(err)
						if err != nil {
							cancel()
							if l.healthy(a.S) {
								l.c.Fail("CallAsync of op %d on a healthy connection: %v", o.i, err)
							}
							continue
						}
						if o.Shared {
							regMu.Lock()
							regs[cl] = o
							regMu.Unlock()
							shared++
							continue
						}
						l.comp.Go(fmt.Sprintf("completion of op %d", o.i), func() {
							defer cancel()
							l.callDone(o, cl, <-cl.Done)
						})
						continue
					}
					rsp, err := sm.Call(ctx, o.method(), req, copts...)
					cancel()
					o.ret(err)
					if err == nil {
						l.response(o, rsp, sm)
					}
					l.complete(o, err)
				case kRaw:
					cancel()
					d := l.raw[a.S][b2i(a.Srv)]
					d.mu.Lock()
					if !d.dead {
						b := o.payload()
						d.xmu.Lock()
						d.sent = append(d.sent, b...)
						d.xmu.Unlock()
						n, err := sm.Write(b)
						// the caller may reuse the buffer at once
						for i := range b {
							b[i] = 0xEE
						}
						o.ret(err)
						if err != nil {
							d.dead = true
							if l.healthy(a.S) {
								l.c.Fail("Write of op %d on a healthy connection: %v", o.i, err)
							}
						} else {
							if n != len(b) {
								l.c.Fail("Write of op %d returned %d of %d bytes and no error", o.i, n, len(b))
							}
							d.xmu.Lock()
							d.sureN += n
							d.xmu.Unlock()
						}
					}
					d.mu.Unlock()
				}
			}
			if shared > 0 {
				// all shared completions of the actor, whichever kind
				l.comp.Go(fmt.Sprintf("%d shared completions of actor %d", shared, ai), func() {
					for i := 0; i < shared; i++ {
						select {
						case pb := <-pubs:
							settle(pb, func(o *opState) { l.pubDone(o, pb, pb) })
						case cl := <-calls:
							settle(cl, func(o *opState) { l.callDone(o, cl, cl) })
						}
					}
				})
				l.stray(func() int { return len(pubs) + len(calls) })
			}
		})
	}
}

// stray registers a count of completions nobody expects.
func (l *load) stray(f func() int) {
	l.mu.Lock()
	l.strays = append(l.strays, f)
	l.mu.Unlock()
}

func (o *opState) ret(err error) {
	o.mu.Lock()
	o.returned, o.retErr = true, err
	o.mu.Unlock()
}

func (l *load) pubDone(o *opState, want, got *geminio.Publish) {
	if want != got || got.Message == nil {
		l.c.Fail("the completion of op %d is not the Publish that PublishAsync returned", o.i)
	}
	l.complete(o, got.Error)
}

func (l *load) callDone(o *opState, want, got *geminio.Call) {
	if want != got || got.Method != o.method() || got.Request == nil {
		l.c.Fail("the completion of op %d is not the Call that CallAsync returned", o.i)
	}
	if got.Error == nil {
		a := l.p.Actors[o.A]
		l.response(o, got.Response, l.pairs[a.S][b2i(a.Srv)])
	}
	l.complete(o, got.Error)
}

func (l *load) response(o *opState, rsp geminio.Response, sm geminio.Stream) {
	if rsp == nil {
		l.c.Fail("op %d completed without an error and without a response", o.i)
		return
	}
	if rsp.Error() != nil {
		l.c.Fail("op %d: a successful response carries the error %v", o.i, rsp.Error())
	}
	if want := append([]byte("re:"), o.payload()...); !sameBytes(rsp.Data(), want) {
		l.c.Fail("op %d got a response that is not its own: %d bytes, want %d", o.i, len(rsp.Data()), len(want))
	}
	want := []byte(nil)
	if o.C > 0 {
		want = append([]byte("rc:"), o.custom()...)
	}
	if !sameBytes(rsp.Custom(), want) {
		l.c.Fail("op %d got a response with custom data of %d bytes, want %d", o.i, len(rsp.Custom()), len(want))
	}
	if rsp.Method() != echoMethod || rsp.StreamID() != sm.StreamID() || rsp.ClientID() != sm.ClientID() || rsp.ID() != o.id {
		l.c.Fail("op %d got a response of method %q, client/stream/ID %d/%d/%d, want %q %d/%d/%d", o.i, rsp.Method(), rsp.ClientID(), rsp.StreamID(), rsp.ID(), echoMethod, sm.ClientID(), sm.StreamID(), o.id)
	}
}

// complete judges the completion of an operation that is answered.
func (l *load) complete(o *opState, err error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.completed++
	if o.completed > 1 {
		l.c.Fail("op %d (%s) completed %d times", o.i, kindNames[o.K], o.completed)
		return
	}
	o.err, o.compAt = err, time.Now()
	switch {
	case o.Unk && err != nil && err.Error() == "no such rpc: "+noMethod:
	case err == nil:
		if !o.answered {
			l.c.Fail("op %d (%s) succeeded although the other side has not answered it", o.i, kindNames[o.K])
		} else if o.Bad {
			l.c.Fail("op %d (%s) succeeded although it was answered with an error", o.i, kindNames[o.K])
		}
	case err.Error() == o.errText():
		if !o.answered || !o.Bad {
			l.c.Fail("op %d (%s) failed with %q although it was not answered so", o.i, kindNames[o.K], err)
		}
	default:
		if l.healthy(l.p.Actors[o.A].S) && o.Limit == 0 {
			l.c.Fail("op %d (%s) failed on a healthy connection: %v", o.i, kindNames[o.K], err)
		}
	}
}

// finish waits until actors and completions are done.
func (l *load) finish(d time.Duration, why string) bool {
	return l.acts.Wait(d, why) && l.comp.Wait(d, why)
}

// arrivedAll waits until everything that was sent has arrived.
func (l *load) arrivedAll(d time.Duration) bool {
	end := time.Now().Add(d)
	for {
		miss := l.missing()
		if miss == "" {
			return true
		}
		if time.Now().After(end) {
			l.c.Fail("after %v on a healthy connection: %s", d, miss)
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (l *load) missing() string {
	for _, o := range l.ops {
		o.mu.Lock()
		miss := l.healthy(l.p.Actors[o.A].S) && o.K != kRaw && !o.Unk && o.returned && o.retErr == nil && o.delivered == 0 && o.Limit == 0
		o.mu.Unlock()
		if miss {
			return fmt.Sprintf("op %d (%s) has not arrived", o.i, kindNames[o.K])
		}
	}
	for si := range l.raw {
		if !l.healthy(si) {
			continue
		}
		for side, d := range l.raw[si] {
			d.xmu.Lock()
			n, m := d.got, len(d.sent)
			d.xmu.Unlock()
			if n < m {
				return fmt.Sprintf("stream %d: %d of %d bytes written at the %s have arrived", si, n, m, sideName(side == 1))
			}
		}
	}
	return ""
}

// stop ends the receivers. Reads end with their stream, so those are only waited
// for when closed is set.
func (l *load) stop(closed bool) {
	l.cancel()
	l.ans.Wait(time.Minute, "answering messages")
	if closed {
		for _, g := range l.recv {
			g.Wait(time.Minute, "Receive and Read after the streams were closed")
		}
	}
}

func (l *load) labels() {
	for _, f := range l.strays {
		if n := f(); n > 0 {
			l.c.Fail("%d completions more than operations", n)
		}
	}
	for _, o := range l.ops {
		l.c.Label("%s", kindNames[o.K])
		if o.completed > 0 {
			if o.err == nil {
				l.c.Label("completed ok")
			} else {
				l.c.Label("completed: %s", errClass(o.err))
			}
		}
	}
}

func errClass(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, io.EOF):
		return "EOF"
	case errors.Is(err, context.DeadlineExceeded), errors.Is(err, context.Canceled):
		return err.Error()
	}
	s := err.Error()
	if len(s) > 8 && s[:8] == "refused " {
		return "refused"
	}
	return trunc(s, 40)
}
