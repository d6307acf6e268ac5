package gv

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// A scenario is a load during which streams and ends are closed, streams are
// opened, or the connection breaks, at generated moments.

const (
	evCloseStream = iota
	evCloseEnd
	evCut
	evOpen
)

var evNames = []string{"close stream", "close end", "cut", "open stream"}

type scenEv struct {
	At  int // ms
	K   int
	Srv bool `json:",omitempty"`
	S   int  `json:",omitempty"`
	N   int  `json:",omitempty"` // once more, so many times, at the same moment
}

type planScen struct {
	Link   LinkPlan
	Opened []bool
	T      trafficPlan
	Ev     []scenEv
	Bufs   []int `json:",omitempty"`
	Stall  []int `json:",omitempty"`
	Func   bool  `json:",omitempty"` // the server uses AcceptStreamFunc
	Early  bool  `json:",omitempty"` // events may come before the streams are up
	Idle   int   `json:",omitempty"` // ms before all begins, so that a heartbeat comes in the middle of it
}

type scenShape struct {
	load     loadShape
	evs      []int
	maxEv    int
	maxAt    int
	cutBytes int // CutAfter range (0: none)
	rep      int
	early    bool
	parting  bool // closes right after bursts
}

func genScen(s scenShape) func(*rapid.T, bool) any {
	return func(t *rapid.T, thorough bool) any {
		p := planScen{Link: genLink(t, true)}
		ls := s.load
		p.Opened = rapid.SliceOfN(rapid.Bool(), 0, ls.streams-1).Draw(t, "opened")
		ls.streams = len(p.Opened) + 1
		if thorough {
			ls.maxOps *= 3
			ls.maxN *= 3
		}
		if s.rep > 0 && rapid.IntRange(0, 4).Draw(t, "repC") == 0 {
			p.T.Rep = rapid.IntRange(1, s.rep).Draw(t, "rep")
			ls.maxOps, ls.maxN, ls.maxGap, ls.maxDelay = 16, 2000, 0, 20
		} else if s.rep > 0 {
			ls.mult = maxMult / 2
			if s.parting {
				ls.multC = 6
			}
		}
		rep := p.T.Rep
		p.T = genLoad(t, ls)
		p.T.Rep = rep
		if s.cutBytes > 0 {
			cut := func(l string) int {
				if rapid.IntRange(0, 2).Draw(t, l+"C") == 0 {
					return rapid.IntRange(0, 200).Draw(t, l)
				}
				return rapid.IntRange(0, s.cutBytes).Draw(t, l)
			}
			switch rapid.IntRange(0, 2).Draw(t, "cutdir") {
			case 0:
				p.Link.C2S.CutAfter = cut("cutC")
			case 1:
				p.Link.S2C.CutAfter = cut("cutS")
			default:
				p.Link.C2S.CutAfter = cut("cutC")
				p.Link.S2C.CutAfter = cut("cutS")
			}
		}
		if len(s.evs) > 0 {
			maxAt := s.maxAt
			if rapid.Bool().Draw(t, "atOnce") {
				maxAt = 3
				if s.parting && p.T.bursts() {
					// what is queued does not pass at once
					for _, d := range []*DirPlan{&p.Link.C2S, &p.Link.S2C} {
						if rapid.Bool().Draw(t, "tight") {
							d.Window = rapid.IntRange(1000, 4000).Draw(t, "window")
							d.Lat = []int{rapid.IntRange(100, 1500).Draw(t, "lat")}
						}
					}
				}
			}
			p.Ev = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) scenEv {
				e := scenEv{
					At:  rapid.IntRange(0, maxAt).Draw(t, "at"),
					K:   rapid.SampledFrom(s.evs).Draw(t, "ev"),
					Srv: rapid.Bool().Draw(t, "evSrv"),
				}
				if e.K == evCloseStream {
					e.S = rapid.IntRange(0, len(p.Opened)).Draw(t, "evS")
				}
				if rapid.IntRange(0, 4).Draw(t, "evNC") == 0 {
					e.N = rapid.IntRange(1, 3).Draw(t, "evN")
				}
				return e
			}), 1, s.maxEv).Draw(t, "ev")
		}
		p.Bufs = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 20), rapid.IntRange(1, 4096)), 0, 4).Draw(t, "bufs")
		if rapid.IntRange(0, 3).Draw(t, "stallC") == 0 {
			p.Stall = rapid.SliceOfN(rapid.IntRange(0, 3000), 1, 4).Draw(t, "stall")
		}
		p.Func = rapid.IntRange(0, 2).Draw(t, "func") == 0
		if rapid.IntRange(0, 19).Draw(t, "idleC") == 0 {
			p.Idle = 20000 - rapid.IntRange(0, 3000).Draw(t, "idle")
		}
		if s.early {
			p.Early = rapid.IntRange(0, 3).Draw(t, "early") == 0
		}
		return p
	}
}

// rec records what a delegate was told.
type dlgEvent struct {
	What   string
	Client uint64
	Stream uint64
	Method string
	Meta   string
	At     time.Time
}

type rec struct {
	delegate.UnimplementedDelegate
	c     *Case
	mu    sync.Mutex
	evs   []dlgEvent
	getID func(wanted uint64, meta []byte) (uint64, error)
	on    func(delegate.ConnDescriber) error
	off   func(delegate.ConnDescriber) error
	re    func(delegate.ClientDescriber)
	reg   func(method string, clientID, streamID uint64)
}

func (r *rec) add(e dlgEvent) {
	e.At = time.Now()
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

func (r *rec) events(what string) []dlgEvent {
	r.mu.Lock()
	defer r.mu.Unlock()
	var out []dlgEvent
	for _, e := range r.evs {
		if what == "" || e.What == what {
			out = append(out, e)
		}
	}
	return out
}

func (r *rec) ConnOnline(d delegate.ConnDescriber) error {
	r.add(dlgEvent{What: "ConnOnline", Client: d.ClientID(), Meta: string(d.Meta())})
	if r.on != nil {
		return r.on(d)
	}
	return nil
}

func (r *rec) ConnOffline(d delegate.ConnDescriber) error {
	r.add(dlgEvent{What: "ConnOffline", Client: d.ClientID(), Meta: string(d.Meta())})
	if r.off != nil {
		return r.off(d)
	}
	return nil
}

func (r *rec) Heartbeat(d delegate.ConnDescriber) error {
	r.add(dlgEvent{What: "Heartbeat", Client: d.ClientID(), Meta: string(d.Meta())})
	return nil
}

func (r *rec) GetClientID(wanted uint64, meta []byte) (uint64, error) {
	r.add(dlgEvent{What: "GetClientID", Client: wanted, Meta: string(meta)})
	if r.getID != nil {
		return r.getID(wanted, meta)
	}
	return 0, nil
}

func (r *rec) DialogueOnline(d delegate.DialogueDescriber) error {
	r.add(dlgEvent{What: "DialogueOnline", Client: d.ClientID(), Stream: d.DialogueID(), Meta: string(d.Meta())})
	return nil
}

func (r *rec) DialogueOffline(d delegate.DialogueDescriber) error {
	r.add(dlgEvent{What: "DialogueOffline", Client: d.ClientID(), Stream: d.DialogueID(), Meta: string(d.Meta())})
	return nil
}

func (r *rec) EndReOnline(d delegate.ClientDescriber) {
	r.add(dlgEvent{What: "EndReOnline", Client: d.ClientID()})
	if r.re != nil {
		r.re(d)
	}
}

func (r *rec) RemoteRegistration(method string, clientID uint64, streamID uint64) {
	r.add(dlgEvent{What: "RemoteRegistration", Client: clientID, Stream: streamID, Method: method})
	if r.reg != nil {
		r.reg(method, clientID, streamID)
	}
}

// closeRec is one close of a stream.
type closeRec struct {
	S    int
	Srv  bool
	At   time.Time
	sure int        // raw bytes written before by the closer
	msgs []*opState // messages published before by the closer
}

type scen struct {
	c        *Case
	p        planScen
	r        *rig
	l        *load
	pairs    [][2]geminio.Stream
	ids      []uint64
	cli, srv *rec

	mu       sync.Mutex
	closes   []closeRec
	closed   [][2]bool // by stream and side
	ended    [2]bool
	accepted [2]map[uint64]geminio.Stream // by the accept loops, by side
	opened   [2]map[uint64]geminio.Stream // by evOpen, by opener
	fnClosed map[uint64]int               // ClosedStreamFunc
	fnMain   map[uint64]bool
	acc      *group
	evg      *group
	setup    chan geminio.Stream // streams accepted by the func while setting up
	upWait   bool
	deadline time.Duration
}

// doomed tells which streams will be closed by the plan.
func (p planScen) doomed() (all bool, streams map[int]bool) {
	streams = map[int]bool{}
	for _, e := range p.Ev {
		switch e.K {
		case evCloseEnd, evCut:
			all = true
		case evCloseStream:
			streams[e.S] = true
			// the default stream closes with its end
			all = all || e.S == 0
		}
	}
	return
}

func (p planScen) lastEv() time.Duration {
	m := 0
	for _, e := range p.Ev {
		m = max(m, e.At)
	}
	return ms(m)
}

// run makes the scenario happen. It gives nil if the ends did not come up.
func runScen(c *Case, p planScen) *scen {
	length := p.T.time() * time.Duration(p.T.Rep+1)
	p.T = p.T.expand()
	all, dead := p.doomed()
	byteCut := p.Link.C2S.CutAfter >= 0 || p.Link.S2C.CutAfter >= 0
	for i := range p.T.Ops {
		o := &p.T.Ops[i]
		if o.NoAns && o.Limit == 0 && !all && !dead[p.T.Actors[o.A].S] {
			o.Limit = 700
		}
	}
	s := &scen{c: c, p: p, acc: newGroup(c), evg: newGroup(c), fnClosed: map[uint64]int{}, fnMain: map[uint64]bool{}}
	s.cli, s.srv = &rec{c: c}, &rec{c: c}
	s.setup = make(chan geminio.Stream, 64)
	for i := range s.accepted {
		s.accepted[i] = map[uint64]geminio.Stream{}
		s.opened[i] = map[uint64]geminio.Stream{}
	}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetDelegate(cliRec{s.cli})
	so.SetDelegate(srvRec{s.srv})
	so.SetClosedStreamFunc(func(sm geminio.Stream) {
		s.mu.Lock()
		s.fnClosed[sm.StreamID()]++
		s.mu.Unlock()
	})
	if p.Func {
		so.SetAcceptStreamFunc(func(sm geminio.Stream) {
			s.mu.Lock()
			w := s.upWait
			if !w {
				s.accepted[1][sm.StreamID()] = sm
			}
			s.mu.Unlock()
			if w {
				s.setup <- sm
			}
		})
	}
	s.upWait = true
	s.r = dialRig(c, p.Link, co, so, !byteCut)
	if s.r == nil {
		return nil
	}
	if s.r.cerr != nil || s.r.serr != nil {
		c.Label("handshake cut")
		s.r.teardown()
		return s
	}
	s.pairs = [][2]geminio.Stream{{s.r.cli, s.r.srv}}
	for i, fs := range p.Opened {
		cs, ss, ok := s.openPair(fs, i, byteCut)
		if !ok {
			c.Label("open cut")
			s.r.teardown()
			return s
		}
		s.pairs = append(s.pairs, [2]geminio.Stream{cs, ss})
	}
	for _, pr := range s.pairs {
		s.ids = append(s.ids, pr[0].StreamID())
		s.closed = append(s.closed, [2]bool{})
		s.fnMain[pr[0].StreamID()] = true
	}
	s.mu.Lock()
	s.upWait = false
	s.mu.Unlock()
	if p.Idle > 0 {
		time.Sleep(ms(p.Idle))
		c.Label("heartbeat")
	}
	l := newLoad(c, p.T, s.pairs, byteCut)
	s.l = l
	l.bufs = p.Bufs
	stalled := map[[2]int]int{}
	l.stall = func(si int, server bool) time.Duration {
		l.mu.Lock()
		defer l.mu.Unlock()
		k := [2]int{si, b2i(server)}
		if stalled[k] >= 2 || si >= len(p.Stall) {
			return 0
		}
		stalled[k]++
		return ms(p.Stall[si])
	}
	for side := 0; side < 2; side++ {
		side := side
		if side == 1 && p.Func {
			continue
		}
		s.acc.Go("AcceptStream at the "+sideName(side == 1), func() {
			for {
				sm, err := s.r.end(side == 1).AcceptStream()
				if err != nil {
					s.mu.Lock()
					end := s.ended[0] || s.ended[1]
					s.mu.Unlock()
					if !end && !l.faulty.Load() && !l.bad[0].Load() {
						c.Fail("AcceptStream at the %s failed on a healthy connection: %v", sideName(side == 1), err)
					}
					return
				}
				s.mu.Lock()
				if _, dup := s.accepted[side][sm.StreamID()]; dup {
					c.Fail("stream %d was accepted twice at the %s", sm.StreamID(), sideName(side == 1))
				}
				s.accepted[side][sm.StreamID()] = sm
				s.mu.Unlock()
			}
		})
	}
	if !l.serve() && !byteCut {
		s.r.teardown()
		return s
	}
	// events in order of time, those of one moment at once
	for _, e := range p.Ev {
		e := e
		for k := 0; k <= e.N; k++ {
			s.evg.Go(evNames[e.K]+fmt.Sprintf(" %d by the %s", e.S, sideName(e.Srv)), func() {
				time.Sleep(ms(e.At))
				s.event(e)
			})
		}
	}
	l.run()
	s.deadline = 100*time.Second + p.lastEv() + length + p.Link.slack(p.T.bytes(), 8*len(p.T.Ops)+40)
	return s
}

// cliRec and srvRec give rec the method sets the two sides want.
type cliRec struct{ *rec }
type srvRec struct{ *rec }

func (s *scen) openPair(fromServer bool, i int, mayFail bool) (cs, ss geminio.Stream, ok bool) {
	type res struct {
		s   geminio.Stream
		err error
	}
	och, ach := make(chan res, 1), make(chan res, 1)
	go func() {
		o := options.OpenStream()
		o.SetMeta([]byte(fmt.Sprintf("stream-%d", i)))
		sm, err := s.r.end(fromServer).OpenStream(o)
		och <- res{sm, err}
	}()
	gone := make(chan struct{})
	defer close(gone)
	go func() {
		if !fromServer && s.p.Func {
			select {
			case sm := <-s.setup:
				ach <- res{sm, nil}
			case <-gone:
			}
			return
		}
		sm, err := s.r.end(!fromServer).AcceptStream()
		ach <- res{sm, err}
	}()
	t := time.NewTimer(60 * time.Second)
	defer t.Stop()
	var or, ar res
	gotO, gotA := false, false
	for !gotO || !gotA {
		select {
		case or = <-och:
			och, gotO = nil, true
		case ar = <-ach:
			ach, gotA = nil, true
		case <-t.C:
			if !gotO || !mayFail {
				s.c.Fail("opening a stream from the %s: OpenStream returned: %v, accepted: %v after 60 s", sideName(fromServer), gotO, gotA)
			}
			return nil, nil, false
		}
		if gotO && or.err != nil || gotA && ar.err != nil {
			if !mayFail {
				s.c.Fail("opening a stream from the %s over a healthy connection failed: %v %v", sideName(fromServer), or.err, ar.err)
			}
			return nil, nil, false
		}
	}
	if or.s.StreamID() != ar.s.StreamID() {
		s.c.Fail("the two sides of a stream disagree on its ID: opener %d, acceptor %d", or.s.StreamID(), ar.s.StreamID())
		return nil, nil, false
	}
	if fromServer {
		return ar.s, or.s, true
	}
	return or.s, ar.s, true
}

func (s *scen) event(e scenEv) {
	side := b2i(e.Srv)
	switch e.K {
	case evCloseStream:
		if e.S >= len(s.pairs) {
			return
		}
		if e.S == 0 {
			s.endClose(e.Srv)
			return
		}
		s.l.bad[e.S].Store(true)
		cr := closeRec{S: e.S, Srv: e.Srv, At: time.Now()}
		s.mu.Lock()
		first := !s.closed[e.S][side] && !s.ended[side]
		s.closed[e.S][side] = true
		if first {
			d := s.l.raw[e.S][side]
			d.xmu.Lock()
			cr.sure = d.sureN
			d.xmu.Unlock()
			cr.msgs = s.l.published(e.S, e.Srv)
			s.closes = append(s.closes, cr)
		}
		s.mu.Unlock()
		sm := s.pairs[e.S][side]
		if err := sm.Close(); err != nil {
			s.c.Fail("closing stream %d at the %s: %v", e.S, sideName(e.Srv), err)
		}
	case evCloseEnd:
		s.endClose(e.Srv)
	case evCut:
		s.l.faulty.Store(true)
		s.r.l.Cut()
	case evOpen:
		o := options.OpenStream()
		o.SetMeta([]byte("late"))
		sm, err := s.r.end(e.Srv).OpenStream(o)
		s.mu.Lock()
		defer s.mu.Unlock()
		if err == nil {
			if _, dup := s.opened[side][sm.StreamID()]; dup {
				s.c.Fail("stream %d was opened twice at the %s", sm.StreamID(), sideName(e.Srv))
			}
			s.opened[side][sm.StreamID()] = sm
		} else if !s.ended[0] && !s.ended[1] && !s.l.faulty.Load() {
			s.c.Fail("OpenStream at the %s failed on a healthy connection: %v", sideName(e.Srv), err)
		}
	}
}

func (s *scen) endClose(server bool) {
	s.l.faulty.Store(true)
	s.mu.Lock()
	first := !s.ended[0] && !s.ended[1]
	s.ended[b2i(server)] = true
	if first {
		for si := range s.pairs {
			if s.closed[si][b2i(server)] {
				// closed by this side before: what was accepted after that may be lost
				continue
			}
			d := s.l.raw[si][b2i(server)]
			d.xmu.Lock()
			s.closes = append(s.closes, closeRec{S: si, Srv: server, At: time.Now(), sure: d.sureN, msgs: s.l.published(si, server)})
			d.xmu.Unlock()
		}
	}
	s.mu.Unlock()
	if err := s.r.end(server).Close(); err != nil {
		s.c.Fail("Close of the %s end: %v", sideName(server), err)
	}
}

// published lists the messages that were handed over for good by now.
func (l *load) published(si int, server bool) []*opState {
	var out []*opState
	for _, o := range l.ops {
		a := l.p.Actors[o.A]
		if a.S != si || a.Srv != server || o.K != kPublishAsync && o.K != kAtMostOnce {
			continue
		}
		o.mu.Lock()
		if o.returned && o.retErr == nil {
			out = append(out, o)
		}
		o.mu.Unlock()
	}
	return out
}

// flushed checks that what was written before a close has arrived.
func (s *scen) flushed() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, cr := range s.closes {
		other := b2i(!cr.Srv)
		// the other side gave up the stream on its own: nothing is promised
		if s.closed[cr.S][other] || s.ended[other] {
			continue
		}
		d := s.l.raw[cr.S][b2i(cr.Srv)]
		d.xmu.Lock()
		got := d.got
		d.xmu.Unlock()
		if got < cr.sure {
			s.c.Fail("stream %d was closed at the %s after %d bytes were written, the other side read only %d", cr.S, sideName(cr.Srv), cr.sure, got)
		}
		for _, o := range cr.msgs {
			o.mu.Lock()
			n := o.delivered
			o.mu.Unlock()
			if n == 0 {
				s.c.Fail("stream %d was closed at the %s after op %d (%s) was accepted, but the message never arrived", cr.S, sideName(cr.Srv), o.i, kindNames[o.K])
			}
		}
		if len(cr.msgs) > 0 || cr.sure > 0 {
			s.c.Label("written before close")
		}
	}
}

// finishAll closes whatever is open and waits for everything that blocks.
func (s *scen) finishAll() {
	if s.l != nil {
		s.l.faulty.Store(true)
	}
	s.mu.Lock()
	s.ended = [2]bool{true, true}
	s.mu.Unlock()
	if s.l == nil {
		return
	}
	s.r.teardown()
	s.l.finish(60*time.Second, "operations after both ends were closed")
	for si, g := range s.l.recv {
		g.Wait(60*time.Second, fmt.Sprintf("Receive and Read on stream %d after both ends were closed", si))
	}
	s.acc.Wait(60*time.Second, "AcceptStream after both ends were closed")
	s.evg.Wait(60*time.Second, "events after both ends were closed")
	s.l.stop(true)
	s.l.labels()
}

// afterClose checks that a closed end refuses everything without blocking.
func (s *scen) afterClose() {
	if s.l == nil {
		return
	}
	g := newGroup(s.c)
	for side := 0; side < 2; side++ {
		e := s.r.end(side == 1)
		name := sideName(side == 1)
		refuse := func(what string, f func() error) {
			g.Go(what+" at the closed "+name, func() {
				if err := f(); err == nil {
					s.c.Fail("%s at the closed %s end succeeded", what, name)
				}
			})
		}
		for si := range s.pairs {
			sm := s.pairs[si][side]
			what := fmt.Sprintf(" on stream %d", si)
			refuse("Publish"+what, func() error { return sm.Publish(context.Background(), sm.NewMessage([]byte("x"))) })
			refuse("PublishAsync"+what, func() error {
				_, err := sm.PublishAsync(context.Background(), sm.NewMessage([]byte("x")), nil)
				return err
			})
			refuse("Call"+what, func() error {
				_, err := sm.Call(context.Background(), echoMethod, sm.NewRequest([]byte("x")))
				return err
			})
			refuse("CallAsync"+what, func() error {
				_, err := sm.CallAsync(context.Background(), echoMethod, sm.NewRequest([]byte("x")), nil)
				return err
			})
			refuse("Register"+what, func() error {
				return sm.Register(context.Background(), "late", func(context.Context, geminio.Request, geminio.Response) {})
			})
			refuse("Write"+what, func() error { _, err := sm.Write([]byte("x")); return err })
			refuse("Read"+what, func() error {
				b := make([]byte, 4096)
				for {
					if _, err := sm.Read(b); err != nil {
						return err
					}
				}
			})
			refuse("Receive"+what, func() error {
				for {
					if _, err := sm.Receive(context.Background()); err != nil {
						return err
					}
				}
			})
		}
		refuse("OpenStream", func() error { _, err := e.OpenStream(); return err })
		if side == 0 || !s.p.Func {
			refuse("AcceptStream", func() error {
				for {
					if _, err := e.AcceptStream(); err != nil {
						return err
					}
				}
			})
		}
		g.Go("Close again at the "+name, func() { e.Close() })
	}
	g.Wait(40*time.Second, "operations on closed ends")
	// a stream that was waiting to be accepted may have been accepted by the
	// loop above, and is listed until its reader has seen that it is closed
	time.Sleep(100 * time.Millisecond)
	for side := 0; side < 2; side++ {
		if n := len(s.r.end(side == 1).ListStreams()); n != 0 {
			s.c.Fail("ListStreams of the closed %s end still lists %d streams", sideName(side == 1), n)
		}
	}
}

// netClosed checks that both network connections were closed.
func (s *scen) netClosed() {
	for i, mc := range []*memConn{s.r.cconn, s.r.sconn} {
		mc.l.mu.Lock()
		cl := mc.closed
		mc.l.mu.Unlock()
		if !cl {
			s.c.Fail("the %s's net.Conn was never closed", sideName(i == 1))
		}
	}
}

// leftover names the goroutines of this bubble other than the caller that run
// library code.
func leftover() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	gs := strings.Split(string(buf), "\n\n")
	if len(gs) == 0 {
		return nil
	}
	tag := "" // those of all, if there is no bubble
	if i := strings.Index(gs[0], "synctest bubble "); i >= 0 {
		tag = gs[0][i:]
		tag = tag[:strings.IndexAny(tag, "],")]
	}
	var out []string
	for _, g := range gs[1:] {
		nl := strings.IndexByte(g, '\n')
		if nl < 0 || tag != "" && !strings.Contains(g[:nl], tag+"]") && !strings.Contains(g[:nl], tag+",") {
			continue
		}
		if !strings.Contains(g, "singchia/") && !strings.Contains(g, "jumboframes/") {
			continue
		}
		out = append(out, where(g))
	}
	sort.Strings(out)
	return out
}

// where is the topmost library frame of a goroutine.
func where(g string) string {
	for _, line := range strings.Split(g, "\n")[1:] {
		if strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "created by ") {
			continue
		}
		if strings.Contains(line, "singchia/") || strings.Contains(line, "jumboframes/") {
			if i := strings.LastIndex(line, "("); i > 0 {
				line = line[:i]
			}
			return line[strings.LastIndex(line, "/")+1:]
		}
	}
	return "?"
}

var errRefused = errors.New("gv: refused")
