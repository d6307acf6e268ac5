package gv

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// ---- C10: time limits, deadlines and cancellation ------------------------------

const (
	limCall = iota
	limCallAsync
	limPub
	limPubAsync
)

const limNone = -1000000 // no deadline, no cancellation

// limOp is one operation with limits; all times in ms.
type limOp struct {
	At  int
	K   int
	Srv bool `json:",omitempty"`
	St  int  `json:",omitempty"`
	TO  int  `json:",omitempty"` // timeout, 0: none
	Set bool `json:",omitempty"` // timeout set on the request or message itself, not by option
	DL  int  // deadline of the context from its start, limNone: none
	CA  int  // cancellation of the context from its start, limNone: none
	Ans int  `json:",omitempty"` // the answer comes after this time, <0: never
	Err bool `json:",omitempty"` // it is an error
	Ign bool `json:",omitempty"` // the handler does not care for its context
	N   int  `json:",omitempty"`
	Rep int  `json:",omitempty"` // done again, with the same message or request, so many times
}

type limStall struct {
	At, D int
	S2C   bool `json:",omitempty"`
}

type planLim struct {
	Link   LinkPlan
	Opened []bool
	Ops    []limOp
	Stalls []limStall
	Chop   int `json:",omitempty"` // receivers wait with a deadline of this many ms, 0: none
}

func genLimTime(t *rapid.T, label string) int {
	switch rapid.IntRange(0, 3).Draw(t, label+"C") {
	case 0:
		return rapid.IntRange(0, 60).Draw(t, label)
	case 1:
		return rapid.IntRange(0, 400).Draw(t, label)
	case 2:
		return rapid.IntRange(0, 3000).Draw(t, label)
	default:
		return 100 * rapid.IntRange(0, 20).Draw(t, label)
	}
}

func genLim(t *rapid.T, thorough bool) any {
	p := planLim{Link: genLink(t, false)}
	p.Opened = rapid.SliceOfN(rapid.Bool(), 0, 2).Draw(t, "opened")
	maxOps := 14
	if thorough {
		maxOps = 24
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) limOp {
		o := limOp{K: rapid.IntRange(limCall, limPubAsync).Draw(t, "k"), At: genLimTime(t, "at"), Srv: rapid.Bool().Draw(t, "srv"),
			St: rapid.IntRange(0, len(p.Opened)).Draw(t, "st"), DL: limNone, CA: limNone, N: genLen(t, 20000, "n")}
		lim := rapid.IntRange(0, 7).Draw(t, "lim")
		if lim == 0 || lim >= 4 && lim != 7 {
			o.TO = 1 + genLimTime(t, "to")
			o.Set = rapid.Bool().Draw(t, "set")
		}
		if lim == 1 || lim == 5 || lim == 6 {
			o.DL = genLimTime(t, "dl") - 5
		}
		if lim == 2 || lim == 6 {
			o.CA = genLimTime(t, "ca") - 5
		}
		switch rapid.IntRange(0, 5).Draw(t, "ansC") {
		case 0:
			o.Ans = -1
		case 1:
			// about when a limit passes
			o.Ans = max(0, max(o.TO, max(o.DL, o.CA))+rapid.IntRange(-40, 40).Draw(t, "near"))
		default:
			o.Ans = genLimTime(t, "ans")
		}
		o.Err = rapid.IntRange(0, 4).Draw(t, "err") == 0
		o.Ign = rapid.IntRange(0, 2).Draw(t, "ign") == 0
		if rapid.IntRange(0, 3).Draw(t, "repC") == 0 {
			o.Rep = rapid.IntRange(1, 2).Draw(t, "rep")
		}
		return o
	}), genMin(t, maxOps, "ops"), maxOps).Draw(t, "ops")
	p.Stalls = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) limStall {
		return limStall{At: genLimTime(t, "sat"), D: genLimTime(t, "sd"), S2C: rapid.Bool().Draw(t, "ss2c")}
	}), 0, 2).Draw(t, "stalls")
	if rapid.IntRange(0, 49).Draw(t, "longC") == 0 {
		k := rapid.IntRange(2, 25).Draw(t, "long")
		for i := range p.Ops {
			o := &p.Ops[i]
			o.TO *= k
			if o.Ans > 0 {
				o.Ans *= k
			}
			if o.DL > 0 {
				o.DL *= k
			}
			if o.CA > 0 {
				o.CA *= k
			}
		}
	}
	if rapid.IntRange(0, 2).Draw(t, "chopC") == 0 {
		p.Chop = rapid.IntRange(1, 500).Draw(t, "chop")
	}
	return p
}

// limRes is what happened to one operation.
type limRes struct {
	mu        sync.Mutex
	arrived   time.Time // at the handler or receiver, first
	answered  time.Time // the answer was handed over, first
	narr      int
	cancelled map[int]time.Time // attempts the caller cancelled
	began     []time.Time       // of the attempts
}

func (r *limRes) get() (arr, ans time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.arrived, r.answered
}

const (
	limEarly = 20 * time.Millisecond // the library's clock ticks every 10 ms
	limLate  = 35 * time.Millisecond
)

func runLim(c *Case, raw json.RawMessage) {
	p := decodePlan[planLim](raw)
	r := dialRig(c, p.Link, client.NewEndOptions(), server.NewEndOptions(), true)
	if r == nil {
		return
	}
	pairs, ok := r.pairs(p.Opened)
	if !ok {
		r.teardown()
		return
	}
	stalled := time.Duration(0)
	for _, s := range p.Stalls {
		stalled += ms(s.D)
	}
	// a packet arrives within this time of being written
	oneWay := p.Link.maxLat() + stalled + 5*time.Millisecond
	ends := make(chan struct{})
	res := make([]*limRes, len(p.Ops))
	for i := range res {
		res[i] = &limRes{}
	}
	starts := make([]time.Time, len(p.Ops))
	payload := func(i int) []byte {
		b := pattern(max(p.Ops[i].N, 8), uint32(i+1))
		binary.BigEndian.PutUint64(b, uint64(i))
		return b
	}
	which := func(data []byte, side string) int {
		if len(data) < 8 {
			c.Fail("data of %d bytes arrived at the %s that nobody sent", len(data), side)
			return -1
		}
		i := binary.BigEndian.Uint64(data)
		if i >= uint64(len(p.Ops)) || !sameBytes(data, payload(int(i))) {
			c.Fail("data arrived at the %s that nobody sent", side)
			return -1
		}
		return int(i)
	}
	// limits of operation i as its handler should see them
	dlOf := func(i, k int) (time.Time, bool) {
		o := p.Ops[i]
		var d time.Time
		if o.TO > 0 {
			res[i].mu.Lock()
			d = res[i].began[min(k, len(res[i].began)-1)].Add(ms(o.TO))
			res[i].mu.Unlock()
		}
		if o.DL != limNone {
			if x := starts[i].Add(ms(o.DL)); d.IsZero() || x.Before(d) {
				d = x
			}
		}
		return d, !d.IsZero()
	}
	// when the caller's context was cancelled, or it called with one that was
	caOf := func(i, k int) time.Time {
		at := starts[i].Add(ms(max(p.Ops[i].CA, 0)))
		res[i].mu.Lock()
		defer res[i].mu.Unlock()
		if b := res[i].began[min(k, len(res[i].began)-1)]; b.After(at) {
			at = b
		}
		return at
	}
	arrive := func(i int) {
		res[i].mu.Lock()
		defer res[i].mu.Unlock()
		if res[i].narr == 0 {
			res[i].arrived = time.Now()
		}
		res[i].narr++
		if res[i].narr > len(res[i].began) {
			c.Fail("operation %d was done %d times and arrived %d times", i, len(res[i].began), res[i].narr)
		}
	}
	answer := func(i int) {
		res[i].mu.Lock()
		defer res[i].mu.Unlock()
		if res[i].answered.IsZero() {
			res[i].answered = time.Now()
		}
	}
	errText := func(i int) string { return fmt.Sprintf("refused %d", i) }
	for si := range pairs {
		for side := 0; side < 2; side++ {
			side, si := side, si
			name := fmt.Sprintf("%s of stream %d", sideName(side == 1), si)
			h := func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
				i := which(req.Data(), name)
				if i < 0 {
					return
				}
				o := p.Ops[i]
				arrive(i)
				if len(req.Custom()) != 1 {
					c.Fail("the custom data of a request was lost")
					return
				}
				att := int(req.Custom()[0])
				now := time.Now()
				dl, has := dlOf(i, att)
				got, ghas := ctx.Deadline()
				if has != ghas || has && got.Sub(dl).Abs() > dlBlur {
					c.Fail("the context of the handler has deadline %v (%v after the call), expected %v (%v)", ghas, got.Sub(starts[i]), has, dl.Sub(starts[i]))
				}
				var ansCh <-chan time.Time
				if o.Ans >= 0 {
					ansCh = time.After(ms(o.Ans))
				}
				done := ctx.Done()
				if o.Ign {
					if ansCh == nil {
						ansCh = time.After(10 * time.Second)
					}
					done = nil
				}
				select {
				case <-ansCh:
				case <-ends:
				case <-done:
					// its limit must have passed
					at := time.Now()
					byDL := has && !at.Before(dl)
					byCA := o.CA != limNone && (o.K == limCall || o.K == limCallAsync) && !at.Before(caOf(i, att))
					switch {
					case byDL && ctx.Err() == context.DeadlineExceeded:
						if late := at.Sub(dl); late > dlBlur && at.Sub(now) > dlBlur {
							c.Fail("the context of the handler ended %v after its deadline", late)
						}
						c.Label("handler deadline")
					case byCA && ctx.Err() == context.Canceled:
						if late := at.Sub(caOf(i, att)); late > oneWay+dlBlur && at.Sub(now) > dlBlur {
							c.Fail("the context of the handler was cancelled %v after the caller cancelled its own", late)
						}
						c.Label("handler cancelled")
					default:
						c.Fail("the context of the handler ended (%v) %v after the call, before any limit of it (timeout %d, deadline %d, cancel %d ms)",
							ctx.Err(), at.Sub(starts[i]), o.TO, o.DL, o.CA)
					}
				}
				if err := ctx.Err(); o.Ign && err != nil {
					select {
					case <-ends:
					default:
						if !(err == context.DeadlineExceeded && has && !time.Now().Before(dl)) &&
							!(err == context.Canceled && o.CA != limNone && (o.K == limCall || o.K == limCallAsync) && !time.Now().Before(caOf(i, att))) {
							c.Fail("the context of the handler ended (%v) before any limit of it (timeout %d, deadline %d, cancel %d ms)", err, o.TO, o.DL, o.CA)
						}
					}
				}
				res[i].mu.Lock()
				cancelled, was := res[i].cancelled[att]
				res[i].mu.Unlock()
				if was && ctx.Err() == nil {
					select {
					case <-ends:
					default:
						if el := time.Since(cancelled); el > oneWay+limEarly {
							c.Fail("the caller cancelled its context, but that of the handler was not cancelled %v after it", el)
						}
					}
				}
				answer(i)
				if o.Err {
					rsp.SetError(errors.New(errText(i)))
				} else {
					rsp.SetData(req.Data())
				}
			}
			if err := pairs[si][side].Register(context.Background(), "op", h); err != nil {
				c.Fail("Register over a healthy connection: %v", err)
			}
			if err := pairs[si][side].Register(context.Background(), "echo", func(_ context.Context, req geminio.Request, rsp geminio.Response) { rsp.SetData(req.Data()) }); err != nil {
				c.Fail("Register over a healthy connection: %v", err)
			}
		}
	}
	rcv := newGroup(c)
	for si := range pairs {
		for side := 0; side < 2; side++ {
			sm, name := pairs[si][side], fmt.Sprintf("%s of stream %d", sideName(side == 1), si)
			rcv.Go("Receive at the "+name, func() {
				for {
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					from := time.Now()
					if p.Chop > 0 {
						ctx, cancel = context.WithTimeout(ctx, ms(p.Chop))
					}
					m, err := sm.Receive(ctx)
					cancel()
					if err == context.DeadlineExceeded && p.Chop > 0 {
						if el := time.Since(from) - ms(p.Chop); el < 0 || el > dlBlur {
							c.Fail("Receive with a deadline of %v returned %v after it", ms(p.Chop), el)
						}
						continue
					}
					if err != nil {
						select {
						case <-ends:
						default:
							c.Fail("Receive at the %s failed on a living connection: %v", name, err)
						}
						return
					}
					if m.Topic() == "after" {
						m.Done()
						continue
					}
					i := which(m.Data(), name)
					if i < 0 {
						continue
					}
					arrive(i)
					o := p.Ops[i]
					if o.Ans < 0 {
						continue
					}
					go func() {
						time.Sleep(ms(o.Ans))
						answer(i)
						if o.Err {
							m.Error(errors.New(errText(i)))
						} else {
							m.Done()
						}
					}()
				}
			})
		}
	}
	t0 := time.Now()
	for i, o := range p.Ops {
		starts[i] = t0.Add(ms(o.At))
	}
	for _, s := range p.Stalls {
		s := s
		go func() {
			time.Sleep(time.Until(t0.Add(ms(s.At))))
			r.l.Stall(b2i(s.S2C), ms(s.D))
		}()
	}
	ops := newGroup(c)
	for i, o := range p.Ops {
		i, o := i, o
		what := fmt.Sprintf("%s %d", []string{"Call", "CallAsync", "Publish", "PublishAsync"}[o.K], i)
		ops.Go(what, func() {
			time.Sleep(time.Until(starts[i]))
			sm := pairs[o.St%len(pairs)][b2i(o.Srv)]
			ctx, cancel := context.Background(), context.CancelFunc(func() {})
			if o.DL != limNone {
				ctx, cancel = context.WithDeadline(ctx, starts[i].Add(ms(o.DL)))
				defer cancel()
			}
			if o.CA != limNone {
				ctx, cancel = context.WithCancel(ctx)
				if o.CA <= 0 {
					cancel()
				} else {
					tm := time.AfterFunc(ms(o.CA), cancel)
					defer tm.Stop()
				}
			}
			var err error
			var data []byte
			rep := 0
			var m geminio.Message
			var began time.Time
			var req geminio.Request
		again:
			began = time.Now()
			res[i].mu.Lock()
			res[i].began = append(res[i].began, began)
			res[i].mu.Unlock()
			switch o.K {
			case limCall, limCallAsync:
				if req == nil {
					req = sm.NewRequest(payload(i))
				}
				req.SetCustom([]byte{byte(rep)})
				var opts []*options.CallOptions
				if o.TO > 0 {
					if o.Set {
						req.SetTimeout(ms(o.TO))
					} else {
						co := options.Call()
						co.SetTimeout(ms(o.TO))
						opts = append(opts, co)
					}
				}
				var rsp geminio.Response
				if o.K == limCall {
					rsp, err = sm.Call(ctx, "op", req, opts...)
				} else {
					var cl *geminio.Call
					cl, err = sm.CallAsync(ctx, "op", req, nil, opts...)
					if err != nil {
						c.Fail("%s failed at once on a living connection: %v", what, err)
						return
					}
					cl = <-cl.Done
					rsp, err = cl.Response, cl.Error
				}
				if err == nil {
					data = rsp.Data()
				}
			default:
				if m == nil {
					m = sm.NewMessage(payload(i))
				}
				data = payload(i)
				var opts []*options.PublishOptions
				if o.TO > 0 {
					if o.Set {
						m.SetTimeout(ms(o.TO))
					} else {
						po := options.Publish()
						po.SetTimeout(ms(o.TO))
						opts = append(opts, po)
					}
				}
				if o.K == limPub {
					err = sm.Publish(ctx, m, opts...)
				} else {
					var pb *geminio.Publish
					pb, err = sm.PublishAsync(ctx, m, nil, opts...)
					if err != nil {
						c.Fail("%s failed at once on a living connection: %v", what, err)
						return
					}
					err = (<-pb.Done).Error
				}
			}
			at := time.Now()
			c.Trace("%s: %v %v after its start", what, err, at.Sub(began))
			if err == context.Canceled {
				res[i].mu.Lock()
				if res[i].cancelled == nil {
					res[i].cancelled = map[int]time.Time{}
				}
				res[i].cancelled[rep] = at
				res[i].mu.Unlock()
			}
			// the limits of this attempt
			type limit struct {
				at   time.Time
				errs []string
			}
			var lims []limit
			if o.TO > 0 {
				lims = append(lims, limit{began.Add(ms(o.TO)), []string{"timeout"}})
			}
			if o.DL != limNone {
				lims = append(lims, limit{starts[i].Add(ms(o.DL)), []string{context.DeadlineExceeded.Error()}})
			}
			if o.CA != limNone {
				lims = append(lims, limit{starts[i].Add(ms(max(o.CA, 0))), []string{context.Canceled.Error()}})
			}
			for k := range lims {
				if lims[k].at.Before(began) {
					lims[k].at = began
				}
			}
			ending := false
			select {
			case <-ends:
				ending = true
			default:
			}
			_, answered := res[i].get()
			for _, l := range lims {
				if late := at.Sub(l.at); late > limLate {
					c.Fail("%s ended %v after its limit had passed (timeout %d, deadline %d, cancel %d ms): %v", what, late, o.TO, o.DL, o.CA, err)
				}
			}
			switch {
			case ending:
				if o.Ans >= 0 && !o.Ign && len(lims) == 0 {
					c.Fail("%s was not completed by its answer: %v", what, err)
				}
				if err == nil && o.Ans < 0 && !o.Ign && o.K >= limPub {
					c.Fail("%s succeeded without an answer", what)
				}
				c.Label("never completed")
			case err == nil || strings.HasPrefix(err.Error(), "refused "):
				if answered.IsZero() {
					c.Fail("%s got an answer (%v) that was not given", what, err)
				}
				if (err != nil) != o.Err || err != nil && err.Error() != errText(i) || err == nil && !sameBytes(data, payload(i)) {
					c.Fail("%s got another answer than the one given to it: %v", what, err)
				}
				c.Label("answered")
			default:
				known := false
				for _, l := range lims {
					early := l.at.Sub(at)
					for _, e := range l.errs {
						if err.Error() == e {
							known = true
							if early > limEarly {
								c.Fail("%s ended with %q %v before its limit", what, e, early)
							}
							if early > 0 && e != "timeout" {
								c.Fail("%s ended with %q %v before the context did", what, e, early)
							}
						}
					}
				}
				if !known {
					c.Fail("%s (timeout %d, deadline %d, cancel %d ms) ended with %q", what, o.TO, o.DL, o.CA, err)
				}
				if !answered.IsZero() && rep == 0 && at.Sub(answered) > oneWay+limLate {
					c.Fail("%s ended with %q although it was answered %v before", what, err, at.Sub(answered))
				}
				c.Label("limit passed")
				c.NonTrivial()
			}
			if rep < o.Rep && !ending {
				rep++
				c.Label("done again")
				if o.TO > 0 && at.Sub(began) > ms(o.TO)-30*time.Millisecond {
					// synchub's timeout may be on its way, and hits what has this ID then
					time.Sleep(70 * time.Millisecond)
				}
				goto again
			}
		})
	}
	// everything with a limit or an answer completes
	time.Sleep(time.Until(t0.Add(4 * time.Second)))
	last := t0
	for i, o := range p.Ops {
		e := starts[i].Add(ms(max(o.Ans, max(o.TO, max(o.DL, o.CA)))*(o.Rep+1)+70*o.Rep) + 2*oneWay + limLate)
		if o.Ign {
			e = e.Add(10 * time.Second)
		}
		if e.After(last) {
			last = e
		}
	}
	time.Sleep(time.Until(last.Add(100 * time.Millisecond)))
	for i, o := range p.Ops {
		if arr, _ := res[i].get(); arr.IsZero() {
			c.Fail("operation %d (kind %d) never arrived at the other side", i, o.K)
		} else if d := arr.Sub(starts[i]); d > oneWay+limLate {
			c.Fail("operation %d arrived at the other side after %v", i, d)
		}
	}
	// late answers have come and gone: the streams work
	g := newGroup(c)
	for si := range pairs {
		for side := 0; side < 2; side++ {
			sm, name := pairs[si][side], fmt.Sprintf("%s of stream %d", sideName(side == 1), si)
			for k := 0; k < 3; k++ {
				want := pattern(50+k, uint32(1000+10*si+side+100*k))
				g.Go("Call afterwards at the "+name, func() {
					rsp, err := sm.Call(context.Background(), "echo", sm.NewRequest(want))
					if err != nil || !sameBytes(rsp.Data(), want) {
						c.Fail("a call after all others at the %s: %v, or another response", name, err)
					}
				})
				g.Go("Publish afterwards at the "+name, func() {
					no := options.NewMessage()
					no.SetTopic("after")
					if err := sm.Publish(context.Background(), sm.NewMessage(want, no)); err != nil {
						c.Fail("a publish after all others at the %s: %v", name, err)
					}
				})
			}
		}
	}
	g.Wait(4*p.Link.maxLat()+time.Second, "operations after all others")
	close(ends)
	r.teardown()
	ops.Wait(20*time.Second, "operations, both ends were closed")
	rcv.Wait(20*time.Second, "receivers, both ends were closed")
}

func init() {
	register(&Prop{
		ID:     "C10",
		Rule:   "calls and publishes, sync and async, from both sides on several streams, each with any of a timeout, a context deadline and a cancellation, answered before, about, or after its limits, or never, over delays and stalls; an operation may be repeated with the same message or request; non-trivial: a limit passed",
		Gen:    genLim,
		Run:    runLim,
		Bubble: true,
		Quick:  600, Thorough: 20000, QuickS: 30, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest", "timeouts are kept by a wheel with ticks of 10 ms: they may pass 20 ms early or 35 ms late"},
	})
}
