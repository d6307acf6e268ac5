package gv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// ---- C11: which handler gets a call -------------------------------------------

const (
	dispRegister = iota
	dispHijack
	dispCall
	dispOpen
)

type dispOp struct {
	K       int
	Srv     bool   `json:",omitempty"` // registers and hijacks: where; calls: the caller; open: the opener
	St      int    `json:",omitempty"`
	M       string `json:",omitempty"`
	Pattern string `json:",omitempty"`
	NoMatch bool   `json:",omitempty"` // hijack what does not match
	All     bool   `json:",omitempty"` // hijack without options
	Async   bool   `json:",omitempty"`
	N       int    `json:",omitempty"`
	Fail    bool   `json:",omitempty"` // the handler of this call sets an error
	Delay   int    `json:",omitempty"` // and works so many ms
	Ctx     int    `json:",omitempty"` // the registration's context ends after so many 0.1 ms, at once if negative
}

type planDisp struct {
	Link    LinkPlan
	Check   [2]bool     // RemoteRPCCheck at client, server
	Local   [2][]string // methods registered by option
	Wait    int         `json:",omitempty"` // 0 nobody, 1 client, 2 server waits for the methods below
	Late    []string    `json:",omitempty"` // registered by the other after a while
	LateMs  int         `json:",omitempty"`
	Never   bool        `json:",omitempty"` // and one more, never
	Batches [][]dispOp  // operations of a batch are concurrent
}

var dispPatterns = []string{".*", "^$", "^a", "b$", "a|c", "^ab?$", "(", "[a-b]+", "\\pL", "^.$"}

func genMethod(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 29).Draw(t, label+"C") {
	case 0, 1, 2, 3:
		return genStr(t, 30, label)
	case 4:
		// next to a power of two
		return strings.Repeat("ab", 1<<16)[:1<<rapid.IntRange(4, 16).Draw(t, label+"Pow")+rapid.IntRange(-1, 1).Draw(t, label)]
	}
	return rapid.SampledFrom([]string{"a", "b", "c", "ab", "", "a/b"}).Draw(t, label)
}

func genDisp(t *rapid.T, thorough bool) any {
	p := planDisp{Link: genLink(t, false)}
	for i := range p.Check {
		p.Check[i] = rapid.IntRange(0, 3).Draw(t, "check") == 0
		p.Local[i] = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genMethod(t, "lm") }), 0, 3).Draw(t, "local")
	}
	if rapid.IntRange(0, 3).Draw(t, "waitC") == 0 {
		p.Wait = rapid.IntRange(1, 2).Draw(t, "wait")
		p.Late = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string { return genMethod(t, "late") }), 0, 3).Draw(t, "lates")
		p.LateMs = rapid.IntRange(0, 5000).Draw(t, "lateMs")
		p.Never = rapid.IntRange(0, 7).Draw(t, "never") == 0
	}
	maxB := 16
	if thorough {
		maxB = 40
	}
	op := rapid.Custom(func(t *rapid.T) dispOp {
		o := dispOp{Srv: rapid.Bool().Draw(t, "srv"), St: rapid.IntRange(0, 3).Draw(t, "st"), M: genMethod(t, "m")}
		switch rapid.IntRange(0, 9).Draw(t, "k") {
		case 0, 1, 2:
			o.K = dispRegister
			if rapid.IntRange(0, 5).Draw(t, "ctxC") == 0 {
				o.Ctx = rapid.IntRange(-1, 2000).Draw(t, "ctx")
			}
		case 3:
			o.K = dispHijack
			switch rapid.IntRange(0, 3).Draw(t, "hk") {
			case 0:
				o.All = true
			default:
				o.Pattern = rapid.SampledFrom(dispPatterns).Draw(t, "pat")
				o.NoMatch = rapid.IntRange(0, 2).Draw(t, "nomatch") == 0
			}
		case 4:
			o.K = dispOpen
		default:
			o.K = dispCall
			o.Async = rapid.Bool().Draw(t, "async")
			o.N = genLen(t, 3000, "n")
			o.Fail = rapid.IntRange(0, 4).Draw(t, "fail") == 0
			if rapid.IntRange(0, 3).Draw(t, "delayC") == 0 {
				o.Delay = rapid.IntRange(0, 400).Draw(t, "delay")
			}
		}
		return o
	})
	p.Batches = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) []dispOp {
		if rapid.Bool().Draw(t, "single") {
			return []dispOp{op.Draw(t, "op")}
		}
		return rapid.SliceOfN(op, 1, 6).Draw(t, "ops")
	}), genMin(t, maxB, "batches"), maxB).Draw(t, "batches")
	return p
}

// dispHij is one hijack as the model sees it.
type dispHij struct {
	set   bool
	re    *regexp.Regexp // nil: everything
	match bool
	v     string
}

func (h dispHij) takes(m string) bool {
	return h.set && (h.re == nil || h.re.MatchString(m) == h.match)
}

// dispTarget is one side of a stream: what handlers it may have.
type dispTarget struct {
	local map[string]map[string]bool // method: possible versions
	hij   []dispHij                  // possible hijacks
	told  map[string]int             // registrations, as the peer should be told
}

func newDispTarget() *dispTarget {
	return &dispTarget{local: map[string]map[string]bool{}, hij: []dispHij{{}}, told: map[string]int{}}
}

func runDisp(c *Case, raw json.RawMessage) {
	p := decodePlan[planDisp](raw)
	recs := [2]*rec{{c: c}, {c: c}}
	co, so := client.NewEndOptions(), server.NewEndOptions()
	co.SetDelegate(cliRec{recs[0]})
	so.SetDelegate(srvRec{recs[1]})
	if p.Check[0] {
		co.SetRemoteRPCCheck()
	}
	if p.Check[1] {
		so.SetRemoteRPCCheck()
	}
	var mu sync.Mutex
	calls := map[string]dispOp{} // data to the call, as handlers see it
	// the handler of a version
	handler := func(v string, hijack bool) geminio.HijackRPC {
		return func(_ context.Context, method string, req geminio.Request, rsp geminio.Response) {
			mu.Lock()
			o, ok := calls[string(req.Data())]
			mu.Unlock()
			if !ok {
				c.Fail("handler %s got data that nobody sent", v)
				return
			}
			if req.Method() != o.M || hijack && method != o.M {
				c.Fail("handler %s got method %q (%q) for a call of %q", v, req.Method(), method, o.M)
			}
			time.Sleep(ms(o.Delay))
			rsp.SetCustom([]byte(v))
			rsp.SetData(req.Data())
			if o.Fail {
				rsp.SetError(errors.New("error of " + v))
			}
		}
	}
	rpc := func(v string) geminio.RPC {
		h := handler(v, false)
		return func(ctx context.Context, req geminio.Request, rsp geminio.Response) { h(ctx, "", req, rsp) }
	}
	// the model: targets[stream][side]
	targets := [][2]*dispTarget{{newDispTarget(), newDispTarget()}}
	setLocal := func(t *dispTarget, m, v string, only bool) {
		if only || t.local[m] == nil {
			t.local[m] = map[string]bool{}
		}
		t.local[m][v] = true
	}
	for side := range p.Local {
		var ms []*geminio.MethodRPC
		for i, m := range p.Local[side] {
			v := fmt.Sprintf("option %d of the %s", i, sideName(side == 1))
			ms = append(ms, &geminio.MethodRPC{Method: m, RPC: rpc(v)})
			setLocal(targets[0][side], m, v, true)
			targets[0][side].told[m]++
		}
		if side == 0 {
			co.SetRegisterLocalRPCs(ms...)
		} else {
			so.SetRegisterLocalRPCs(ms...)
		}
	}
	var r *rig
	if p.Wait == 0 {
		r = dialRig(c, p.Link, co, so, true)
		if r == nil {
			return
		}
	} else {
		var wait []string
		waiter := p.Wait - 1
		wait = append(wait, p.Local[1-waiter]...)
		wait = append(wait, p.Late...)
		if p.Never {
			wait = append(wait, "never registered")
		}
		if waiter == 0 {
			co.SetWaitRemoteRPCs(wait...)
		} else {
			so.SetWaitRemoteRPCs(wait...)
		}
		r = &rig{c: c}
		r.cconn, r.sconn, r.l = newLink(p.Link.C2S, p.Link.S2C, "x")
		up := [2]chan struct{}{make(chan struct{}), make(chan struct{})}
		go func() { r.srv, r.serr = server.NewEndWithConn(r.sconn, so); close(up[1]) }()
		go func() { r.cli, r.cerr = client.NewEndWithConn(r.cconn, co); close(up[0]) }()
		isUp := func(side int, d time.Duration) bool {
			select {
			case <-up[side]:
				return true
			default:
			}
			t := time.NewTimer(d)
			defer t.Stop()
			select {
			case <-up[side]:
				return true
			case <-t.C:
				return false
			}
		}
		if !isUp(1-waiter, 60*time.Second) {
			c.Fail("the end that waits for no methods did not come up within 60 s")
			r.l.Cut()
			return
		}
		if err := []error{r.cerr, r.serr}[1-waiter]; err != nil {
			c.Fail("the handshake over a healthy connection failed: %v", err)
			r.l.Cut()
			return
		}
		pending := map[string]bool{}
		for _, m := range p.Late {
			pending[m] = true
		}
		for _, m := range p.Local[1-waiter] {
			delete(pending, m)
		}
		if len(pending) > 0 || p.Never {
			time.Sleep(ms(p.LateMs))
			if isUp(waiter, 0) {
				c.Fail("the %s came up although methods it waits for were not registered: %v", sideName(waiter == 1), []error{r.cerr, r.serr}[waiter])
			}
		}
		for i, m := range p.Late {
			v := fmt.Sprintf("late %d of the %s", i, sideName(waiter == 0))
			if err := r.end(waiter == 0).Register(context.Background(), m, rpc(v)); err != nil {
				c.Fail("Register over a healthy connection: %v", err)
			}
			setLocal(targets[0][1-waiter], m, v, true)
			targets[0][1-waiter].told[m]++
		}
		c.Label("waited for methods")
		if p.Never {
			if isUp(waiter, 60*time.Second) {
				c.Fail("the %s came up although a method it waits for was never registered: %v", sideName(waiter == 1), []error{r.cerr, r.serr}[waiter])
			}
			r.end(waiter == 0).Close()
			if !isUp(waiter, 40*time.Second) {
				c.Fail("the other end was closed, but the %s still waits for its methods after 40 s", sideName(waiter == 1))
			} else if []error{r.cerr, r.serr}[waiter] == nil {
				c.Fail("the %s came up although a method it waits for was never registered and the other end was closed", sideName(waiter == 1))
			}
			c.Label("waited in vain")
			c.NonTrivial()
			time.Sleep(time.Second)
			r.l.Cut()
			time.Sleep(time.Second)
			return
		}
		if !isUp(waiter, time.Second+2*p.Link.maxLat()) {
			c.Fail("the %s did not come up although all methods it waits for are registered", sideName(waiter == 1))
			r.l.Cut()
			return
		}
		if err := []error{r.cerr, r.serr}[waiter]; err != nil {
			c.Fail("the %s did not come up although all methods it waits for are registered: %v", sideName(waiter == 1), err)
			r.l.Cut()
			return
		}
	}
	defer r.teardown()
	streams := [][2]geminio.Stream{{r.cli, r.srv}}
	settle := func() { time.Sleep(5*time.Millisecond + p.Link.maxLat()) }
	settle()
	seq := 0
	for bi, batch := range p.Batches {
		if c.Failed() {
			return
		}
		// what a batch may find
		n := len(streams)
		for i := range batch {
			batch[i].St %= n
		}
		type regd struct {
			m, v string
			lim  bool // the registration may fail
		}
		failed := map[string]bool{}
		newLocal := map[*dispTarget][]regd{}
		newHij := map[*dispTarget][]dispHij{}
		g := newGroup(c)
		bound := time.Second + 4*p.Link.maxLat()
		var after []func()
		for oi, o := range batch {
			oi, o := oi, o
			st, side := o.St, b2i(o.Srv)
			sm, own := streams[st][side], targets[st][side]
			v := fmt.Sprintf("%d.%d at the %s of stream %d", bi, oi, sideName(o.Srv), st)
			switch o.K {
			case dispRegister:
				newLocal[own] = append(newLocal[own], regd{o.M, v, o.Ctx != 0})
				own.told[o.M]++
				g.Go(fmt.Sprintf("Register %q", o.M), func() {
					ctx, cancel := context.Background(), context.CancelFunc(func() {})
					if o.Ctx < 0 {
						ctx, cancel = context.WithCancel(ctx)
						cancel()
					} else if o.Ctx > 0 {
						ctx, cancel = context.WithTimeout(ctx, time.Duration(o.Ctx)*100*time.Microsecond)
					}
					defer cancel()
					err := sm.Register(ctx, o.M, rpc(v))
					if err != nil && o.Ctx != 0 && err == ctx.Err() {
						mu.Lock()
						failed[v] = true
						mu.Unlock()
						c.Label("registration given up")
					} else if err != nil {
						c.Fail("Register of %q over a healthy connection: %v", o.M, err)
					}
				})
			case dispHijack:
				h := dispHij{set: true, match: true, v: v}
				var opts []*options.HijackOptions
				var cerr error
				if !o.All {
					h.match = !o.NoMatch
					h.re, cerr = regexp.Compile(o.Pattern)
					ho := options.Hijack()
					ho.SetMatch(h.match, o.Pattern)
					opts = append(opts, ho)
				}
				if cerr == nil {
					newHij[own] = append(newHij[own], h)
				}
				g.Go("Hijack", func() {
					err := sm.Hijack(handler(v, true), opts...)
					if (err != nil) != (cerr != nil) {
						c.Fail("Hijack with pattern %q: %v", o.Pattern, err)
					}
				})
			case dispOpen:
				if len(streams)+len(after) >= 5 {
					continue
				}
				o := o
				after = append(after, func() {
					cs, ss, ok := r.open(o.Srv, nil)
					if ok {
						streams = append(streams, [2]geminio.Stream{cs, ss})
						targets = append(targets, [2]*dispTarget{newDispTarget(), newDispTarget()})
					}
				})
			}
		}
		// what each target may do during the batch
		for oi, o := range batch {
			if o.K != dispCall {
				continue
			}
			seq++
			oi, o, seq := oi, o, seq
			sm, peer := streams[o.St][b2i(o.Srv)], targets[o.St][1-b2i(o.Srv)]
			data := append(pattern(o.N, uint32(seq)), fmt.Sprintf("#%d", seq)...)
			mu.Lock()
			calls[string(data)] = o
			mu.Unlock()
			want := map[string]bool{}
			hijs := append(append([]dispHij{}, peer.hij...), newHij[peer]...)
			free := false
			for _, h := range hijs {
				if h.takes(o.M) {
					want[h.v] = true
				} else {
					free = true
				}
			}
			fresh := false
			for _, l := range newLocal[peer] {
				fresh = fresh || l.m == o.M
			}
			if free {
				for v := range peer.local[o.M] {
					want[v] = true
				}
				for _, l := range newLocal[peer] {
					if l.m == o.M {
						want[l.v] = true
						if l.lim {
							want["nobody"] = true
						}
					}
				}
				if len(peer.local[o.M]) == 0 {
					want["nobody"] = true
				}
			}
			if p.Check[b2i(o.Srv)] {
				if peer.told[o.M] == 0 || peer.local[o.M] == nil && fresh {
					if !fresh {
						want = map[string]bool{}
					}
					want["unregistered"] = true
				}
			}
			bound = max(bound, ms(o.Delay)+time.Second+4*p.Link.maxLat())
			g.Go(fmt.Sprintf("call of %q", o.M), func() {
				req := sm.NewRequest(data)
				var rsp geminio.Response
				var err error
				if o.Async {
					var cl *geminio.Call
					cl, err = sm.CallAsync(context.Background(), o.M, req, nil)
					if err == nil {
						cl = <-cl.Done
						rsp, err = cl.Response, cl.Error
						if cl.Method != o.M || cl.Request != req {
							c.Fail("a Call of %q names method %q or another request", o.M, cl.Method)
						}
					}
				} else {
					rsp, err = sm.Call(context.Background(), o.M, req)
				}
				got := ""
				switch {
				case err == nil:
					got = string(rsp.Custom())
					if o.Fail {
						c.Fail("the handler set an error, but the call of %q succeeded", o.M)
					}
					if !sameBytes(rsp.Data(), data) {
						c.Fail("a call of %q got the response to another one", o.M)
					}
					if rsp.Method() != o.M {
						c.Fail("the response to a call of %q is of method %q", o.M, rsp.Method())
					}
				case err == application.ErrRemoteRPCUnregistered:
					got = "unregistered"
				case err.Error() == "no such rpc: "+o.M:
					got = "nobody"
				case o.Fail && strings.HasPrefix(err.Error(), "error of "):
					got = strings.TrimPrefix(err.Error(), "error of ")
				default:
					c.Fail("a call of %q over a healthy connection: %v", o.M, err)
					return
				}
				if !want[got] {
					var w []string
					for v := range want {
						w = append(w, v)
					}
					sort.Strings(w)
					c.Fail("batch %d: a call of %q from the %s of stream %d was handled by %q, expected one of %q", bi, o.M, sideName(o.Srv), o.St, got, w)
				}
				c.Trace("batch %d.%d: %q handled by %q", bi, oi, o.M, got)
				switch {
				case got == "nobody" || got == "unregistered":
					c.Label("%s", got)
				case want[got] && len(want) > 1:
					c.Label("concurrent with a change")
				default:
					c.Label("handled")
				}
				if len(want) > 1 || got == "nobody" || got == "unregistered" || len(hijs) > 1 || hijs[0].set {
					c.NonTrivial()
				}
			})
		}
		if !g.Wait(bound, fmt.Sprintf("batch %d over a healthy connection", bi)) {
			return
		}
		for t, ls := range newLocal {
			seen := map[string]bool{}
			for _, l := range ls {
				if !failed[l.v] {
					setLocal(t, l.m, l.v, !seen[l.m])
					seen[l.m] = true
				}
			}
			for _, l := range ls {
				if failed[l.v] {
					// what was registered before may be gone as well
					setLocal(t, l.m, "nobody", false)
				}
			}
		}
		for t, hs := range newHij {
			t.hij = hs
		}
		settle()
		for _, f := range after {
			f()
		}
	}
	settle()
	// every registration was told once, at the other side of its own stream
	for si := range streams {
		for side := 0; side < 2; side++ {
			want, got := targets[si][side].told, map[string]int{}
			for _, e := range recs[1-side].events("RemoteRegistration") {
				if e.Stream == streams[si][1-side].StreamID() {
					got[e.Method]++
					if e.Client != streams[si][1-side].ClientID() {
						c.Fail("RemoteRegistration at the %s was told client %d, it is %d", sideName(side == 0), e.Client, streams[si][1-side].ClientID())
					}
				}
			}
			for m, n := range want {
				if got[m] != n {
					c.Fail("the %s of stream %d registered %q %d times, its peer was told %d times", sideName(side == 1), si, m, n, got[m])
				}
			}
			for m, n := range got {
				if want[m] == 0 {
					c.Fail("the %s of stream %d never registered %q, its peer was told so %d times", sideName(side == 1), si, m, n)
				}
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C11",
		Rule:   "histories of registrations, hijacks with patterns, calls (sync and async) and new streams on both sides, batches of which are concurrent, with methods registered by option, awaited methods, and checks for registered methods; non-trivial: a hijack, an unregistered method, or a change concurrent with a call decided who answers",
		Gen:    genDisp,
		Run:    runDisp,
		Bubble: true,
		Quick:  3000, Thorough: 60000, QuickS: 30, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest", "Go's regexp package decides what a pattern matches"},
	})
}
