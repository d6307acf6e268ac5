package gv

import (
	"context"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
	"pgregory.net/rapid"
)

// ---- C24: options ----------------------------------------------------------------

// oEnd is one value of end options, its fields are 0 if unset.
type oEnd struct {
	Nil   bool `json:",omitempty"`
	ID    int  `json:",omitempty"`
	Meta  int  `json:",omitempty"` // 3: empty
	Dlg   int  `json:",omitempty"`
	Check bool `json:",omitempty"`
	Wait  int  `json:",omitempty"` // 1: for what never comes, 2: for what does
	Local int  `json:",omitempty"`
	Timer int  `json:",omitempty"`
	Buf   int  `json:",omitempty"`
	PF    int  `json:",omitempty"`
	Acc   int  `json:",omitempty"`
	Clo   int  `json:",omitempty"`
	New   bool `json:",omitempty"` // made by NewEndOptions
}

// oOpt is one value of the options of an operation, -1 and 0 if unset.
type oOpt struct {
	Nil    bool `json:",omitempty"`
	TO     int  `json:",omitempty"` // ms
	Custom int  `json:",omitempty"`
	Topic  int  `json:",omitempty"` // 3: empty
	Cnss   int  `json:",omitempty"`
	Meta   int  `json:",omitempty"`
	Peer   int  `json:",omitempty"` // 3: empty
	Match  int  `json:",omitempty"` // 1 pattern matches, 2 the pattern excludes
	Pat    int  `json:",omitempty"`
}

const (
	ooCall = iota
	ooCallAsync
	ooPub
	ooPubAsync
	ooOpen
	ooHijack
)

type oOp struct {
	K    int
	Srv  bool `json:",omitempty"`
	Set  int  `json:",omitempty"` // ms, timeout set at the request or message itself
	Opts []oOpt
	Rep  int `json:",omitempty"` // so many times with the same values
}

type planOpt struct {
	Link     LinkPlan
	Cli, Srv []oEnd
	Conns    int
	Rounds   int
	Retry    int `json:",omitempty"` // so many of the clients are retrying ones
	Ops      []oOp
}

func genOpt(t *rapid.T, thorough bool) any {
	p := planOpt{Link: LinkPlan{C2S: plainDir(), S2C: plainDir()}, Conns: rapid.IntRange(1, 3).Draw(t, "conns"), Rounds: rapid.IntRange(1, 2).Draw(t, "rounds")}
	if rapid.IntRange(0, 2).Draw(t, "linkC") == 0 {
		p.Link = genLink(t, false)
	}
	if rapid.IntRange(0, 3).Draw(t, "retryC") == 0 {
		p.Retry = rapid.IntRange(1, p.Conns).Draw(t, "retry")
	}
	opt := func(label string) int { // unset more often than not
		if rapid.IntRange(0, 2).Draw(t, label+"C") != 0 {
			return 0
		}
		return rapid.IntRange(1, 3).Draw(t, label)
	}
	ends := func(label string, srv bool) []oEnd {
		var out []oEnd
		for range rapid.IntRange(0, 4).Draw(t, label+"N") {
			e := oEnd{Nil: rapid.IntRange(0, 7).Draw(t, "nil") == 0, New: rapid.IntRange(0, 3).Draw(t, "new") != 0}
			e.Dlg, e.Local, e.Timer, e.Buf, e.PF = opt("dlg"), opt("local"), opt("timer"), opt("buf"), opt("pf")
			e.Check = rapid.IntRange(0, 3).Draw(t, "check") == 0
			e.Wait = min(opt("wait"), 2)
			if srv {
				e.Acc, e.Clo = opt("acc"), opt("clo")
			} else {
				e.ID, e.Meta = opt("id"), opt("meta")
			}
			out = append(out, e)
		}
		return out
	}
	p.Cli, p.Srv = ends("cli", false), ends("srv", true)
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) oOp {
		o := oOp{K: rapid.IntRange(ooCall, ooHijack).Draw(t, "k"), Srv: rapid.Bool().Draw(t, "srv"), Rep: rapid.IntRange(0, 2).Draw(t, "rep")}
		to := func(label string) int {
			if rapid.IntRange(0, 2).Draw(t, label+"C") != 0 {
				return 0
			}
			return 40 * rapid.IntRange(1, 8).Draw(t, label)
		}
		if o.K <= ooPubAsync {
			o.Set = to("set")
		}
		for range rapid.IntRange(0, 4).Draw(t, "n") {
			x := oOpt{Nil: rapid.IntRange(0, 7).Draw(t, "nil") == 0}
			switch o.K {
			case ooCall, ooCallAsync:
				x.TO, x.Custom = to("to"), opt("custom")
			case ooPub, ooPubAsync:
				x.TO, x.Custom, x.Topic, x.Cnss = to("to"), opt("custom"), opt("topic"), min(opt("cnss"), 2)
			case ooOpen:
				x.Meta, x.Peer = opt("meta"), opt("peer")
			case ooHijack:
				x.Match, x.Pat = min(opt("match"), 2), opt("pat")
			}
			o.Opts = append(o.Opts, x)
		}
		return o
	}), 0, 8).Draw(t, "ops")
	return p
}

// last gives the last value that is set, which is the one that counts.
func last[T any](opts []T, f func(T) (set int, isNil bool)) int {
	v := 0
	for _, o := range opts {
		if x, null := f(o); !null && x != 0 {
			v = x
		}
	}
	return v
}

func lastEnd(es []oEnd, f func(oEnd) int) int {
	return last(es, func(e oEnd) (int, bool) { return f(e), e.Nil })
}

func lastOp(es []oOpt, f func(oOpt) int) int {
	return last(es, func(e oOpt) (int, bool) { return f(e), e.Nil })
}

func optBytes(what string, k int) []byte {
	switch k {
	case 0:
		return nil
	case 3:
		return []byte{}
	}
	return []byte(fmt.Sprintf("%s %d", what, k))
}

func runOpt(c *Case, raw json.RawMessage) {
	p := decodePlan[planOpt](raw)
	over := make(chan struct{})
	ended := false
	var mu sync.Mutex
	// what never comes must not count, and what does must come
	for side, es := range [][]oEnd{p.Cli, p.Srv} {
		other := p.Srv
		if side == 1 {
			other = p.Cli
		}
		w := lastEnd(es, func(e oEnd) int { return e.Wait })
		if w == 1 || w == 2 && lastEnd(other, func(e oEnd) int { return e.Local }) == 0 {
			for i := range es {
				es[i].Wait = 0
			}
		}
	}
	timers := [3]timer.Timer{}
	for i := range timers {
		timers[i] = timer.NewTimer()
	}
	dlgs := [2][3]*rec{}
	asked := map[int]int{} // delegates of the server asked for an ID
	wantID := 1000 + lastEnd(p.Cli, func(e oEnd) int { return e.ID })
	wantMeta := optBytes("meta", lastEnd(p.Cli, func(e oEnd) int { return e.Meta }))
	if wantID == 1000 {
		wantID = 0
	}
	nth := uint64(0)
	for side := range dlgs {
		for k := range dlgs[side] {
			r := &rec{c: c}
			if side == 1 {
				r.getID = func(wanted uint64, meta []byte) (uint64, error) {
					mu.Lock()
					defer mu.Unlock()
					asked[k+1]++
					nth++
					if wanted != uint64(wantID) {
						c.Fail("the client asked for the ID %d, its options are for %d", wanted, wantID)
					}
					if !sameBytes(meta, wantMeta) && len(meta)+len(wantMeta) > 0 {
						c.Fail("the client came with the meta %q, its options are for %q", meta, wantMeta)
					}
					return uint64(k+1)*100000 + nth, nil
				}
			}
			dlgs[side][k] = r
		}
	}
	accs, clos := [4]int{}, [4]int{}
	var accCh = make(chan geminio.Stream, 100)
	locals := func(side, k int) []*geminio.MethodRPC {
		var out []*geminio.MethodRPC
		for _, m := range []string{fmt.Sprintf("l%d", k), "common"} {
			out = append(out, &geminio.MethodRPC{Method: m, RPC: func(_ context.Context, req geminio.Request, rsp geminio.Response) {
				rsp.SetData([]byte(fmt.Sprintf("%s %d", sideName(side == 1), k)))
			}})
		}
		return out
	}
	wait := []string{1: "never", 2: "common"}
	var copts []*client.EndOptions
	for _, e := range p.Cli {
		if e.Nil {
			copts = append(copts, nil)
			continue
		}
		o := &client.EndOptions{}
		if e.New {
			o = client.NewEndOptions()
		}
		if e.ID != 0 {
			o.SetClientID(uint64(1000 + e.ID))
		}
		if e.Meta != 0 {
			o.SetMeta(optBytes("meta", e.Meta))
		}
		if e.Dlg != 0 {
			o.SetDelegate(cliRec{dlgs[0][e.Dlg-1]})
		}
		if e.Check {
			o.SetRemoteRPCCheck()
		}
		if e.Wait != 0 {
			o.SetWaitRemoteRPCs(wait[e.Wait])
		}
		if e.Local != 0 {
			o.SetRegisterLocalRPCs(locals(0, e.Local)...)
		}
		if e.Timer != 0 {
			o.SetTimer(timers[e.Timer-1])
		}
		if e.Buf != 0 {
			o.SetBufferSize(e.Buf, 4-e.Buf)
		}
		if e.PF != 0 {
			o.SetPacketFactory(packet.NewPacketFactory(id.NewIDCounter(id.Odd)))
		}
		copts = append(copts, o)
	}
	var sopts []*server.EndOptions
	for _, e := range p.Srv {
		if e.Nil {
			sopts = append(sopts, nil)
			continue
		}
		o := &server.EndOptions{}
		if e.New {
			o = server.NewEndOptions()
		}
		if e.Dlg != 0 {
			o.SetDelegate(srvRec{dlgs[1][e.Dlg-1]})
		}
		if e.Check {
			o.SetRemoteRPCCheck()
		}
		if e.Wait != 0 {
			o.SetWaitRemoteRPCs(wait[e.Wait])
		}
		if e.Local != 0 {
			o.SetRegisterLocalRPCs(locals(1, e.Local)...)
		}
		if e.Timer != 0 {
			o.SetTimer(timers[e.Timer-1])
		}
		if e.Buf != 0 {
			o.SetBufferSize(e.Buf, 4-e.Buf)
		}
		if e.PF != 0 {
			o.SetPacketFactory(packet.NewPacketFactory(id.NewIDCounter(id.Even)))
		}
		if e.Acc != 0 {
			o.SetAcceptStreamFunc(func(sm geminio.Stream) {
				mu.Lock()
				accs[e.Acc]++
				mu.Unlock()
				accCh <- sm
			})
		}
		if e.Clo != 0 {
			o.SetClosedStreamFunc(func(geminio.Stream) {
				mu.Lock()
				clos[e.Clo]++
				mu.Unlock()
			})
		}
		sopts = append(sopts, o)
	}
	show := func() string {
		var b strings.Builder
		for _, o := range copts {
			if o != nil {
				fmt.Fprintf(&b, "%v ", *o)
			}
		}
		for _, o := range sopts {
			if o != nil {
				fmt.Fprintf(&b, "%v ", *o)
			}
		}
		return b.String()
	}
	before := show()
	effAcc := lastEnd(p.Srv, func(e oEnd) int { return e.Acc })
	effClo := lastEnd(p.Srv, func(e oEnd) int { return e.Clo })
	eff := [2]struct {
		dlg, local, timer int
		check             bool
	}{}
	for side, es := range [][]oEnd{p.Cli, p.Srv} {
		eff[side].dlg = lastEnd(es, func(e oEnd) int { return e.Dlg })
		eff[side].local = lastEnd(es, func(e oEnd) int { return e.Local })
		eff[side].timer = lastEnd(es, func(e oEnd) int { return e.Timer })
		for _, e := range es {
			eff[side].check = eff[side].check || e.Check && !e.Nil
		}
	}
	lat := p.Link.maxLat()
	hand := 20*lat + 200*time.Millisecond
	clients, streams, opens := 0, 0, 0
	for round := 0; round < p.Rounds && !c.Failed(); round++ {
		g := newGroup(c)
		rigs := make([]*rig, p.Conns)
		for n := range rigs {
			r := &rig{c: c}
			rigs[n] = r
			r.cconn, r.sconn, r.l = newLink(p.Link.C2S, p.Link.S2C, fmt.Sprint(round, n))
			g.Go("the client's constructor", func() {
				if n >= p.Retry {
					r.cli, r.cerr = client.NewEndWithConn(r.cconn, copts...)
					return
				}
				conn := make(chan net.Conn, 1)
				conn <- r.cconn
				r.cli, r.cerr = client.NewRetryEndWithDialer(func() (net.Conn, error) {
					select {
					case c := <-conn:
						return c, nil
					default:
						return nil, errRefused
					}
				}, copts...)
			})
			g.Go("the server's constructor", func() { r.srv, r.serr = server.NewEndWithConn(r.sconn, sopts...) })
		}
		g.Wait(time.Second+hand, "the handshakes")
		for _, r := range rigs {
			if r.cerr != nil || r.serr != nil || r.cli == nil || r.srv == nil {
				c.Fail("the ends did not come up: %v, %v", r.cerr, r.serr)
			}
		}
		if c.Failed() {
			for _, r := range rigs {
				r.l.Cut()
			}
			break
		}
		clients += p.Conns
		for _, r := range rigs {
			if want := uint64(wantID); eff[1].dlg != 0 && r.cli.ClientID()/100000 != uint64(eff[1].dlg) {
				c.Fail("the client has the ID %d, not one from delegate %d of the server", r.cli.ClientID(), eff[1].dlg)
			} else {
				_ = want
			}
			for side, e := range []geminio.End{r.cli, r.srv} {
				if !sameBytes(e.Meta(), wantMeta) && len(e.Meta())+len(wantMeta) > 0 {
					c.Fail("Meta at the %s is %q, not %q", sideName(side == 1), e.Meta(), wantMeta)
				}
				// what the other side registered, and the check of it
				for _, m := range []string{"l1", "l2", "l3", "common", "none"} {
					k := eff[1-side].local
					ok := k != 0 && (m == "common" || m == fmt.Sprintf("l%d", k))
					rsp, err := e.Call(context.Background(), m, e.NewRequest(nil))
					switch {
					case ok && (err != nil || string(rsp.Data()) != fmt.Sprintf("%s %d", sideName(side == 0), k)):
						c.Fail("a call from the %s of %s, which the options of the other side register: %v, or another one answered", sideName(side == 1), m, err)
					case !ok && err == nil:
						c.Fail("a call from the %s of %s, which the options of the other side do not register, succeeded", sideName(side == 1), m)
					case !ok && eff[side].check != (err == application.ErrRemoteRPCUnregistered):
						c.Fail("a call from the %s of %s, which is not registered, failed with %q, with the check of remote methods: %v", sideName(side == 1), m, err, eff[side].check)
					}
				}
			}
		}
		for _, r := range rigs {
			g.Go("operations", func() { n, m := runOptOps(c, p, r, effAcc, accCh, over); streams += n; opens += m })
			if !g.Wait(60*time.Second, "operations") || c.Failed() {
				break
			}
		}
		if p.Rounds-1 == round || c.Failed() {
			ended = true
			close(over)
		}
		for n, r := range rigs {
			if n < p.Retry && r.cli != nil {
				r.cli.Close() // or it goes on
			}
			r.teardown()
		}
	}
	if !ended {
		close(over)
	}
	time.Sleep(time.Second)
	if !c.Failed() {
		mu.Lock()
		for k, n := range asked {
			if k != eff[1].dlg || n != clients {
				c.Fail("delegate %d of the server was asked for an ID %d times, there are %d clients and the delegate is %d", k, n, clients, eff[1].dlg)
			}
		}
		for side := range dlgs {
			for k, r := range dlgs[side] {
				n, want := len(r.events("ConnOffline")), 0
				if k+1 == eff[side].dlg {
					want = clients
				}
				if side == 0 && p.Retry > 0 && k+1 == eff[side].dlg {
					// the user of a retrying end closed it, which is not worth telling
					if n < want-p.Rounds*p.Retry || n > want {
						c.Fail("delegate %d of the client was told offline %d times, there were %d connections", k+1, n, want)
					}
				} else if n != want {
					c.Fail("delegate %d of the %s was told offline %d times, expected %d", k+1, sideName(side == 1), n, want)
				}
			}
		}
		for k := 1; k <= 3; k++ {
			if k == effAcc && accs[k] == 0 && streams > 0 || k != effAcc && accs[k] != 0 {
				c.Fail("accept function %d was called %d times, the one that counts is %d", k, accs[k], effAcc)
			}
			if k == effClo && clos[k] != opens || k != effClo && clos[k] != 0 {
				c.Fail("closed function %d was called %d times, the one that counts is %d, there were %d streams", k, clos[k], effClo, opens)
			}
		}
		mu.Unlock()
		if after := show(); after != before {
			c.Fail("the options were changed: %s\nbefore: %s", after, before)
		}
		// the timers given are still the user's
		for k, tm := range timers {
			if tm == nil {
				continue
			}
			done := make(chan struct{})
			tm.Add(50*time.Millisecond, timer.WithHandler(func(*timer.Event) { close(done) }))
			select {
			case <-done:
			case <-time.After(2 * time.Second):
				c.Fail("timer %d, given by the options, does not work anymore", k+1)
			}
		}
	}
	for _, tm := range timers {
		tm.Close()
	}
	time.Sleep(2 * time.Second)
	if lo := leftover(); len(lo) > 0 && !c.Failed() {
		c.Fail("left after all ends and timers were closed: %s", strings.Join(lo, "; "))
	}
	sets := 0
	for _, es := range [][]oEnd{p.Cli, p.Srv} {
		for _, e := range es {
			if !e.Nil {
				sets++
			}
		}
	}
	if sets > 2 && len(p.Ops) > 0 {
		c.NonTrivial()
	}
}

// buildOpts makes the option values of an operation from their plan.
func buildOpts[T any](in []oOpt, f func(oOpt) *T) []*T {
	var out []*T
	for _, o := range in {
		if o.Nil {
			out = append(out, nil)
		} else {
			out = append(out, f(o))
		}
	}
	return out
}

// runOptOps does the operations of the plan at both ends of a connection.
func runOptOps(c *Case, p planOpt, r *rig, effAcc int, accCh chan geminio.Stream, over chan struct{}) (accepted, opens int) {
	hang := func(ctx context.Context, _ geminio.Request, _ geminio.Response) {
		select {
		case <-ctx.Done():
			time.Sleep(time.Second) // not to answer just in time
		case <-over:
		}
	}
	var gotCustom []byte
	msgs := make(chan geminio.Message, 100)
	for side, e := range []geminio.End{r.cli, r.srv} {
		for m, f := range map[string]geminio.RPC{"hang": hang, "echo": func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			gotCustom = append([]byte{}, req.Custom()...)
			rsp.SetData(req.Data())
		}} {
			if err := e.Register(context.Background(), m, f); err != nil {
				c.Fail("Register at the %s: %v", sideName(side == 1), err)
				return
			}
		}
		go func() {
			for {
				m, err := e.Receive(context.Background())
				if err != nil {
					return
				}
				msgs <- m
				if m.Topic() != "" || len(m.Data()) > 0 && m.Data()[0] != 'h' {
					m.Done()
				}
			}
		}()
	}
	lat := p.Link.maxLat()
	for i, o := range p.Ops {
		e := []geminio.End{r.cli, r.srv}[b2i(o.Srv)]
		other := []geminio.End{r.srv, r.cli}[b2i(o.Srv)]
		to := lastOp(o.Opts, func(x oOpt) int { return x.TO })
		if to == 0 {
			to = o.Set
		}
		limit := ms(to)
		custom := lastOp(o.Opts, func(x oOpt) int { return x.Custom })
		for n := 0; n <= o.Rep && !c.Failed(); n++ {
			began := time.Now()
			// timed checks what a time limit, if any, did to an operation that is
			// not answered if it has one
			timed := func(err error) {
				el := time.Since(began)
				switch {
				case to == 0 && limit != 0 && limit < 4*lat && err != nil && err.Error() == "timeout" && el >= limit-limEarly && el <= limit+limLate:
					// it's slower than that
				case to == 0 && err != nil:
					c.Fail("operation %d without a time limit: %v", i, err)
				case to == 0 && el > 4*lat+limLate:
					c.Fail("operation %d took %v", i, el)
				case to != 0 && (err == nil || err.Error() != "timeout"):
					c.Fail("operation %d, with a limit of %d ms, ended with %v", i, to, err)
				case to != 0 && (el < ms(to)-limEarly || el > ms(to)+limLate):
					c.Fail("operation %d, with a limit of %d ms, took %v", i, to, el)
				}
				if to != 0 {
					c.Label("time limit")
				}
			}
			method, data := "echo", []byte(fmt.Sprintf("d%d.%d", i, n))
			if to != 0 {
				method, data[0] = "hang", 'h'
			}
			switch o.K {
			case ooCall, ooCallAsync:
				mk := func(x oOpt) *options.CallOptions {
					co := options.Call()
					if x.TO != 0 {
						co.SetTimeout(ms(x.TO))
					}
					return co
				}
				mkReq := func(x oOpt) *options.NewRequestOptions {
					no := options.NewRequest()
					if x.Custom != 0 {
						no.SetCustom(optBytes("custom", x.Custom))
					}
					return no
				}
				opts, ropts := buildOpts(o.Opts, mk), buildOpts(o.Opts, mkReq)
				req := e.NewRequest(data, ropts...)
				if o.Set != 0 {
					req.SetTimeout(ms(o.Set))
				}
				gotCustom = nil
				var err error
				var rsp geminio.Response
				if o.K == ooCall {
					rsp, err = e.Call(context.Background(), method, req, opts...)
				} else {
					var cl *geminio.Call
					if cl, err = e.CallAsync(context.Background(), method, req, nil, opts...); err == nil {
						cl = <-cl.Done
						rsp, err = cl.Response, cl.Error
					}
				}
				timed(err)
				if err == nil && !sameBytes(rsp.Data(), data) {
					c.Fail("operation %d got another response", i)
				}
				if err == nil && !sameBytes(gotCustom, optBytes("custom", custom)) && len(gotCustom)+custom%3 > 0 {
					c.Fail("operation %d: the handler got the custom data %q, the options are for %q", i, gotCustom, optBytes("custom", custom))
				}
				if !reflect.DeepEqual(opts, buildOpts(o.Opts, mk)) || !reflect.DeepEqual(ropts, buildOpts(o.Opts, mkReq)) {
					c.Fail("operation %d changed its options", i)
				}
			case ooPub, ooPubAsync:
				mk := func(x oOpt) *options.PublishOptions {
					po := options.Publish()
					if x.TO != 0 {
						po.SetTimeout(ms(x.TO))
					}
					return po
				}
				mkMsg := func(x oOpt) *options.NewMessageOptions {
					no := options.NewMessage()
					if x.Custom != 0 {
						no.SetCustom(optBytes("custom", x.Custom))
					}
					if x.Topic != 0 {
						no.SetTopic(string(optBytes("topic", x.Topic)))
					}
					if x.Cnss != 0 {
						no.SetCnss(options.Cnss(x.Cnss))
					}
					return no
				}
				topic := string(optBytes("topic", lastOp(o.Opts, func(x oOpt) int { return x.Topic })))
				cnss := lastOp(o.Opts, func(x oOpt) int { return x.Cnss })
				opts, mopts := buildOpts(o.Opts, mk), buildOpts(o.Opts, mkMsg)
				m := e.NewMessage(data, mopts...)
				if o.Set != 0 {
					m.SetTimeout(ms(o.Set))
				}
				if cnss == int(options.CnssAtMostOnce) || topic != "" {
					to = 0 // it's done at once
				}
				var err error
				if o.K == ooPub {
					err = e.Publish(context.Background(), m, opts...)
				} else {
					var pb *geminio.Publish
					if pb, err = e.PublishAsync(context.Background(), m, nil, opts...); err == nil && pb != nil {
						err = (<-pb.Done).Error
					} else if err == nil && cnss != int(options.CnssAtMostOnce) {
						c.Fail("operation %d: PublishAsync gave nothing", i)
					}
				}
				timed(err)
				select {
				case g := <-msgs:
					if cnss == 0 {
						cnss = int(m.Cnss())
					}
					if !sameBytes(g.Data(), data) || g.Topic() != topic || int(g.Cnss()) != cnss || !sameBytes(g.Custom(), optBytes("custom", custom)) && len(g.Custom())+custom%3 > 0 {
						c.Fail("operation %d: received %q with topic %q, consistency %d, custom data %q; sent %q with options for %q, %d, %q", i,
							g.Data(), g.Topic(), g.Cnss(), g.Custom(), data, topic, cnss, optBytes("custom", custom))
					}
				case <-time.After(4*lat + time.Second):
					c.Fail("operation %d: the message was not received", i)
				}
				if !reflect.DeepEqual(opts, buildOpts(o.Opts, mk)) || !reflect.DeepEqual(mopts, buildOpts(o.Opts, mkMsg)) {
					c.Fail("operation %d changed its options", i)
				}
				to = lastOp(o.Opts, func(x oOpt) int { return x.TO })
				if to == 0 {
					to = o.Set
				}
			case ooOpen:
				mk := func(x oOpt) *options.OpenStreamOptions {
					oo := options.OpenStream()
					if x.Meta != 0 {
						oo.SetMeta(optBytes("meta", x.Meta))
					}
					if x.Peer != 0 {
						oo.SetPeer(string(optBytes("peer", x.Peer)))
					}
					return oo
				}
				opts := buildOpts(o.Opts, mk)
				sm, err := e.OpenStream(opts...)
				if err != nil {
					c.Fail("operation %d, OpenStream: %v", i, err)
					return
				}
				opens++
				var ps geminio.Stream
				if effAcc != 0 && !o.Srv {
					accepted++
					ps = <-accCh
				} else if ps, err = other.AcceptStream(); err != nil {
					c.Fail("operation %d, AcceptStream: %v", i, err)
					return
				}
				meta := optBytes("meta", lastOp(o.Opts, func(x oOpt) int { return x.Meta }))
				peer := string(optBytes("peer", lastOp(o.Opts, func(x oOpt) int { return x.Peer })))
				for _, s := range []geminio.Stream{sm, ps} {
					if !sameBytes(s.Meta(), meta) && len(s.Meta())+len(meta) > 0 || s.Peer() != peer {
						c.Fail("operation %d: a stream opened with options for the meta %q and peer %q has %q, %q", i, meta, peer, s.Meta(), s.Peer())
					}
				}
				if !reflect.DeepEqual(opts, buildOpts(o.Opts, mk)) {
					c.Fail("operation %d changed its options", i)
				}
				sm.Close()
			case ooHijack:
				mk := func(x oOpt) *options.HijackOptions {
					ho := options.Hijack()
					if x.Match != 0 && x.Pat != 0 {
						ho.SetMatch(x.Match == 1, fmt.Sprintf("^echo$|^h%d$", x.Pat))
					} else if x.Match != 0 {
						m := x.Match == 1
						ho.Match = &m
					} else if x.Pat != 0 {
						s := fmt.Sprintf("^echo$|^h%d$", x.Pat)
						ho.Pattern = &s
					}
					return ho
				}
				opts := buildOpts(o.Opts, mk)
				// on a stream of its own
				sm, err := e.OpenStream()
				if err != nil {
					c.Fail("operation %d, OpenStream: %v", i, err)
					return
				}
				opens++
				var ps geminio.Stream
				if effAcc != 0 && !o.Srv {
					accepted++
					ps = <-accCh
				} else if ps, err = other.AcceptStream(); err != nil {
					c.Fail("operation %d, AcceptStream: %v", i, err)
					return
				}
				if err := sm.Hijack(func(_ context.Context, m string, _ geminio.Request, rsp geminio.Response) {
					rsp.SetData([]byte("hijacked " + m))
				}, opts...); err != nil {
					c.Fail("operation %d, Hijack: %v", i, err)
				}
				match, pat := lastOp(o.Opts, func(x oOpt) int { return x.Match }), lastOp(o.Opts, func(x oOpt) int { return x.Pat })
				// registered, so that a check of remote methods lets the calls through
				for _, m := range []string{"echo", "h1", "h2", "h3"} {
					if err := sm.Register(context.Background(), m, func(_ context.Context, _ geminio.Request, rsp geminio.Response) {
						rsp.SetData([]byte("own"))
					}); err != nil {
						c.Fail("operation %d, Register: %v", i, err)
						return
					}
				}
				for _, m := range []string{"echo", "h1", "h2", "h3"} {
					want := "hijacked " + m
					if in := m == "echo" || m == fmt.Sprintf("h%d", pat); pat != 0 && in != (match != 2) {
						want = "own"
					}
					rsp, err := ps.Call(context.Background(), m, ps.NewRequest(nil))
					if err != nil || string(rsp.Data()) != want {
						c.Fail("operation %d: with a hijack of match %d and pattern %d, a call of %s: %v, or not %q", i, match, pat, m, err, want)
					}
				}
				if !reflect.DeepEqual(opts, buildOpts(o.Opts, mk)) {
					c.Fail("operation %d changed its options", i)
				}
				sm.Close()
			}
		}
	}
	return
}

func init() {
	register(&Prop{
		ID:     "C24",
		Rule:   "up to 3 clients and their server ends at a time, twice, some of which are retrying ones, made with the same up to 4 values of options each, nil, empty or setting some fields, and operations with up to 4 values of options; non-trivial: more than two values of end options and an operation",
		Gen:    genOpt,
		Run:    runOpt,
		Bubble: true,
		Quick:  1000, Thorough: 60000, QuickS: 25, ThoroughS: 500,
		Assumptions: []string{"virtual clock of testing/synctest"},
	})
}
