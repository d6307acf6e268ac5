package gv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/multiplexer"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
	"pgregory.net/rapid"
)

// ---- C20: the retrying end -----------------------------------------------------

const (
	rdOK     = iota
	rdErr    // the dialer fails
	rdRefuse // the server refuses the client
	rdMute   // nobody answers
	rdEarly  // breaks after so many bytes, while the handshake, or what follows it, is under way
)

type retDial struct {
	Link LinkPlan
	K    int
	Wait int // ms until the dialer returns
	Life int // ms from the dial until the connection ends
	End  int // 0 it breaks, 1 the server end closes, 2 the server's net.Conn closes
}

const (
	roCall = iota
	roCallAsync
	roPub
	roPubAsync
	roOpen
	roReg
	roWrite
	roReReg
	roHij // once more
)

var roNames = []string{"Call", "CallAsync", "Publish", "PublishAsync", "OpenStream", "Register", "Write", "Register", "Hijack"}

type retOp struct {
	At, K int
}

type planRetry struct {
	Dials  []retDial // those after the last are healthy
	Regs   int       // methods registered at once
	Local  bool      `json:",omitempty"` // and one by the options
	Hijack bool      `json:",omitempty"`
	HijPat bool      `json:",omitempty"` // only of methods that begin with h
	Wait   bool      `json:",omitempty"` // WaitRemoteRPCs
	SlowOn int       `json:",omitempty"` // ms that the delegate takes for ConnOnline
	Ops    []retOp
	Loops  bool `json:",omitempty"` // Receive, AcceptStream and Read all the time
	NoDlg  bool `json:",omitempty"` // no delegate
	Stay   bool `json:",omitempty"` // the last of the list lasts, too
	Rest   int  // ms from the last dial of the list until Close
	Timer  bool `json:",omitempty"` // given by the user
	Twice  bool `json:",omitempty"` // closed from two goroutines
}

func genRetry(t *rapid.T, thorough bool) any {
	p := planRetry{Regs: rapid.IntRange(0, 3).Draw(t, "regs"), Local: rapid.IntRange(0, 3).Draw(t, "local") == 0, Hijack: rapid.IntRange(0, 2).Draw(t, "hijack") == 0,
		Wait: rapid.IntRange(0, 5).Draw(t, "wait") == 0, Loops: rapid.Bool().Draw(t, "loops"), NoDlg: rapid.IntRange(0, 5).Draw(t, "nodlg") == 0, Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0}
	if rapid.IntRange(0, 3).Draw(t, "slowC") == 0 {
		p.SlowOn = rapid.IntRange(1, 6000).Draw(t, "slow")
	}
	i := 0
	p.Dials = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) retDial {
		d := retDial{Link: genLink(t, false), K: rapid.SampledFrom([]int{rdOK, rdOK, rdOK, rdOK, rdErr, rdErr, rdRefuse, rdMute, rdEarly}).Draw(t, "k")}
		if i == 0 && rapid.IntRange(0, 7).Draw(t, "first") != 0 {
			d.K = rdOK
		}
		i++
		switch rapid.IntRange(0, 2).Draw(t, "waitC") {
		case 1:
			d.Wait = rapid.IntRange(0, 100).Draw(t, "wait")
		case 2:
			d.Wait = rapid.IntRange(0, 5000).Draw(t, "wait")
		}
		switch rapid.IntRange(0, 2).Draw(t, "lifeC") {
		case 0:
			d.Life = rapid.IntRange(0, 200).Draw(t, "life")
		case 1:
			d.Life = rapid.IntRange(0, 2500).Draw(t, "life")
		default:
			d.Life = rapid.IntRange(0, 9000).Draw(t, "life")
		}
		d.End = rapid.IntRange(0, 2).Draw(t, "end")
		if d.K == rdEarly {
			d.Link.C2S.CutAfter = rapid.IntRange(0, 200).Draw(t, "cut")
			if rapid.Bool().Draw(t, "cutS") {
				d.Link.S2C.CutAfter, d.Link.C2S.CutAfter = d.Link.C2S.CutAfter, -1
			}
		}
		if d.K == rdMute {
			d.Link.C2S.HoleAfter = 0
		}
		return d
	}), 1, 6).Draw(t, "dials")
	if rapid.IntRange(0, 19).Draw(t, "outageC") == 0 {
		// a long outage, or a connection that comes and goes
		d := p.Dials[rapid.IntRange(0, len(p.Dials)-1).Draw(t, "outageK")]
		d.Life, d.Wait = min(d.Life, 300), min(d.Wait, 300)
		if d.K == rdMute {
			d.K = rdErr
		}
		n, at := rapid.IntRange(5, 25).Draw(t, "outage"), rapid.IntRange(1, len(p.Dials)).Draw(t, "outageAt")
		for range n {
			p.Dials = slices.Insert(p.Dials, at, d)
		}
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) retOp {
		return retOp{At: rapid.IntRange(0, min(len(p.Dials), 6)*9000).Draw(t, "at"), K: rapid.IntRange(roCall, roHij).Draw(t, "op")}
	}), genMin(t, 10, "ops")-1, 10).Draw(t, "ops")
	p.Stay = rapid.IntRange(0, 2).Draw(t, "stay") == 0
	p.Timer = rapid.IntRange(0, 2).Draw(t, "timer") == 0
	p.HijPat = rapid.Bool().Draw(t, "hijPat")
	p.Rest = rapid.IntRange(0, 12000).Draw(t, "rest")
	return p
}

// retConn is what became of one dial.
type retConn struct {
	i            int
	began, ended time.Time // of the dialer
	d            retDial
	cconn, sconn *memConn
	l            *link
	srv          geminio.End
	srvUp        time.Time
	dead         time.Time // when it ends, by plan
	gone         chan struct{}
	srec         *rec
	mu           sync.Mutex
	regs         map[string]bool // methods the client registered here
	published    []string        // received at the server
	called       map[string]int
	online, reOn time.Time
	offline      int
	raw          []byte
}

func (rc *retConn) alive(from, to time.Time) bool {
	return rc != nil && (rc.dead.IsZero() || to.Before(rc.dead)) && !rc.srvUp.IsZero() && !from.Before(rc.srvUp)
}

func runRetry(c *Case, raw json.RawMessage) {
	p := decodePlan[planRetry](raw)
	var mu sync.Mutex
	var conns []*retConn
	closing := false
	var closedAt time.Time
	dialing := 0
	lat := time.Duration(0)
	for _, d := range p.Dials {
		lat = max(lat, d.Link.maxLat())
	}
	// each message of a handshake or registration takes a latency
	hand := 20*lat + 200*time.Millisecond
	cur := func() *retConn {
		mu.Lock()
		defer mu.Unlock()
		if len(conns) == 0 {
			return nil
		}
		return conns[len(conns)-1]
	}
	live := newGroup(c)
	serve := func(rc *retConn) {
		so := server.NewEndOptions()
		rc.srec = &rec{c: c}
		if rc.d.K == rdRefuse {
			rc.srec.getID = func(uint64, []byte) (uint64, error) { return 0, errRefused }
		}
		rc.srec.reg = func(m string, _, _ uint64) {
			rc.mu.Lock()
			rc.regs[m] = true
			rc.mu.Unlock()
		}
		so.SetDelegate(srvRec{rc.srec})
		so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "echo", RPC: func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			rc.mu.Lock()
			rc.called[string(req.Data())]++
			rc.mu.Unlock()
			rsp.SetData(append([]byte("echo "), req.Data()...))
		}})
		srv, err := server.NewEndWithConn(rc.sconn, so)
		if err != nil {
			return
		}
		rc.mu.Lock()
		rc.srv, rc.srvUp = srv, time.Now()
		rc.mu.Unlock()
		live.Go("the server's Receive", func() {
			for {
				m, err := srv.Receive(context.Background())
				if err != nil {
					return
				}
				rc.mu.Lock()
				rc.published = append(rc.published, string(m.Data()))
				rc.mu.Unlock()
				m.Done()
			}
		})
		live.Go("the server's AcceptStream", func() {
			for {
				_, err := srv.AcceptStream()
				if err != nil {
					return
				}
			}
		})
		live.Go("the server's Read", func() {
			b := make([]byte, 1000)
			for {
				n, err := srv.Read(b)
				rc.mu.Lock()
				rc.raw = append(rc.raw, b[:n]...)
				rc.mu.Unlock()
				if err != nil {
					return
				}
			}
		})
	}
	dialer := func() (net.Conn, error) {
		mu.Lock()
		rc := &retConn{i: len(conns), began: time.Now(), regs: map[string]bool{}, called: map[string]int{}, gone: make(chan struct{})}
		if rc.i < len(p.Dials) {
			rc.d = p.Dials[rc.i]
			if p.Stay && rc.i == len(p.Dials)-1 && rc.d.K == rdOK {
				rc.d.Life = limNone
			}
		} else {
			rc.d = retDial{Link: LinkPlan{C2S: plainDir(), S2C: plainDir()}}
			rc.d.Life = limNone
		}
		if !closedAt.IsZero() && time.Since(closedAt) > 0 {
			c.Fail("dialed again after Close had returned")
		}
		if dialing++; dialing > 1 {
			c.Fail("dialed twice at the same time")
		}
		for _, o := range conns {
			if o.cconn == nil || o.d.K == rdMute {
				continue
			}
			o.l.mu.Lock()
			cl := o.cconn.closed
			o.l.mu.Unlock()
			if !cl {
				c.Fail("dialed again although the last connection, which ended, was not closed")
			}
		}
		if n := len(conns); n > 0 && rc.began.Sub(conns[n-1].ended) < time.Second {
			c.Fail("dialed again %v after the last dial", rc.began.Sub(conns[n-1].ended))
		}
		conns = append(conns, rc)
		mu.Unlock()
		time.Sleep(ms(rc.d.Wait))
		mu.Lock()
		rc.ended = time.Now()
		dialing--
		defer mu.Unlock()
		if rc.d.K == rdErr {
			return nil, errors.New("gv: no way")
		}
		rc.cconn, rc.sconn, rc.l = newLink(rc.d.Link.C2S, rc.d.Link.S2C, fmt.Sprint(rc.i))
		if rc.d.Life != limNone {
			rc.dead = time.Now().Add(ms(rc.d.Life))
			if rc.d.K != rdOK {
				rc.dead = time.Now()
			}
		}
		live.Go("the server end", func() { serve(rc) })
		if rc.d.Life != limNone && (rc.d.K == rdOK || rc.d.K == rdEarly) {
			live.Go("the end of the connection", func() {
				time.Sleep(ms(rc.d.Life))
				rc.mu.Lock()
				srv := rc.srv
				rc.mu.Unlock()
				if rc.d.End == 1 && srv != nil {
					srv.Close()
				} else if rc.d.End == 2 {
					rc.sconn.Close()
				} else {
					rc.l.Cut()
				}
				close(rc.gone)
			})
		}
		return rc.cconn, nil
	}
	crec := &rec{c: c}
	co := client.NewEndOptions()
	if !p.NoDlg {
		co.SetDelegate(cliRec{crec})
	}
	crec.on = func(delegate.ConnDescriber) error {
		time.Sleep(ms(p.SlowOn))
		return nil
	}
	if p.Timer {
		tmr := timer.NewTimer()
		co.SetTimer(tmr)
		defer func() {
			tmr.Close()
			time.Sleep(time.Second)
			if lo := leftover(); len(lo) > 0 {
				c.Fail("goroutines left after the timer was closed, too: %s", strings.Join(lo, "; "))
			}
		}()
	}
	if p.Wait {
		co.SetWaitRemoteRPCs("echo")
	}
	handler := func(name string) geminio.RPC {
		return func(_ context.Context, req geminio.Request, rsp geminio.Response) {
			rsp.SetData([]byte(name + " " + string(req.Data())))
		}
	}
	if p.Local {
		co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "local", RPC: handler("local")})
	}
	var rmu sync.Mutex
	type regVer struct {
		v            string
		began, ended time.Time
	}
	regs := map[string][]regVer{} // methods registered through the end
	hijs := []regVer{}            // hijacks set through the end
	// current gives those whose turn it may be on a connection
	current := func(vs []regVer, rc *retConn) (out []string) {
		for _, v := range vs {
			replaced := false
			for _, w := range vs {
				replaced = replaced || !v.ended.IsZero() && !w.ended.IsZero() && w.ended.Before(rc.began) && w.began.After(v.ended)
			}
			if !replaced {
				out = append(out, v.v+" x")
			}
		}
		return out
	}
	var re geminio.End
	var err error
	reConns := map[*retConn]bool{}
	// what the server finds on a connection the client says is restored
	checks := newGroup(c)
	crec.re = func(delegate.ClientDescriber) {
		rc := cur()
		now := time.Now()
		rc.mu.Lock()
		rc.reOn = now
		srv := rc.srv
		rc.mu.Unlock()
		mu.Lock()
		if reConns[rc] {
			c.Fail("EndReOnline was called twice for connection %d", rc.i)
		}
		reConns[rc] = true
		mu.Unlock()
		if srv == nil {
			return
		}
		checks.Go("a call from the server", func() {
			rmu.Lock()
			var want []string
			for m, vs := range regs {
				for _, v := range vs {
					// it might have been registered later at the last connection
					if !v.ended.IsZero() && v.ended.Before(rc.began) {
						want = append(want, m)
						break
					}
				}
			}
			hj := false
			for _, v := range hijs {
				hj = hj || !v.ended.IsZero() && v.ended.Before(rc.began)
			}
			rmu.Unlock()
			if p.Local {
				want = append(want, "local")
			}
			// turns gives the versions of a method whose turn it may be
			turns := func(m string) []string {
				if m == "local" {
					return []string{"local x"}
				}
				rmu.Lock()
				defer rmu.Unlock()
				return current(regs[m], rc)
			}
			try := func(m string, wantData func(string) []string) {
				ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second+hand)
				defer cancel()
				began := time.Now()
				rsp, err := srv.Call(ctx, m, srv.NewRequest([]byte("x")))
				mu.Lock()
				cl := closing
				mu.Unlock()
				if cl || !rc.alive(began, time.Now()) {
					return
				}
				var data []string
				if wantData != nil {
					data = wantData(m)
				}
				if len(data) == 0 {
					if err == nil || err.Error() != "no such rpc: "+m {
						c.Fail("connection %d was restored, but the call of %s, which is not registered, by the server gave: %v", rc.i, m, err)
					}
				} else if err != nil {
					c.Fail("connection %d was restored, but the call of %s by the server failed: %v", rc.i, m, err)
				} else if !slices.Contains(data, string(rsp.Data())) {
					c.Fail("connection %d was restored, but the call of %s by the server gave %q, not one of %q", rc.i, m, rsp.Data(), data)
				} else {
					c.Label("called again")
					if len(data) == 1 && strings.HasPrefix(data[0], "anew") {
						c.Label("registered anew")
					}
					if len(data) == 1 && strings.HasPrefix(data[0], "rehijack") {
						c.Label("hijacked anew")
					}
				}
			}
			hijack := func(string) []string {
				rmu.Lock()
				defer rmu.Unlock()
				return current(hijs, rc)
			}
			for _, m := range want {
				if hj && !p.HijPat {
					try(m, hijack)
				} else {
					try(m, turns)
				}
			}
			if hj {
				try("hij", hijack)
				if p.HijPat {
					try("whatever", nil)
				} else {
					try("whatever", hijack)
				}
			}
		})
	}
	if !c.within(60*time.Second+ms(p.SlowOn)+ms(p.Dials[0].Wait), "NewRetryEndWithDialer", func() { re, err = client.NewRetryEndWithDialer(dialer, co) }) {
		return
	}
	mu.Lock()
	first := conns[0]
	mu.Unlock()
	if err != nil {
		if first.d.K == rdOK && first.d.Life > int(hand/time.Millisecond) {
			c.Fail("NewRetryEndWithDialer over a healthy connection: %v", err)
		}
		// nothing goes on
		mu.Lock()
		closing, closedAt = true, time.Now()
		mu.Unlock()
		time.Sleep(120 * time.Second)
		if len(conns) != 1 {
			c.Fail("NewRetryEndWithDialer failed, but dialed %d times", len(conns))
		}
		if first.cconn != nil && !first.cconn.closed {
			c.Fail("NewRetryEndWithDialer failed, but left the connection open")
		}
		if first.l != nil {
			first.l.Cut()
		}
		first.mu.Lock()
		srv := first.srv
		first.mu.Unlock()
		if srv != nil {
			srv.Close()
		}
		live.Wait(60*time.Second, "the server, after the only dial failed")
		time.Sleep(time.Second)
		if lo := leftover(); len(lo) > 0 && !p.Timer {
			c.Fail("goroutines left after NewRetryEndWithDialer failed: %s", strings.Join(lo, "; "))
		}
		return
	}
	if first.d.K == rdRefuse || first.d.K == rdErr || first.d.K == rdMute {
		c.Fail("NewRetryEndWithDialer succeeded although the dial failed")
	}
	up0 := time.Now()
	over := make(chan struct{})
	loops := newGroup(c)
	var lmu sync.Mutex
	gotMsgs := map[string]int{}
	gotRaw := []byte{}
	gotStreams := 0
	isOver := func() bool {
		select {
		case <-over:
			return true
		default:
			return false
		}
	}
	// what finds the connection rc gone goes on over the next one,
	// unless that's none
	goesOn := func(since []*retConn, rc *retConn) bool {
		for _, x := range since {
			x.mu.Lock()
			none := x.d.K != rdOK || x != rc && !x.dead.IsZero() && (x.reOn.IsZero() || !x.reOn.Before(x.dead))
			x.mu.Unlock()
			if none {
				return false
			}
		}
		return true
	}
	loop := func(name string, f func() error) {
		loops.Go(name, func() {
			for {
				rc, began := cur(), time.Now()
				if err := f(); err != nil {
					mu.Lock()
					since, cl := append([]*retConn(nil), conns[rc.i:]...), closing
					mu.Unlock()
					if err == io.EOF && !cl && !p.NoDlg && !isOver() && goesOn(since, rc) {
						c.Fail("%s, begun at %v while connection %d was there or coming, failed at %v and did not go on over the next connection: %v", name, began.Sub(up0), rc.i, time.Since(up0), err)
					}
					if isOver() {
						return
					}
					time.Sleep(50 * time.Millisecond)
				}
			}
		})
	}
	if p.Loops {
		loop("Receive", func() error {
			m, err := re.Receive(context.Background())
			if err != nil {
				return err
			}
			lmu.Lock()
			gotMsgs[string(m.Data())]++
			lmu.Unlock()
			m.Done()
			return nil
		})
		loop("AcceptStream", func() error {
			sm, err := re.AcceptStream()
			if err != nil {
				return err
			}
			lmu.Lock()
			gotStreams++
			lmu.Unlock()
			_ = sm
			return nil
		})
		loop("Read", func() error {
			b := make([]byte, 100)
			n, err := re.Read(b)
			lmu.Lock()
			gotRaw = append(gotRaw, b[:n]...)
			lmu.Unlock()
			return err
		})
	}
	regMus := map[string]chan struct{}{}
	register := func(m, v string) error {
		// those of one method one after the other
		rmu.Lock()
		mm := regMus[m]
		if mm == nil {
			mm = make(chan struct{}, 1)
			regMus[m] = mm
		}
		rmu.Unlock()
		mm <- struct{}{}
		defer func() { <-mm }()
		rmu.Lock()
		i := len(regs[m])
		regs[m] = append(regs[m], regVer{v: v, began: time.Now()})
		rmu.Unlock()
		err := re.Register(context.Background(), m, handler(v))
		if err == nil {
			rmu.Lock()
			regs[m][i].ended = time.Now()
			rmu.Unlock()
		}
		return err
	}
	hijMu := make(chan struct{}, 1)
	hijack := func(v string) error {
		hijMu <- struct{}{}
		defer func() { <-hijMu }()
		var hijOpts []*options.HijackOptions
		if p.HijPat {
			hijOpts = append(hijOpts, options.Hijack())
			hijOpts[0].SetMatch(true, "^h")
		}
		rmu.Lock()
		i := len(hijs)
		hijs = append(hijs, regVer{v: v, began: time.Now()})
		rmu.Unlock()
		err := re.Hijack(func(_ context.Context, m string, req geminio.Request, rsp geminio.Response) {
			rsp.SetData([]byte(v + " " + string(req.Data())))
		}, hijOpts...)
		if err == nil {
			rmu.Lock()
			hijs[i].ended = time.Now()
			rmu.Unlock()
		}
		return err
	}
	ops := newGroup(c)
	ops.Go("registering", func() {
		if p.Hijack {
			hijack("hijack")
		}
		for i := 0; i < p.Regs; i++ {
			m := fmt.Sprintf("m%d", i)
			register(m, m)
		}
	})
	for i, o := range p.Ops {
		ops.Go(fmt.Sprintf("%s %d begun at %d ms", roNames[o.K], i, o.At), func() {
			time.Sleep(time.Until(up0.Add(ms(o.At))))
			if isOver() {
				return
			}
			data := []byte(fmt.Sprintf("op%d", i))
			began := time.Now()
			rc := cur()
			var err error
			served := true
			switch o.K {
			case roCall:
				var rsp geminio.Response
				rsp, err = re.Call(context.Background(), "echo", re.NewRequest(data))
				if err == nil && string(rsp.Data()) != "echo "+string(data) {
					c.Fail("Call gave the response %q to %q", rsp.Data(), data)
				}
			case roCallAsync:
				var call *geminio.Call
				call, err = re.CallAsync(context.Background(), "echo", re.NewRequest(data), nil)
				if err == nil {
					call = <-call.Done
					if err = call.Error; err == nil && string(call.Response.Data()) != "echo "+string(data) {
						c.Fail("CallAsync gave the response %q to %q", call.Response.Data(), data)
					}
				}
			case roPub:
				err = re.Publish(context.Background(), re.NewMessage(data))
			case roPubAsync:
				var pub *geminio.Publish
				pub, err = re.PublishAsync(context.Background(), re.NewMessage(data), nil)
				if err == nil {
					pub = <-pub.Done
					err = pub.Error
				}
			case roOpen:
				_, err = re.OpenStream(options.OpenStream())
				served = false // it waits to be accepted
			case roReg:
				m := fmt.Sprintf("late%d", i)
				err = register(m, m)
			case roReReg:
				err = register(fmt.Sprintf("m%d", i%3), fmt.Sprintf("anew%d", i))
				served = false
			case roWrite:
				_, err = re.Write(data)
				served = false
			case roHij:
				if p.Hijack {
					err = hijack(fmt.Sprintf("rehijack%d", i))
				}
				served = false
			}
			end := time.Now()
			if err != nil {
				c.Trace("op %d: %v at %v", i, err, end.Sub(up0))
				mu.Lock()
				since, cl := append([]*retConn(nil), conns[rc.i:]...), closing
				mu.Unlock()
				if !cl {
					c.Label("failed: %s: %v", roNames[o.K], err)
				}
				next := goesOn(since, rc)
				if !cl && next && !p.NoDlg && (err == io.EOF || err == multiplexer.ErrOperationOnClosedMultiplexer) && o.K != roCallAsync && o.K != roPubAsync {
					c.Fail("%s, begun at %v while connection %d was there or coming, failed at %v and did not go on over the next connection: %v", roNames[o.K], began.Sub(up0), rc.i, end.Sub(up0), err)
				}
			}
			mu.Lock()
			cl := closing
			mu.Unlock()
			rc.mu.Lock()
			// the connection was there all the time and restored
			calm := !rc.online.IsZero() && rc.alive(began, end) && (rc.i == 0 || !rc.reOn.IsZero() && rc.reOn.Before(began)) && rc == cur()
			rc.mu.Unlock()
			if rc.i == 0 && rc.alive(began, end) && began.After(up0.Add(hand)) && rc == cur() {
				calm = true
			}
			if !cl && calm && err != nil {
				c.Fail("%s on a connection that was up all the time: %v", roNames[o.K], err)
			}
			if err != nil && end.Sub(began) > time.Second && strings.HasPrefix(err.Error(), "mismatch") {
				// what it was made for is not the caller's business
				c.Fail("%s, under way when the connection was replaced: %v", roNames[o.K], err)
			}
			if calm && end.Sub(began) > hand {
				c.Fail("%s on a connection that was up took %v", roNames[o.K], end.Sub(began))
			}
			if rc != cur() && err == nil {
				c.Label("an operation went on over another connection")
			}
			if err == nil && served {
				// somebody must have got it
				n := 0
				time.Sleep(time.Millisecond) // the server may be about to note it
				mu.Lock()
				all := append([]*retConn(nil), conns...)
				mu.Unlock()
				for _, x := range all {
					x.mu.Lock()
					n += x.called[string(data)]
					for _, m := range x.published {
						if m == string(data) {
							n++
						}
					}
					if o.K == roReg && x.regs[fmt.Sprintf("late%d", i)] {
						n++
					}
					x.mu.Unlock()
				}
				if n == 0 {
					c.Fail("%s succeeded, but no server saw it", roNames[o.K])
				}
			}
		})
	}
	// wait for the last dial of the list, watching that it goes on by itself
	stuck := func() time.Duration { // how long since the last dial could have been due
		mu.Lock()
		defer mu.Unlock()
		rc := conns[len(conns)-1]
		if rc.ended.IsZero() {
			return 0
		}
		due := rc.ended
		switch {
		case rc.d.Life == limNone:
			return 0
		case rc.d.K == rdMute || rc.d.K == rdEarly:
			due = due.Add(10 * time.Second)
		case rc.d.K == rdOK:
			due = rc.dead
		}
		return time.Since(due)
	}
	// one second of waiting for the peer, the pause, slow notifications
	limit := 3*time.Second + 2*time.Second + ms(p.SlowOn)*2 + 2*hand
	for {
		time.Sleep(50 * time.Millisecond)
		if c.Failed() {
			break
		}
		if s := stuck(); s > limit {
			rc := cur()
			c.Fail("%v after connection %d (kind %d) ended, the end does not dial again by itself", s, rc.i, rc.d.K)
			break
		}
		mu.Lock()
		n := len(conns)
		mu.Unlock()
		if n > len(p.Dials) || n == len(p.Dials) && time.Since(cur().began) > ms(p.Rest) {
			break
		}
	}
	last := cur()
	if !c.Failed() && last.i >= len(p.Dials) {
		time.Sleep(ms(p.Rest))
		if p.Rest > 3000+p.SlowOn+int(hand/time.Millisecond) && !p.NoDlg {
			last.mu.Lock()
			if last.reOn.IsZero() {
				c.Fail("connection %d has been up for %d ms, but EndReOnline was not called", last.i, p.Rest)
			}
			srv := last.srv
			last.mu.Unlock()
			// it's usable, from the server too
			if srv != nil && p.Loops {
				nm, ns, nr := 0, 0, 0
				lmu.Lock()
				nm, ns, nr = gotMsgs["hello"], gotStreams, len(gotRaw)
				lmu.Unlock()
				c.within(time.Second+hand, "Publish by the server on a restored connection", func() {
					if err := srv.Publish(context.Background(), srv.NewMessage([]byte("hello"))); err != nil {
						c.Fail("Publish by the server on a restored connection: %v", err)
					}
				})
				c.within(time.Second+hand, "OpenStream by the server on a restored connection", func() {
					if _, err := srv.OpenStream(); err != nil {
						c.Fail("OpenStream by the server on a restored connection: %v", err)
					}
				})
				srv.Write([]byte("raw"))
				time.Sleep(hand)
				lmu.Lock()
				if gotMsgs["hello"] != nm+1 || gotStreams != ns+1 || len(gotRaw) != nr+3 || !strings.HasSuffix(string(gotRaw), "raw") {
					c.Fail("on a restored connection, Receive, AcceptStream, Read gave %d, %d, %d", gotMsgs["hello"]-nm, gotStreams-ns, len(gotRaw)-nr)
				}
				lmu.Unlock()
				c.Label("received on a restored connection")
			}
			last.mu.Lock()
			ok := !last.reOn.IsZero()
			last.mu.Unlock()
			if srv != nil && ok {
				retState(c, p, re, srv, last, hand)
			}
		}
	}
	if c.Failed() {
		c.Trace("dials: %d", len(conns))
	}
	mu.Lock()
	closing = true
	mu.Unlock()
	close(over)
	cg := newGroup(c)
	for k := 0; k <= b2i(p.Twice); k++ {
		cg.Go("Close", func() { re.Close() })
	}
	cg.Wait(40*time.Second, "Close of the retrying end")
	mu.Lock()
	closedAt = time.Now()
	mu.Unlock()
	ops.Wait(60*time.Second, "operations on a retrying end that was closed")
	loops.Wait(60*time.Second, "Receive, AcceptStream and Read on a retrying end that was closed")
	if _, err := re.Call(context.Background(), "echo", re.NewRequest(nil)); err != io.EOF {
		c.Fail("Call after Close: %v", err)
	}
	checks.Wait(60*time.Second, "calls by the server after the retrying end was closed")
	time.Sleep(60 * time.Second)
	mu.Lock()
	all := append([]*retConn(nil), conns...)
	mu.Unlock()
	on, off := len(crec.events("ConnOnline")), len(crec.events("ConnOffline"))
	early := 0
	for _, rc := range all {
		if rc.cconn != nil {
			rc.l.mu.Lock()
			cl := rc.cconn.closed
			rc.l.mu.Unlock()
			if !cl {
				c.Fail("the net.Conn of dial %d was never closed", rc.i)
			}
			rc.l.Cut()
		}
		if rc.d.K == rdEarly || rc.d.K == rdOK && rc.d.Life != limNone && ms(rc.d.Life) < hand {
			early++
		}
		rc.mu.Lock()
		srv := rc.srv
		rc.mu.Unlock()
		if srv != nil {
			live.Go("the server's Close", func() { srv.Close() })
		}
	}
	if !p.NoDlg && (off < on || off > on+early) {
		c.Fail("ConnOnline was called %d times, ConnOffline %d times, and at most %d connections broke before they were up", on, off, early)
	}
	live.Wait(60*time.Second, "the server ends, all connections were closed")
	time.Sleep(time.Second)
	if lo := leftover(); len(lo) > 0 && !p.Timer {
		c.Fail("goroutines left after the retrying end and all servers were closed: %s", strings.Join(lo, "; "))
	}
	if len(all) > 1 {
		c.NonTrivial()
	}
	c.Label("%d dials", min(len(all), 4))
}

// retState checks that a retrying end is the end of its connection, which is
// restored and has nothing going on.
func retState(c *Case, p planRetry, re, srv geminio.End, rc *retConn, hand time.Duration) {
	c.Label("state of a restored connection")
	if re.ClientID() != srv.ClientID() || re.StreamID() != srv.StreamID() || re.Side() != geminio.InitiatorSide || !sameBytes(re.Meta(), srv.Meta()) {
		c.Fail("over connection %d the retrying end has client ID %d, stream ID %d, side %v, meta %q, the server %d, %d, %q", rc.i,
			re.ClientID(), re.StreamID(), re.Side(), re.Meta(), srv.ClientID(), srv.StreamID(), srv.Meta())
	}
	if re.LocalAddr().String() != rc.cconn.LocalAddr().String() || re.RemoteAddr().String() != rc.cconn.RemoteAddr().String() || re.Addr().String() != rc.cconn.LocalAddr().String() {
		c.Fail("over connection %d the retrying end has the addresses %v and %v of another", rc.i, re.LocalAddr(), re.RemoteAddr())
	}
	ids := func(e geminio.End) []uint64 {
		out := []uint64{}
		for _, sm := range e.ListStreams() {
			out = append(out, sm.StreamID())
		}
		slices.Sort(out)
		return out
	}
	// some may be being opened
	for i := 0; i < 5 && !slices.Equal(ids(re), ids(srv)); i++ {
		time.Sleep(hand)
	}
	if a, b := ids(re), ids(srv); !slices.Equal(a, b) {
		c.Fail("over connection %d the retrying end lists the streams %v, the server %v", rc.i, a, b)
	}
	if p.Loops {
		return
	}
	// deadlines, one after the other
	for _, k := range []int{p.Rest % 3, (p.Rest + 1) % 3} {
		limit := time.Now().Add(300 * time.Millisecond)
		var err error
		switch k {
		case 0:
			err = re.SetDeadline(limit)
		case 1:
			err = re.SetReadDeadline(limit)
		case 2:
			err = re.SetWriteDeadline(time.Now())
		}
		if err != nil {
			c.Fail("over connection %d setting a deadline: %v", rc.i, err)
		}
		b := make([]byte, 10)
		var n int
		got := false
		if k == 2 {
			srv.Write([]byte("raw"))
		}
		got = c.within(time.Second+hand, "Read with a deadline on a restored connection", func() { n, err = re.Read(b) })
		if !got {
			return
		}
		if k == 2 {
			if err != nil || string(b[:n]) != "raw" {
				c.Fail("over connection %d Read gave %q, %v", rc.i, b[:n], err)
			}
		} else if err != os.ErrDeadlineExceeded || time.Since(limit) < -dlBlur || time.Since(limit) > 100*time.Millisecond {
			c.Fail("over connection %d Read with a deadline gave %d, %v %v after it", rc.i, n, err, time.Since(limit))
		}
		re.SetDeadline(time.Time{})
	}
	var ss, cs geminio.Stream
	var conn net.Conn
	if c.within(time.Second+hand, "OpenStream by the server and Accept on a restored connection", func() {
		var err error
		if ss, err = srv.OpenStream(); err != nil {
			c.Fail("OpenStream by the server on a restored connection: %v", err)
			return
		}
		if conn, err = re.Accept(); err != nil {
			c.Fail("Accept on a restored connection: %v", err)
			return
		}
		cs, _ = conn.(geminio.Stream)
	}) && cs != nil {
		if cs.StreamID() != ss.StreamID() || !slices.Contains(ids(re), cs.StreamID()) {
			c.Fail("over connection %d stream %d was opened by the server, Accept gave %d, listed are %v", rc.i, ss.StreamID(), cs.StreamID(), ids(re))
		}
	}
}

func init() {
	register(&Prop{
		ID:     "C20",
		Rule:   "an end that reconnects, over up to 7 dials that are slow, fail, are refused, not answered, break while being set up, or end after a while by a cut or by the server; with methods, hijack, operations of all kinds at any time, and Close at any time; non-trivial: dialed more than once",
		Gen:    genRetry,
		Run:    runRetry,
		Bubble: true,
		Quick:  450, Thorough: 12000, QuickS: 30, ThoroughS: 700,
		Assumptions: []string{"virtual clock of testing/synctest"},
	})
}
