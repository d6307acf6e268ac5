package gv

import (
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/application"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"pgregory.net/rapid"
)

// ---- C25: messages, requests and responses as values ------------------------------

// vOp makes a message or request at one stream and gives it to another.
type vOp struct {
	Lane   int
	K      int  // as in load.go, without kRaw
	From   int  // stream side that makes it
	To     int  // stream side that sends it
	Set    bool `json:",omitempty"` // its IDs are set to those of To
	N      int
	Topic  int  `json:",omitempty"`
	Custom int  `json:",omitempty"`
	Late   bool `json:",omitempty"` // topic and custom are set afterwards
	TO     bool `json:",omitempty"` // it has a time limit, which is long
	Ans    int  `json:",omitempty"` // 0: done, 1: error, 2: done then error, 3: error then done
	Pass   int  `json:",omitempty"` // 1+stream side the receiver passes it on to
	PSet   bool `json:",omitempty"` // with its IDs set to those
	PMod   bool `json:",omitempty"` // with topic and custom changed
	PFirst bool `json:",omitempty"` // answered before it is passed on
	Junk   bool `json:",omitempty"` // the handler sets the response's IDs to something else
}

type planVal struct {
	Links  []LinkPlan
	Same   bool     `json:",omitempty"` // the clients have the same ID
	Opened [][]bool // per connection
	Ops    []vOp
}

func genVal(t *rapid.T, thorough bool) any {
	var p planVal
	n := 0
	for i := rapid.IntRange(1, 3).Draw(t, "conns"); i > 0; i-- {
		p.Links = append(p.Links, genLink(t, true))
		o := rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "opened")
		p.Opened = append(p.Opened, o)
		n += 2 * (len(o) + 1)
	}
	p.Same = rapid.IntRange(0, 3).Draw(t, "same") == 0
	maxOps := 24
	if thorough {
		maxOps = 60
	}
	side := rapid.IntRange(0, n-1)
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) vOp {
		o := vOp{
			Lane:   rapid.IntRange(0, 3).Draw(t, "lane"),
			K:      rapid.IntRange(0, kCallAsync).Draw(t, "k"),
			From:   side.Draw(t, "from"),
			N:      genLen(t, 3000, "n"),
			Topic:  rapid.IntRange(0, 2).Draw(t, "topic"),
			Custom: rapid.IntRange(0, 2).Draw(t, "custom"),
			Late:   rapid.Bool().Draw(t, "late"),
			TO:     rapid.IntRange(0, 3).Draw(t, "to") == 0,
			Ans:    rapid.IntRange(0, 3).Draw(t, "ans"),
			Junk:   rapid.Bool().Draw(t, "junk"),
		}
		o.To = o.From
		if rapid.IntRange(0, 2).Draw(t, "toC") > 0 {
			o.To = side.Draw(t, "toS")
			o.Set = rapid.Bool().Draw(t, "set")
		}
		if rapid.IntRange(0, 2).Draw(t, "passC") == 0 {
			o.Pass = 1 + side.Draw(t, "pass")
			o.PSet = rapid.IntRange(0, 3).Draw(t, "pset") > 0
			o.PMod = rapid.Bool().Draw(t, "pmod")
			o.PFirst = rapid.Bool().Draw(t, "pfirst")
		}
		return o
	}), genMin(t, maxOps, "ops"), maxOps).Draw(t, "ops")
	return p
}

// vSeen is one arrival.
type vSeen struct {
	at   int
	when time.Time
}

type vState struct {
	vOp
	i      int
	id     uint64
	sent   bool // it was given to a stream that should take it
	seen   []vSeen
	want   []int // where it should arrive, in order
	topic  string
	custom string
}

type vals struct {
	c    *Case
	p    planVal
	s    []geminio.Stream
	mu   sync.Mutex
	ops  []*vState
	used map[[2]uint64]bool
	aux  *group
	lim  time.Duration
}

const vMethod = "value"

func vText(kind string, n int) string {
	if n == 0 {
		return ""
	}
	return fmt.Sprintf("%s-%d", kind, n)
}

func (o *vState) payload() []byte { return pattern(8+o.N, uint32(o.i)) }

// take reserves an ID among those of the stream side, where none is used twice.
func (v *vals) take(side int, id uint64) bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	k := [2]uint64{uint64(side), id}
	if v.used[k] {
		v.c.Label("ID used before")
		return false
	}
	v.used[k] = true
	return true
}

// fits says what giving something with these IDs to a stream side must return.
func (v *vals) fits(side int, clientID, streamID uint64) error {
	switch {
	case clientID != v.s[side].ClientID():
		return application.ErrMismatchClientID
	case streamID != v.s[side].StreamID():
		return application.ErrMismatchStreamID
	}
	return nil
}

// arrived judges an arrival at a stream side, and says whether it is the first.
func (v *vals) arrived(side int, what string, b []byte, id, clientID, streamID uint64) (o *vState, first bool) {
	if len(b) < 8 || int(binary.BigEndian.Uint32(b)) >= len(v.ops) {
		v.c.Fail("something of %d bytes arrived at stream side %d that was never sent", len(b), side)
		return nil, false
	}
	o = v.ops[binary.BigEndian.Uint32(b)]
	s := v.s[side]
	v.mu.Lock()
	defer v.mu.Unlock()
	n := len(o.seen)
	o.seen = append(o.seen, vSeen{side, time.Now()})
	if n >= len(o.want) || o.want[n] != side {
		v.c.Fail("%s of op %d arrived at stream side %d as number %d, it should arrive at %v", what, o.i, side, n, o.want)
		return nil, false
	}
	if !sameBytes(b, o.payload()) {
		v.c.Fail("%s of op %d arrived changed", what, o.i)
	}
	if id != o.id {
		v.c.Fail("%s of op %d has the ID %d where it arrived, it was %d", what, o.i, id, o.id)
	}
	if clientID != s.ClientID() || streamID != s.StreamID() {
		v.c.Fail("%s of op %d names client %d and stream %d, it arrived over client %d and stream %d",
			what, o.i, clientID, streamID, s.ClientID(), s.StreamID())
	}
	return o, n == 0
}

// attrs compares what else the one who receives sees.
func (v *vals) attrs(o *vState, first bool, what, topic, custom string) {
	wt, wc := o.topic, o.custom
	if !first && o.PMod {
		wt, wc = "changed topic", "changed custom"
	}
	if topic != wt || custom != wc {
		v.c.Fail("%s of op %d arrived (first: %v) with topic %q and custom data %q, not %q and %q", what, o.i, first, topic, custom, wt, wc)
	}
}

func (v *vals) receive(side int) {
	s := v.s[side]
	for {
		m, err := s.Receive(context.Background())
		if err != nil {
			return
		}
		o, first := v.arrived(side, "the message", m.Data(), m.ID(), m.ClientID(), m.StreamID())
		if o == nil {
			continue
		}
		topic := m.Topic()
		if o.K >= kCall {
			v.c.Fail("the request of op %d was received as a message", o.i)
		}
		v.attrs(o, first, "the message", topic, string(m.Custom()))
		if (m.Cnss() == options.CnssAtMostOnce) != (o.K == kAtMostOnce) {
			v.c.Fail("the message of op %d arrived with consistency %v", o.i, m.Cnss())
		}
		if want := map[bool]time.Duration{true: v.lim}[o.TO]; m.Timeout() != want {
			v.c.Fail("the message of op %d arrived with the time limit %v, not %v", o.i, m.Timeout(), want)
		}
		answer := func() {
			if o.K == kAtMostOnce {
				return
			}
			e := errors.New(fmt.Sprintf("refused %d", o.i))
			f := []func() error{m.Done}
			switch o.Ans {
			case 1:
				f = []func() error{func() error { return m.Error(e) }}
			case 2:
				f = append(f, func() error { return m.Error(e) })
			case 3:
				f = []func() error{func() error { return m.Error(e) }, m.Done}
			}
			for _, g := range f {
				if err := g(); err != nil {
					v.c.Fail("answering op %d: %v", o.i, err)
				}
			}
		}
		if !first || o.Pass == 0 {
			answer()
			continue
		}
		v.aux.Go(fmt.Sprintf("passing on op %d", o.i), func() {
			if o.PFirst {
				answer()
			}
			if o.PMod {
				m.SetTopic("changed topic")
				m.SetCustom([]byte("changed custom"))
			}
			x := o.Pass - 1
			if o.PSet {
				m.SetClientID(v.s[x].ClientID())
				m.SetStreamID(v.s[x].StreamID())
			}
			want := v.fits(x, m.ClientID(), m.StreamID())
			if want == nil {
				if !v.take(x, m.ID()) {
					if !o.PFirst {
						answer()
					}
					return
				}
				v.mu.Lock()
				o.want = append(o.want, x^1)
				v.mu.Unlock()
			}
			err := v.s[x].Publish(context.Background(), m)
			v.judge(o, "passing on the message", want, err)
			if !o.PFirst {
				answer()
			}
			v.c.Label("passed on")
		})
	}
}

// judge compares the outcome of sending with what it has to be.
func (v *vals) judge(o *vState, what string, want, err error) {
	if want != nil {
		if err != want {
			v.c.Fail("%s of op %d to a stream it is not of returned %v, not %v", what, o.i, err, want)
		}
		return
	}
	bad := (o.Ans == 1 || o.Ans == 3) && o.K != kAtMostOnce
	switch {
	case !bad && err != nil:
		v.c.Fail("%s of op %d: %v", what, o.i, err)
	case bad && (err == nil || err.Error() != fmt.Sprintf("refused %d", o.i)):
		v.c.Fail("%s of op %d, which is refused, returned %v", what, o.i, err)
	}
}

func (v *vals) serve(side int) func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
	return func(ctx context.Context, req geminio.Request, rsp geminio.Response) {
		o, first := v.arrived(side, "the request", req.Data(), req.ID(), req.ClientID(), req.StreamID())
		if o == nil {
			return
		}
		if o.K < kCall {
			v.c.Fail("the message of op %d was received as a request", o.i)
		}
		custom := o.custom
		if !first && o.PMod {
			custom = "changed custom"
		}
		if req.Method() != vMethod || string(req.Custom()) != custom {
			v.c.Fail("the request of op %d arrived with method %q and custom data %q, not %q", o.i, req.Method(), req.Custom(), custom)
		}
		if rsp.ID() != req.ID() || rsp.Method() != vMethod || rsp.ClientID() != req.ClientID() || rsp.StreamID() != req.StreamID() {
			v.c.Fail("the response of op %d has ID %d, method %q, client %d, stream %d, its request ID %d, client %d, stream %d",
				o.i, rsp.ID(), rsp.Method(), rsp.ClientID(), rsp.StreamID(), req.ID(), req.ClientID(), req.StreamID())
		}
		if first && o.Pass != 0 {
			x := o.Pass - 1
			if o.PSet {
				req.SetClientID(v.s[x].ClientID())
				req.SetStreamID(v.s[x].StreamID())
			}
			if o.PMod {
				req.SetCustom([]byte("changed custom"))
			}
			want := v.fits(x, req.ClientID(), req.StreamID())
			if want != nil || v.take(x, req.ID()) {
				if want == nil {
					v.mu.Lock()
					o.want = append(o.want, x^1)
					v.mu.Unlock()
				}
				r, err := v.s[x].Call(ctx, vMethod, req)
				v.judge(o, "passing on the request", want, err)
				if want == nil && err == nil {
					v.response(o, x, r)
				}
				v.c.Label("passed on")
			}
		}
		switch o.Ans {
		case 1, 3:
			rsp.SetError(fmt.Errorf("refused %d", o.i))
		}
		if o.Junk {
			rsp.SetClientID(1)
			rsp.SetStreamID(1 << 40)
		}
		rsp.SetData(pattern(8+o.N/2, uint32(o.i)+7777))
		rsp.SetCustom([]byte(fmt.Sprintf("custom answer %d", o.i)))
	}
}

func (v *vals) response(o *vState, side int, r geminio.Response) {
	if r == nil {
		v.c.Fail("op %d: neither a response nor an error", o.i)
		return
	}
	s := v.s[side]
	if r.ID() != o.id || r.Method() != vMethod || r.ClientID() != s.ClientID() || r.StreamID() != s.StreamID() || r.Error() != nil {
		v.c.Fail("the response to op %d has ID %d, method %q, client %d, stream %d, error %v, not %d, %q, %d, %d and none",
			o.i, r.ID(), r.Method(), r.ClientID(), r.StreamID(), r.Error(), o.id, vMethod, s.ClientID(), s.StreamID())
	}
	if !sameBytes(r.Data(), pattern(8+o.N/2, uint32(o.i)+7777)) || string(r.Custom()) != fmt.Sprintf("custom answer %d", o.i) {
		v.c.Fail("the response to op %d arrived changed", o.i)
	}
}

// do makes, gives away and judges one operation.
func (v *vals) do(o *vState) {
	from := v.s[o.From]
	o.topic, o.custom = vText("topic", o.Topic), vText("custom", o.Custom)
	var m geminio.Message
	var req geminio.Request
	type value interface {
		ID() uint64
		ClientID() uint64
		StreamID() uint64
		SetClientID(uint64)
		SetStreamID(uint64)
		SetTimeout(time.Duration)
		SetCustom([]byte)
	}
	var x value
	if o.K < kCall {
		mo := options.NewMessage()
		if o.K == kAtMostOnce {
			mo.SetCnss(options.CnssAtMostOnce)
		}
		if !o.Late && o.Topic > 0 {
			mo.SetTopic(o.topic)
		}
		if !o.Late && o.Custom > 0 {
			mo.SetCustom([]byte(o.custom))
		}
		m = from.NewMessage(o.payload(), mo)
		if o.Late {
			m.SetTopic(o.topic)
		}
		x = m
	} else {
		ro := options.NewRequest()
		if !o.Late && o.Custom > 0 {
			ro.SetCustom([]byte(o.custom))
		}
		req = from.NewRequest(o.payload(), ro)
		x = req
	}
	if o.Late {
		x.SetCustom([]byte(o.custom))
	}
	if o.TO {
		x.SetTimeout(v.lim)
	}
	o.id = x.ID()
	if x.ClientID() != from.ClientID() || x.StreamID() != from.StreamID() {
		v.c.Fail("op %d was made at client %d, stream %d and names client %d, stream %d", o.i, from.ClientID(), from.StreamID(), x.ClientID(), x.StreamID())
	}
	if o.Set {
		x.SetClientID(v.s[o.To].ClientID())
		x.SetStreamID(v.s[o.To].StreamID())
	}
	targets := []int{o.To}
	if v.fits(o.To, x.ClientID(), x.StreamID()) != nil {
		// it is still good for its own
		targets = append(targets, o.From)
		v.c.Label("refused")
		v.c.NonTrivial()
	} else if o.To != o.From {
		v.c.Label("sent by another")
		v.c.NonTrivial()
	}
	for _, to := range targets {
		want := v.fits(to, x.ClientID(), x.StreamID())
		if want == nil {
			if !v.take(to, x.ID()) {
				return
			}
			v.mu.Lock()
			o.want = append(o.want, to^1)
			v.mu.Unlock()
		}
		s := v.s[to]
		ctx := context.Background()
		switch o.K {
		case kPublish, kAtMostOnce:
			v.judge(o, "Publish", want, s.Publish(ctx, m))
		case kPublishAsync:
			pb, err := s.PublishAsync(ctx, m, nil)
			if want == nil && err == nil {
				if pb == nil {
					v.c.Fail("PublishAsync of op %d returned nothing", o.i)
					return
				}
				<-pb.Done
				if pb.Message != m {
					v.c.Fail("PublishAsync of op %d completed for another message", o.i)
				}
				err = pb.Error
			}
			v.judge(o, "PublishAsync", want, err)
		case kCall:
			r, err := s.Call(ctx, vMethod, req)
			v.judge(o, "Call", want, err)
			if want == nil && err == nil {
				v.response(o, to, r)
			}
		case kCallAsync:
			cl, err := s.CallAsync(ctx, vMethod, req, nil)
			var r geminio.Response
			if want == nil && err == nil {
				<-cl.Done
				if cl.Request != req || cl.Method != vMethod {
					v.c.Fail("CallAsync of op %d completed for another request", o.i)
				}
				err, r = cl.Error, cl.Response
			}
			v.judge(o, "CallAsync", want, err)
			if want == nil && err == nil {
				v.response(o, to, r)
			}
		}
	}
}

func runVal(c *Case, raw json.RawMessage) {
	p := decodePlan[planVal](raw)
	v := &vals{c: c, p: p, used: map[[2]uint64]bool{}, aux: newGroup(c)}
	budget := 60 * time.Second
	var rigs []*rig
	defer func() {
		for _, r := range rigs {
			r.teardown()
		}
	}()
	for i, l := range p.Links {
		co := client.NewEndOptions()
		if p.Same {
			co.SetClientID(4242)
		}
		r := dialRig(c, l, co, nil, true)
		if r == nil {
			return
		}
		rigs = append(rigs, r)
		pairs, ok := r.pairs(p.Opened[i])
		if !ok {
			return
		}
		for _, pr := range pairs {
			v.s = append(v.s, pr[0], pr[1])
		}
		budget += l.slack(0, 40*len(p.Ops)+40)
		for _, o := range p.Ops {
			budget += l.slack(4*(o.N+300), 0)
		}
	}
	v.lim = 2 * budget
	for i, o := range p.Ops {
		v.ops = append(v.ops, &vState{vOp: o, i: i})
	}
	recv := newGroup(c)
	for side, s := range v.s {
		if err := s.Register(context.Background(), vMethod, v.serve(side)); err != nil {
			c.Fail("Register: %v", err)
			return
		}
		recv.Go(fmt.Sprintf("Receive at stream side %d", side), func() { v.receive(side) })
	}
	lanes := newGroup(c)
	for lane := 0; lane < 4; lane++ {
		lanes.Go(fmt.Sprintf("lane %d", lane), func() {
			for _, o := range v.ops {
				if o.Lane == lane {
					v.do(o)
				}
			}
		})
	}
	if lanes.Wait(budget, "sending") && v.aux.Wait(budget, "passing on") {
		// those without acknowledgement are under way
		end := time.Now().Add(budget)
		for {
			miss := ""
			v.mu.Lock()
			for _, o := range v.ops {
				if len(o.seen) < len(o.want) {
					miss = fmt.Sprintf("op %d (%s) arrived %d times of %d", o.i, kindNames[o.K], len(o.seen), len(o.want))
				}
			}
			v.mu.Unlock()
			if miss == "" && len(v.aux.Running()) == 0 {
				break
			}
			if time.Now().After(end) {
				c.Fail("after %v: %s", budget, miss)
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(2 * time.Second)
		c.Label("conns%d", len(p.Links))
	}
	for _, r := range rigs {
		r.teardown()
	}
	rigs = nil
	recv.Wait(60*time.Second, "Receive after the ends closed")
}

func init() {
	register(&Prop{
		ID:     "C25",
		Rule:   "up to 24 messages and requests on 1-3 connections of up to 4 streams each, made at one side of one stream and given to any other, as they are or with the IDs set, answered once or twice and passed on by those who receive them; non-trivial: one was given to a stream that did not make it",
		Gen:    genVal,
		Run:    runVal,
		Bubble: true,
		Quick:  1500, Thorough: 30000, QuickS: 30, ThoroughS: 400,
		Assumptions: []string{"TCP-like in-memory connection that neither loses nor reorders bytes", "virtual clock of testing/synctest",
			"no ID is sent twice by the same side of a stream"},
	})
}
