package gv

import (
	"context"
	"encoding/json"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"pgregory.net/rapid"
)

// ---- C06: messages: delivery, order, content, acknowledgement --------------

type msg06 struct {
	Pub    int    // publisher index
	Mode   int    // 0 Publish, 1 PublishAsync, 2 at most once, 3 at most once via PublishAsync
	Data   Blob   `json:"d"`
	Custom Blob   `json:"c"`
	Topic  string `json:",omitempty"`
	SetBy  bool   `json:",omitempty"` // topic and custom through the setters rather than the options
	Gap    int    `json:",omitempty"` // ms to sleep before publishing
	Nack   string `json:",omitempty"` // receiver answers Error(Nack)
	Delay  int    `json:",omitempty"` // ms the receiver waits before answering
	Apart  bool   `json:",omitempty"` // answer from a goroutine of its own
	TO     int    `json:",omitempty"` // time limit in seconds, far beyond what it takes
}

type pub06 struct {
	Stream int
	Server bool
}

type plan06 struct {
	Rep    int `json:",omitempty"` // everything is published so many times
	Chop   int `json:",omitempty"` // each Receive waits for so many 0.1 ms only, and is called again
	Par    int `json:",omitempty"` // so many more receivers on each stream
	Link   LinkPlan
	Opened []bool // opened streams, true: from the server side
	Pubs   []pub06
	Msgs   []msg06
}

func gen06(t *rapid.T, thorough bool) any {
	p := plan06{Link: genLink(t, true)}
	p.Opened = rapid.SliceOfN(rapid.Bool(), 0, 3).Draw(t, "opened")
	p.Pubs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) pub06 {
		return pub06{Stream: rapid.IntRange(0, len(p.Opened)).Draw(t, "s"), Server: rapid.Bool().Draw(t, "srv")}
	}), 1, 4).Draw(t, "pubs")
	maxMsgs, maxLen := 40, 70000
	if thorough {
		maxMsgs, maxLen = 120, 300000
	}
	burst := rapid.Bool().Draw(t, "burst")
	p.Msgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) msg06 {
		m := msg06{
			Pub:    rapid.IntRange(0, len(p.Pubs)-1).Draw(t, "p"),
			Mode:   rapid.IntRange(0, 3).Draw(t, "mode"),
			Data:   genBlob(t, maxLen, "d"),
			Custom: genBlob(t, 200, "c"),
			Topic:  genStr(t, 12, "topic"),
			SetBy:  rapid.Bool().Draw(t, "setby"),
			Apart:  rapid.Bool().Draw(t, "apart"),
		}
		if burst && m.Mode == 0 {
			m.Mode = 1
		}
		if !burst && rapid.IntRange(0, 2).Draw(t, "gapC") == 0 {
			m.Gap = rapid.IntRange(0, 2000).Draw(t, "gap")
		}
		if rapid.IntRange(0, 3).Draw(t, "nackC") == 0 {
			m.Nack = rapid.SampledFrom([]string{"no", "EOF", "timeout", "force closed", "bad \"quoted\" é", "x"}).Draw(t, "nack")
		}
		if rapid.IntRange(0, 2).Draw(t, "delayC") == 0 {
			m.Delay = rapid.IntRange(0, 3000).Draw(t, "delay")
		}
		if rapid.IntRange(0, 4).Draw(t, "toC") == 0 {
			m.TO = rapid.IntRange(100000, 200000).Draw(t, "to")
		}
		return m
	}), genMin(t, maxMsgs, "msgs"), maxMsgs).Draw(t, "msgs")
	if rapid.IntRange(0, 29).Draw(t, "repC") == 0 {
		p.Rep = rapid.IntRange(2, 20).Draw(t, "rep")
		for i := range p.Msgs {
			m := &p.Msgs[i]
			m.Data.N, m.Gap, m.Delay = min(m.Data.N, 3000), min(m.Gap, 20), min(m.Delay, 20)
		}
	}
	if rapid.IntRange(0, 4).Draw(t, "chopC") == 0 {
		p.Chop = rapid.IntRange(50, 20000).Draw(t, "chop")
	}
	if rapid.IntRange(0, 7).Draw(t, "parC") == 0 {
		p.Par = rapid.IntRange(1, 3).Draw(t, "par")
	}
	if n, ok := genBig(t, 1500, "big"); ok {
		p.Msgs[0].Data.N, p.Rep = n, 0
		p.Link.C2S.Window, p.Link.S2C.Window, p.Link.C2S.Frag, p.Link.S2C.Frag = 0, 0, nil, nil
	}
	return p
}

type sent06 struct {
	plan     msg06
	idx      int
	id       uint64
	got      int
	acked    bool      // the receiver has called Done/Error
	ackedAt  time.Time // when
	done     bool
	doneErr  error
	doneAt   time.Time
	retErr   error
	returned bool
}

func run06(c *Case, raw json.RawMessage) {
	p := decodePlan[plan06](raw)
	if p.Rep > 1 {
		c.Label("many messages")
		once := p.Msgs
		for k := 1; k < p.Rep; k++ {
			p.Msgs = append(p.Msgs, once...)
		}
	}
	r := dialRig(c, p.Link, nil, nil, true)
	if r == nil {
		return
	}
	defer r.teardown()
	pairs, ok := r.pairs(p.Opened)
	if !ok {
		return
	}
	var mu sync.Mutex
	byID := map[string]*sent06{} // "stream/side/id"
	key := func(s int, server bool, id uint64) string { return fmt.Sprintf("%d/%v/%d", s, server, id) }
	total, bytes := time.Duration(0), 0
	for _, m := range p.Msgs {
		total += ms(m.Gap) + ms(m.Delay)
		bytes += 200 + (m.Data.N+m.Custom.N)*3/2 + len(m.Topic)*6
	}
	budget := 60*time.Second + total + p.Link.slack(bytes, 8*len(p.Msgs))

	rctx, rcancel := context.WithCancel(context.Background())
	recvd := 0
	arrived := make(chan struct{}, 1<<16)
	lastByPub := map[int]int{}
	rg := newGroup(c)
	acks := newGroup(c)
	for si := range pairs {
		for k := 0; k < 2*(p.Par+1); k++ {
			si, server := si, k%2 == 1
			sm := pairs[si][b2i(server)]
			rg.Go(fmt.Sprintf("Receive on stream %d at the %s", si, sideName(server)), func() {
				for {
					ctx, cancel := rctx, context.CancelFunc(func() {})
					from := time.Now()
					if p.Chop > 0 {
						ctx, cancel = context.WithTimeout(rctx, time.Duration(p.Chop)*100*time.Microsecond)
					}
					m, err := sm.Receive(ctx)
					cancel()
					if err == context.DeadlineExceeded && p.Chop > 0 {
						if el := time.Since(from) - time.Duration(p.Chop)*100*time.Microsecond; el < 0 || el > dlBlur {
							c.Fail("Receive with a deadline of %v returned %v after it", time.Duration(p.Chop)*100*time.Microsecond, el)
						}
						continue
					}
					if err != nil {
						if rctx.Err() == nil {
							c.Fail("Receive on stream %d at the %s failed on a healthy connection: %v", si, sideName(server), err)
						}
						return
					}
					mu.Lock()
					s := byID[key(si, !server, m.ID())]
					if s == nil {
						mu.Unlock()
						c.Fail("stream %d at the %s received a message nobody published there: id %d, %d bytes, topic %q", si, sideName(server), m.ID(), len(m.Data()), m.Topic())
						continue
					}
					s.got++
					if s.got > 1 {
						c.Fail("message %d was delivered %d times", s.idx, s.got)
					}
					// those of several receivers say nothing about the order
					if last, seen := lastByPub[s.plan.Pub]; seen && last > s.idx && p.Par == 0 {
						c.Fail("messages of one publisher arrived out of order: message %d after message %d", s.idx, last)
					}
					lastByPub[s.plan.Pub] = s.idx
					recvd++
					mu.Unlock()
					if !sameBytes(m.Data(), s.plan.Data.Bytes()) {
						c.Fail("message %d arrived with other data: %d bytes, published %d", s.idx, len(m.Data()), s.plan.Data.N)
					}
					if !sameBytes(m.Custom(), s.plan.Custom.Bytes()) {
						c.Fail("message %d arrived with other custom data: %q, published %q", s.idx, m.Custom(), s.plan.Custom.Bytes())
					}
					if m.Topic() != s.plan.Topic {
						c.Fail("message %d arrived with topic %q, published with %q", s.idx, m.Topic(), s.plan.Topic)
					}
					if m.Cnss() != s.cnss() {
						c.Fail("message %d arrived with consistency %d, published with %d", s.idx, m.Cnss(), s.cnss())
					}
					if m.Timeout() != time.Duration(s.plan.TO)*time.Second {
						c.Fail("message %d arrived with time limit %v, published with %d s", s.idx, m.Timeout(), s.plan.TO)
					}
					if m.ClientID() != sm.ClientID() || m.StreamID() != sm.StreamID() {
						c.Fail("message %d arrived with client/stream ID %d/%d on stream %d/%d", s.idx, m.ClientID(), m.StreamID(), sm.ClientID(), sm.StreamID())
					}
					answer := func() {
						time.Sleep(ms(s.plan.Delay))
						mu.Lock()
						s.acked, s.ackedAt = true, time.Now()
						mu.Unlock()
						var err error
						if s.plan.Nack != "" {
							err = m.Error(fmt.Errorf("%s", s.plan.Nack))
						} else {
							err = m.Done()
						}
						if err != nil {
							c.Fail("answering message %d failed on a healthy connection: %v", s.idx, err)
						}
					}
					if s.plan.Apart {
						acks.Go(fmt.Sprintf("answer to message %d", s.idx), answer)
					} else {
						answer()
					}
					arrived <- struct{}{}
				}
			})
		}
	}

	// judge is called once the outcome of a message is reported
	judge := func(s *sent06, err error) {
		mu.Lock()
		defer mu.Unlock()
		if s.done {
			c.Fail("message %d completed twice", s.idx)
			return
		}
		s.done, s.doneErr, s.doneAt = true, err, time.Now()
		if !s.acked {
			c.Fail("message %d completed (%v) before the receiver answered it", s.idx, err)
			return
		}
		switch {
		case s.plan.Nack == "" && err != nil:
			c.Fail("message %d failed with %q although the receiver called Done", s.idx, err)
		case s.plan.Nack != "" && err == nil:
			c.Fail("message %d succeeded although the receiver answered Error(%q)", s.idx, s.plan.Nack)
		case s.plan.Nack != "" && err.Error() != s.plan.Nack:
			c.Fail("message %d failed with %q, the receiver answered Error(%q)", s.idx, err, s.plan.Nack)
		}
	}

	g := newGroup(c)
	comp := newGroup(c)
	expect := 0
	for pi := range p.Pubs {
		pub := p.Pubs[pi]
		if pub.Stream >= len(pairs) {
			pub.Stream = 0
		}
		sm := pairs[pub.Stream][b2i(pub.Server)]
		var mine []*sent06
		for i := range p.Msgs {
			if p.Msgs[i].Pub == pi {
				mine = append(mine, &sent06{plan: p.Msgs[i], idx: i})
			}
		}
		expect += len(mine)
		g.Go(fmt.Sprintf("publisher %d", pi), func() {
			for _, s := range mine {
				time.Sleep(ms(s.plan.Gap))
				m := mk06(sm, s)
				s.id = m.ID()
				mu.Lock()
				byID[key(pub.Stream, pub.Server, s.id)] = s
				mu.Unlock()
				var po []*options.PublishOptions
				if s.plan.TO > 0 {
					if s.plan.SetBy {
						m.SetTimeout(time.Duration(s.plan.TO) * time.Second)
					} else {
						po = append(po, options.Publish())
						po[0].SetTimeout(time.Duration(s.plan.TO) * time.Second)
					}
				}
				switch s.plan.Mode {
				case 0:
					judge(s, sm.Publish(context.Background(), m, po...))
				case 1:
					pb, err := sm.PublishAsync(context.Background(), m, nil, po...)
					if err != nil || pb == nil {
						c.Fail("PublishAsync of message %d on a healthy connection: %v", s.idx, err)
						continue
					}
					comp.Go(fmt.Sprintf("completion of message %d", s.idx), func() {
						d := <-pb.Done
						if d != pb || d.Message == nil || d.Message.ID() != m.ID() {
							c.Fail("the completion of message %d is not the one returned by PublishAsync", s.idx)
						}
						judge(s, d.Error)
					})
				case 2:
					if err := sm.Publish(context.Background(), m, po...); err != nil {
						c.Fail("at-most-once Publish of message %d on a healthy connection: %v", s.idx, err)
					}
				default:
					if _, err := sm.PublishAsync(context.Background(), m, nil, po...); err != nil {
						c.Fail("at-most-once PublishAsync of message %d on a healthy connection: %v", s.idx, err)
					}
				}
			}
		})
	}
	if g.Wait(budget, "publishing over a healthy connection") && comp.Wait(budget, "waiting for completions over a healthy connection") {
		deadline := time.NewTimer(budget)
		n := 0
	loop:
		for n < expect {
			select {
			case <-arrived:
				n++
			case <-deadline.C:
				c.Fail("only %d of %d published messages arrived within %v", n, expect, budget)
				break loop
			}
		}
		deadline.Stop()
		acks.Wait(budget, "answering messages")
	}
	time.Sleep(time.Second)
	rcancel()
	rg.Wait(time.Minute, "Receive after its context was cancelled")
	modes := map[int]bool{}
	for _, m := range p.Msgs {
		modes[m.Mode] = true
		c.Label("mode%d", m.Mode)
		if m.Nack != "" {
			c.Label("nack")
		}
		if m.Data.N > 65536 {
			c.Label("big")
		}
	}
	if expect >= 2 && len(pairs) > 0 {
		c.NonTrivial()
	}
	c.Label("streams%d", len(pairs))
	if p.Chop > 0 {
		c.Label("receive with a deadline")
	}
	if p.Par > 0 {
		c.Label("several receivers")
	}
}

// cnss gives the consistency it's published with, 0 if it's unset.
func (s *sent06) cnss() options.Cnss {
	switch {
	case s.plan.Mode >= 2:
		return options.CnssAtMostOnce
	case s.idx%2 == 0:
		return options.CnssAtLeastOnce
	}
	return 0
}

func mk06(sm geminio.Stream, s *sent06) geminio.Message {
	o := options.NewMessage()
	if n := s.cnss(); n != 0 {
		o.SetCnss(n)
	}
	if !s.plan.SetBy {
		if s.plan.Topic != "" {
			o.SetTopic(s.plan.Topic)
		}
		o.SetCustom(s.plan.Custom.Bytes())
	}
	m := sm.NewMessage(s.plan.Data.Bytes(), o)
	if s.plan.SetBy {
		m.SetTopic(s.plan.Topic)
		m.SetCustom(s.plan.Custom.Bytes())
	}
	return m
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Prop{
		ID:     "C06",
		Rule:   "histories of messages over 1-4 streams and 1-4 concurrent publishers on both sides of a connection with generated latency and fragmentation; non-trivial: at least two messages",
		Gen:    gen06,
		Run:    run06,
		Bubble: true,
		Quick:  1500, Thorough: 20000,
		QuickS: 40, ThoroughS: 700,
		Assumptions: []string{"TCP-like in-memory connection that neither loses nor reorders bytes", "virtual clock of testing/synctest"},
	})
}
