package gv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// ---- C04: the handshake -------------------------------------------------------

const (
	idZero   = iota // the delegate leaves the ID to the library
	idWanted        // the delegate grants the wanted ID
	idFixed         // the delegate chooses
	idRefuse        // the delegate refuses
)

type hsClient struct {
	Link   LinkPlan
	At     int    `json:",omitempty"` // ms
	Meta   Blob   // after the prefix that names the client
	Wanted uint64 `json:",omitempty"`
	GetID  int    `json:",omitempty"`
	Fixed  uint64 `json:",omitempty"`
	Refuse string `json:",omitempty"` // text of the refusing GetClientID
	On     string `json:",omitempty"` // text of the refusing ConnOnline
	Slow   int    `json:",omitempty"` // ms the delegate takes
	Dlg    bool   `json:",omitempty"` // the client has a delegate
	Buf    int    `json:",omitempty"` // buffer size option
}

type planHS struct {
	Dlg     bool // the server has a delegate
	Shared  bool // all servers share one options object
	Clients []hsClient
}

func genErrText(t *rapid.T, label string) string {
	s := rapid.SampledFrom([]string{"refused", "no", "x\ny", "\"quoted\" \\ é 日本", " "}).Draw(t, label)
	if rapid.IntRange(0, 5).Draw(t, label+"L") == 0 {
		s += strings.Repeat("z", rapid.IntRange(0, 3000).Draw(t, label+"N"))
	}
	return s
}

func genHS(t *rapid.T, thorough bool) any {
	p := planHS{Dlg: rapid.IntRange(0, 4).Draw(t, "dlg") > 0, Shared: rapid.Bool().Draw(t, "shared")}
	maxC := 8
	if thorough {
		maxC = 24
	}
	p.Clients = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) hsClient {
		h := hsClient{Link: genLink(t, true), Meta: genBlob(t, 3000, "meta"), Dlg: rapid.Bool().Draw(t, "cdlg")}
		if rapid.Bool().Draw(t, "atC") {
			h.At = rapid.IntRange(0, 200).Draw(t, "at")
		}
		if rapid.Bool().Draw(t, "wantC") {
			h.Wanted = genU64(t, "wanted")
		}
		if rapid.IntRange(0, 3).Draw(t, "bufC") == 0 {
			h.Buf = rapid.IntRange(1, 64).Draw(t, "buf")
		}
		if p.Dlg {
			h.GetID = rapid.IntRange(idZero, idRefuse).Draw(t, "getid")
			switch h.GetID {
			case idFixed:
				h.Fixed = genU64(t, "fixed")
			case idRefuse:
				h.Refuse = genErrText(t, "refuse")
				if rapid.Bool().Draw(t, "refuseIDC") {
					h.Fixed = genU64(t, "refuseID") // returned along with the error
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "onC") == 0 {
				h.On = genErrText(t, "on")
			}
			if rapid.IntRange(0, 3).Draw(t, "slowC") == 0 {
				h.Slow = rapid.IntRange(0, 2500).Draw(t, "slow")
			}
		}
		return h
	}), 1, maxC).Draw(t, "clients")
	return p
}

func hsMeta(i int, b Blob) []byte {
	return append([]byte(strconv.Itoa(i)+":"), b.Bytes()...)
}

func hsIndex(meta []byte) int {
	k, _, ok := strings.Cut(string(meta), ":")
	i, err := strconv.Atoi(k)
	if !ok || err != nil {
		return -1
	}
	return i
}

func runHS(c *Case, raw json.RawMessage) {
	p := decodePlan[planHS](raw)
	var mu sync.Mutex
	assigned := map[uint64]int{}
	srec := &rec{c: c}
	of := func(meta []byte) *hsClient {
		i := hsIndex(meta)
		if i < 0 || i >= len(p.Clients) || !sameBytes(meta, hsMeta(i, p.Clients[i].Meta)) {
			c.Fail("the delegate of the server was given the meta %q, which no client has", trunc(string(meta), 60))
			return nil
		}
		return &p.Clients[i]
	}
	srec.getID = func(wanted uint64, meta []byte) (uint64, error) {
		h := of(meta)
		if h == nil {
			return 0, nil
		}
		time.Sleep(ms(h.Slow))
		if wanted != h.Wanted {
			c.Fail("GetClientID was asked for the ID %d, the client wants %d", wanted, h.Wanted)
		}
		switch h.GetID {
		case idWanted:
			return wanted, nil
		case idFixed:
			return h.Fixed, nil
		case idRefuse:
			return h.Fixed, errors.New(h.Refuse)
		}
		return 0, nil
	}
	srec.on = func(d delegate.ConnDescriber) error {
		h := of(d.Meta())
		if h == nil {
			return nil
		}
		time.Sleep(ms(h.Slow) / 2)
		if h.On != "" {
			return errors.New(h.On)
		}
		return nil
	}
	shared := server.NewEndOptions()
	if p.Dlg {
		shared.SetDelegate(srvRec{srec})
	}
	g := newGroup(c)
	type res struct {
		r   *rig
		rec *rec
	}
	out := make([]res, len(p.Clients))
	for i := range p.Clients {
		i, h := i, p.Clients[i]
		g.Go(fmt.Sprintf("client %d", i), func() {
			time.Sleep(ms(h.At))
			co, so := client.NewEndOptions(), server.NewEndOptions()
			so.Delegate = shared.Delegate
			co.SetMeta(hsMeta(i, h.Meta))
			if h.Wanted != 0 {
				co.SetClientID(h.Wanted)
			}
			if h.Buf > 0 {
				co.SetBufferSize(h.Buf, h.Buf)
				so.SetBufferSize(h.Buf, h.Buf)
			}
			if p.Shared {
				so = shared
			}
			out[i].rec = &rec{c: c}
			if h.Dlg {
				co.SetDelegate(cliRec{out[i].rec})
			}
			out[i].r = dialRig(c, h.Link, co, so, false)
		})
	}
	if !g.Wait(3*time.Minute, "handshakes") {
		return
	}
	accepted := 0
	for i, h := range p.Clients {
		r := out[i].r
		if r == nil {
			continue
		}
		refuse := ""
		switch {
		case h.GetID == idRefuse:
			refuse = h.Refuse
		case h.On != "":
			refuse = h.On
		}
		who := fmt.Sprintf("client %d", i)
		if refuse != "" {
			c.Label("refused")
			if r.cerr == nil || r.serr == nil {
				c.Fail("%s was refused with %q: its end came up: %v, that of the server: %v", who, trunc(refuse, 40), r.cerr == nil, r.serr == nil)
				continue
			}
			if r.cerr.Error() != refuse {
				c.Fail("%s was refused with %q but got %q", who, trunc(refuse, 60), trunc(r.cerr.Error(), 60))
			}
			continue
		}
		if r.cerr != nil || r.serr != nil {
			c.Fail("%s was not refused, but the handshake failed: client %v, server %v", who, r.cerr, r.serr)
			continue
		}
		accepted++
		want := uint64(0)
		switch h.GetID {
		case idWanted:
			want = h.Wanted
		case idFixed:
			want = h.Fixed
		}
		cid, sid := r.cli.ClientID(), r.srv.ClientID()
		if cid != sid {
			c.Fail("%s: the two ends disagree on the client ID: client %d, server %d", who, cid, sid)
		}
		if want != 0 && sid != want {
			c.Fail("%s: the delegate of the server chose the ID %d, but it is %d", who, want, sid)
		}
		if want == 0 {
			c.Label("assigned by the library")
			mu.Lock()
			if by, dup := assigned[sid]; dup || sid == 0 {
				c.Fail("%s was assigned the ID %d, as client %d was", who, sid, by)
			}
			assigned[sid] = i
			mu.Unlock()
		}
		for _, e := range []struct {
			n string
			e geminio.End
		}{{"client", r.cli}, {"server", r.srv}} {
			if !sameBytes(e.e.Meta(), hsMeta(i, h.Meta)) {
				c.Fail("%s: the meta at the %s is %q", who, e.n, trunc(string(e.e.Meta()), 60))
			}
			if e.e.StreamID() != 1 {
				c.Fail("%s: the default stream at the %s has ID %d", who, e.n, e.e.StreamID())
			}
		}
		if r.cli.Side() != geminio.InitiatorSide || r.srv.Side() != geminio.RecipientSide {
			c.Fail("%s: the sides of the ends are %v and %v", who, r.cli.Side(), r.srv.Side())
		}
		if r.cli.LocalAddr().String() != r.cconn.LocalAddr().String() || r.cli.RemoteAddr().String() != r.cconn.RemoteAddr().String() ||
			r.srv.LocalAddr().String() != r.sconn.LocalAddr().String() || r.srv.RemoteAddr().String() != r.sconn.RemoteAddr().String() ||
			r.cli.Addr().String() != r.cconn.LocalAddr().String() {
			c.Fail("%s: the addresses of the ends are not those of the connection", who)
		}
	}
	if p.Dlg {
		gets, ons, offs := map[int]int{}, map[int]int{}, map[int]int{}
		for _, e := range srec.events("") {
			i := hsIndex([]byte(e.Meta))
			switch e.What {
			case "GetClientID":
				gets[i]++
			case "ConnOnline":
				ons[i]++
				if i >= 0 && i < len(p.Clients) && out[i].r != nil && out[i].r.srv != nil && e.Client != out[i].r.srv.ClientID() {
					c.Fail("client %d: ConnOnline was told the ID %d, the end has %d", i, e.Client, out[i].r.srv.ClientID())
				}
			case "ConnOffline":
				offs[i]++
			}
		}
		for i, h := range p.Clients {
			if gets[i] != 1 {
				c.Fail("client %d: GetClientID was called %d times", i, gets[i])
			}
			if w := b2i(h.GetID != idRefuse); ons[i] != w {
				c.Fail("client %d: ConnOnline was called %d times, expected %d", i, ons[i], w)
			}
			if offs[i] != 0 {
				c.Fail("client %d: ConnOffline was called while it is online, or never was", i)
			}
		}
	}
	// every accepted one works, and says so under its own ID
	g = newGroup(c)
	for i := range out {
		i := i
		r := out[i].r
		if r == nil || r.cli == nil || r.srv == nil {
			continue
		}
		g.Go(fmt.Sprintf("publish of client %d", i), func() {
			err := r.cli.Publish(context.Background(), r.cli.NewMessage([]byte(fmt.Sprint(i))))
			if err != nil {
				c.Fail("client %d: publishing after the handshake: %v", i, err)
			}
		})
		g.Go(fmt.Sprintf("receive from client %d", i), func() {
			m, err := r.srv.Receive(context.Background())
			if err != nil {
				c.Fail("client %d: receiving after the handshake: %v", i, err)
				return
			}
			if string(m.Data()) != fmt.Sprint(i) || m.ClientID() != r.cli.ClientID() {
				c.Fail("client %d: the server end received %q from the client ID %d", i, m.Data(), m.ClientID())
			}
			m.Done()
		})
	}
	g.Wait(time.Minute, "first messages")
	time.Sleep(20 * time.Second)
	// refused ones leave no connection behind
	for i := range out {
		if r := out[i].r; r != nil && r.cerr != nil && r.serr != nil {
			r.l.mu.Lock()
			cc, sc := r.cconn.closed, r.sconn.closed
			r.l.mu.Unlock()
			if !cc || !sc {
				c.Fail("client %d was refused, but 20 s later its connection is still open: at the client %v, at the server %v", i, !cc, !sc)
			}
		}
	}
	g = newGroup(c)
	for i := range out {
		if out[i].r != nil {
			r := out[i].r
			g.Go("teardown", r.teardown)
		}
	}
	g.Wait(5*time.Minute, "closing all ends")
	if p.Dlg {
		offs := map[int]int{}
		for _, e := range srec.events("ConnOffline") {
			offs[hsIndex([]byte(e.Meta))]++
		}
		for i := range p.Clients {
			if r := out[i].r; r != nil && offs[i] != b2i(r.srv != nil) {
				c.Fail("client %d: ConnOffline was called %d times", i, offs[i])
			}
		}
	}
	c.Label("accepted%d", min(accepted, 5))
	if len(p.Clients) > 1 || p.Dlg {
		c.NonTrivial()
	}
}

func init() {
	register(&Prop{
		ID:     "C04",
		Rule:   "1-8 clients that connect at the same time with generated wanted IDs, metas, links and buffer sizes to servers whose delegate (if any) leaves, grants, chooses or refuses the ID, and admits or refuses, at once or slowly; non-trivial: a delegate or several clients",
		Gen:    genHS,
		Run:    runHS,
		Bubble: true,
		Quick:  1000, Thorough: 15000, QuickS: 40, ThoroughS: 600,
		Assumptions: []string{"refusals carry a non-empty text", "TCP-like in-memory connection that neither loses nor reorders bytes", "virtual clock of testing/synctest"},
	})
}
