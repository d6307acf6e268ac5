package gv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"slices"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/conn"
	"github.com/singchia/geminio/multiplexer"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/go-timer/v2"
	"pgregory.net/rapid"
)

// ---- C26: connections and dialogues used by themselves --------------------------

type layDlg struct {
	Srv  bool   `json:",omitempty"` // opened by the server
	Meta int    `json:",omitempty"` // length
	Peer string `json:",omitempty"`
	At   int    `json:",omitempty"`
}

type layWriter struct {
	D     int  // dialogue, 0 the default one
	Srv   bool `json:",omitempty"`
	Kind  int  // 0 message, 1 stream, 2 request
	Sizes []int
	Gap   int  `json:",omitempty"` // ms between
	Wait  bool `json:",omitempty"` // WriteWait
	Again bool `json:",omitempty"` // once more after dialogues were closed
}

type layClose struct {
	At, D int
	Srv   bool `json:",omitempty"`
	Both  bool `json:",omitempty"`
	Early bool `json:",omitempty"` // while there is traffic
}

type planLayers struct {
	Link    LinkPlan
	Mux     bool    `json:",omitempty"`
	Chan    [2]bool // read from the channel
	Tmr, Pf [2]bool // given
	Fn      [2]bool // dialogues are accepted, and closed ones told, by a function
	Bufs    []int   `json:",omitempty"`
	Meta    int     `json:",omitempty"`
	Dlgs    []layDlg
	Writers []layWriter
	Closes  []layClose
	Fin     int `json:",omitempty"` // 0 the client closes, 1 the server, 2 both, 3 the connection breaks, 4 a net.Conn is closed
	FinAt   int `json:",omitempty"` // ms after the start, -1: once all is done
	Twice   int `json:",omitempty"` // 1 closes come twice at once, 2 one after the other
}

func genLayers(t *rapid.T, thorough bool) any {
	p := planLayers{Link: genLink(t, true), Mux: rapid.Bool().Draw(t, "mux"), Meta: genLen(t, 300, "meta"), Fin: rapid.IntRange(0, 4).Draw(t, "fin"), FinAt: -1}
	for i := range 2 {
		p.Chan[i], p.Tmr[i], p.Pf[i], p.Fn[i] = rapid.Bool().Draw(t, "chan"), rapid.Bool().Draw(t, "tmr"), rapid.Bool().Draw(t, "pf"), rapid.Bool().Draw(t, "fn")
	}
	if rapid.IntRange(0, 3).Draw(t, "bufsC") == 0 {
		p.Bufs = rapid.SliceOfN(rapid.IntRange(1, 200), 4, 4).Draw(t, "bufs")
	}
	if p.Mux {
		p.Dlgs = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) layDlg {
			return layDlg{Srv: rapid.Bool().Draw(t, "srv"), Meta: genLen(t, 300, "dmeta"), Peer: genStr(t, 20, "peer"), At: rapid.IntRange(0, 20).Draw(t, "at")}
		}), genMin(t, 10, "dlgs")-1, 10).Draw(t, "dlgs")
		p.Closes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) layClose {
			return layClose{At: rapid.IntRange(0, 50).Draw(t, "cat"), D: rapid.IntRange(1, 10).Draw(t, "cd"), Srv: rapid.Bool().Draw(t, "csrv"),
				Both: rapid.IntRange(0, 3).Draw(t, "both") == 0, Early: rapid.IntRange(0, 2).Draw(t, "early") == 0}
		}), 0, 6).Draw(t, "closes")
	}
	n := 30
	if thorough {
		n = 200
	}
	p.Writers = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) layWriter {
		w := layWriter{D: rapid.IntRange(0, len(p.Dlgs)).Draw(t, "wd"), Srv: rapid.Bool().Draw(t, "wsrv"), Kind: rapid.IntRange(0, 2).Draw(t, "kind"),
			Wait: rapid.Bool().Draw(t, "wait"), Again: rapid.Bool().Draw(t, "again")}
		w.Sizes = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int { return genLen(t, 5000, "size") }), genMin(t, n, "sizes"), n).Draw(t, "sizes")
		if rapid.IntRange(0, 2).Draw(t, "gapC") == 0 {
			w.Gap = rapid.IntRange(0, 30).Draw(t, "gap")
		}
		return w
	}), 1, 8).Draw(t, "writers")
	if rapid.IntRange(0, 3).Draw(t, "twiceC") == 0 {
		p.Twice = rapid.IntRange(1, 2).Draw(t, "twice")
	}
	if rapid.IntRange(0, 3).Draw(t, "finC") == 0 {
		p.FinAt = rapid.IntRange(0, 100).Draw(t, "finAt")
	}
	return p
}

// layOut is what the reader of one side of one dialogue, or connection, got.
type layOut struct {
	mu   sync.Mutex
	got  map[int]int // by writer
	n    int
	eof  bool
	junk string
}

func (o *layOut) take(w []layWriter, pkt packet.Packet, sess uint64) {
	o.mu.Lock()
	defer o.mu.Unlock()
	var v []byte
	kind := -1
	switch q := pkt.(type) {
	case *packet.MessagePacket:
		v, kind = q.Data.Value, 0
	case *packet.StreamPacket:
		v, kind = q.Data, 1
	case *packet.RequestPacket:
		v, kind = q.Data.Value, 2
	}
	var i, k int
	o.n++
	bad := func(format string, args ...any) {
		if o.junk == "" {
			o.junk = fmt.Sprintf(format, args...)
		}
	}
	head, rest, _ := bytes.Cut(v, []byte(";"))
	if n, err := fmt.Sscanf(string(head), "%d/%d", &i, &k); n != 2 || err != nil || i >= len(w) {
		bad("a packet of type %v that nobody wrote", pkt.Type())
		return
	}
	x := w[i]
	if kind != x.Kind || !bytes.Equal(rest, pattern(x.Sizes[k%len(x.Sizes)], uint32(i*1000+k))) {
		bad("packet %d of writer %d arrived as something else", k, i)
	}
	if s, ok := pkt.(packet.SessionAbove); ok && sess != 0 && s.SessionID() != sess {
		bad("packet %d of writer %d arrived with session ID %d at dialogue %d", k, i, s.SessionID(), sess)
	}
	if o.got[i] != k {
		bad("packet %d of writer %d came when it was packet %d's turn", k, i, o.got[i])
	}
	o.got[i] = k + 1
}

type layRW interface {
	Read() (packet.Packet, error)
	Write(packet.Packet) error
}

func runLayers(c *Case, raw json.RawMessage) {
	p := decodePlan[planLayers](raw)
	cconn, sconn, l := newLink(p.Link.C2S, p.Link.S2C, "x")
	meta := pattern(p.Meta, 7)
	var tmr [2]timer.Timer
	var pf [2]packet.PacketFactory
	for i := range 2 {
		if p.Tmr[i] {
			tmr[i] = timer.NewTimer()
		}
		pf[i] = packet.NewPacketFactory(id.NewIDCounter([]id.Mode{id.Odd, id.Even}[i]))
	}
	var cc *conn.ClientConn
	var sc *conn.ServerConn
	var cerr, serr error
	g := newGroup(c)
	g.Go("NewClientConn", func() {
		o := []conn.ClientConnOption{conn.OptionClientConnMeta(meta)}
		if p.Tmr[0] {
			o = append(o, conn.OptionClientConnTimer(tmr[0]))
		}
		if p.Pf[0] {
			o = append(o, conn.OptionClientConnPacketFactory(pf[0]))
		}
		if p.Bufs != nil {
			o = append(o, conn.OptionClientConnBufferSize(p.Bufs[0], p.Bufs[1]))
		}
		cc, cerr = conn.NewClientConn(cconn, o...)
	})
	g.Go("NewServerConn", func() {
		o := []conn.ServerConnOption{}
		if p.Tmr[1] {
			o = append(o, conn.OptionServerConnTimer(tmr[1]))
		}
		if p.Pf[1] {
			o = append(o, conn.OptionServerConnPacketFactory(pf[1]))
		}
		if p.Bufs != nil {
			o = append(o, conn.OptionServerConnBufferSize(p.Bufs[2], p.Bufs[3]))
		}
		sc, serr = conn.NewServerConn(sconn, o...)
	})
	ends := func() {
		for _, x := range tmr {
			if x != nil {
				x.Close()
			}
		}
	}
	if !g.Wait(60*time.Second, "the handshake") {
		l.Cut()
		return
	}
	if cerr != nil || serr != nil {
		c.Fail("the handshake over a healthy connection failed: client %v, server %v", cerr, serr)
		l.Cut()
		return
	}
	cns := [2]conn.Conn{cc, sc}
	if cc.ClientID() != sc.ClientID() || !sameBytes(cc.Meta(), meta) || !sameBytes(sc.Meta(), meta) || cc.Side() != geminio.InitiatorSide || sc.Side() != geminio.RecipientSide {
		c.Fail("the connections have client IDs %d and %d, meta %q and %q, sides %v and %v", cc.ClientID(), sc.ClientID(), cc.Meta(), sc.Meta(), cc.Side(), sc.Side())
	}
	lat := p.Link.maxLat()
	bytesN, writes := 0, 0
	for _, w := range p.Writers {
		for _, s := range w.Sizes {
			bytesN += 2 * (s + 300)
			writes += 2
		}
	}
	slack := 5*time.Second + 20*lat + p.Link.slack(2*bytesN, 0) + time.Duration(writes)*30*time.Millisecond

	readers := newGroup(c)
	read := func(name string, rw layRW, ch <-chan packet.Packet, sess uint64) *layOut {
		o := &layOut{got: map[int]int{}}
		readers.Go("Read of "+name, func() {
			for {
				var pkt packet.Packet
				if ch != nil {
					pkt = <-ch
				} else {
					var err error
					if pkt, err = rw.Read(); err != nil {
						if err != io.EOF {
							c.Fail("Read of %s: %v", name, err)
						}
						pkt = nil
					}
				}
				if pkt == nil {
					o.mu.Lock()
					o.eof = true
					o.mu.Unlock()
					return
				}
				o.take(p.Writers, pkt, sess)
			}
		})
		return o
	}

	// dialogues
	var mgrs [2]multiplexer.Multiplexer
	var mu sync.Mutex
	type pair struct {
		dg  [2]multiplexer.Dialogue
		out [2]*layOut
	}
	pairs := make([]*pair, len(p.Dlgs)+1)
	accepted := [2]map[uint64]multiplexer.Dialogue{{}, {}}
	closedOnes := [2]map[uint64]int{{}, {}}
	outs := [2]map[uint64]*layOut{{}, {}}
	loops := newGroup(c)
	startRead := func(side int, dg multiplexer.Dialogue) *layOut {
		var ch <-chan packet.Packet
		if p.Chan[side] {
			ch = dg.ReadC()
		}
		return read(fmt.Sprintf("dialogue %d at the %s", dg.DialogueID(), sideName(side == 1)), dg, ch, dg.DialogueID())
	}
	got := func(side int, dg multiplexer.Dialogue) {
		mu.Lock()
		if accepted[side][dg.DialogueID()] != nil {
			c.Fail("dialogue %d was accepted twice at the %s", dg.DialogueID(), sideName(side == 1))
		}
		accepted[side][dg.DialogueID()] = dg
		mu.Unlock()
		o := startRead(side, dg)
		mu.Lock()
		outs[side][dg.DialogueID()] = o
		mu.Unlock()
	}
	told := func(side int, dg multiplexer.Dialogue) {
		mu.Lock()
		defer mu.Unlock()
		closedOnes[side][dg.DialogueID()]++
	}
	twice := func(g *group, name string, f func()) {
		switch p.Twice {
		case 1:
			g.Go("another "+name, f)
			f()
		case 2:
			f()
			f()
		default:
			f()
		}
	}
	fin := newGroup(c)
	var finDone [2]bool
	var due []int // written before the close
	wrote := make([]int, len(p.Writers))
	finish := func() {
		mu.Lock()
		due = slices.Clone(wrote)
		mu.Unlock()
		one := func(side int) {
			fin.Go(fmt.Sprintf("Close at the %s", sideName(side == 1)), func() {
				if p.Mux {
					twice(fin, "Close of a multiplexer", mgrs[side].Close)
				}
				twice(fin, "Close of a connection", cns[side].Close)
			})
			finDone[side] = true
		}
		switch p.Fin {
		case 0, 1:
			one(p.Fin)
		case 2:
			one(0)
			one(1)
		case 3:
			l.Cut()
		case 4:
			cconn.Close()
		}
	}
	early := p.FinAt >= 0
	pairs[0] = &pair{}
	if p.Mux {
		for side := range 2 {
			var o []multiplexer.MultiplexerOption
			if p.Fn[side] {
				o = append(o, multiplexer.OptionMultiplexerAcceptFunc(func(dg multiplexer.Dialogue) {
					if dg.Side() == geminio.RecipientSide && dg.DialogueID() != 1 {
						got(side, dg)
					}
				}), multiplexer.OptionMultiplexerClosedFunc(func(dg multiplexer.Dialogue) { told(side, dg) }))
			} else {
				o = append(o, multiplexer.OptionMultiplexerAcceptDialogue(), multiplexer.OptionMultiplexerClosedDialogue())
			}
			if p.Tmr[side] {
				o = append(o, multiplexer.OptionTimer(tmr[side]))
			}
			if p.Pf[side] {
				o = append(o, multiplexer.OptionPacketFactory(pf[side]))
			}
			if p.Bufs != nil {
				o = append(o, multiplexer.OptionBufferSize(p.Bufs[2*side], p.Bufs[2*side+1]))
			}
			m, err := multiplexer.NewDialogueMgr(cns[side], o...)
			if err != nil {
				c.Fail("NewDialogueMgr: %v", err)
				l.Cut()
				return
			}
			mgrs[side] = m
			dg, err := m.GetDialogue(cns[side].ClientID(), 1)
			if err != nil {
				c.Fail("no default dialogue at the %s: %v", sideName(side == 1), err)
				l.Cut()
				return
			}
			pairs[0].dg[side] = dg
			pairs[0].out[side] = startRead(side, dg)
			if !p.Fn[side] {
				loops.Go("AcceptDialogue", func() {
					for {
						dg, err := m.AcceptDialogue()
						if err != nil {
							if err != io.EOF {
								c.Fail("AcceptDialogue: %v", err)
							}
							return
						}
						got(side, dg)
					}
				})
				loops.Go("ClosedDialogue", func() {
					for {
						dg, err := m.ClosedDialogue()
						if err != nil {
							if err != io.EOF {
								c.Fail("ClosedDialogue: %v", err)
							}
							return
						}
						told(side, dg)
					}
				})
			}
		}
	} else {
		for side := range 2 {
			var ch <-chan packet.Packet
			if p.Chan[side] {
				ch = cns[side].ChannelRead()
			}
			pairs[0].out[side] = read("the connection at the "+sideName(side == 1), cns[side], ch, 0)
		}
	}
	begin := time.Now()
	if early {
		fin.Go("the end", func() {
			time.Sleep(ms(p.FinAt))
			finish()
		})
	}
	// open
	og := newGroup(c)
	for i, d := range p.Dlgs {
		og.Go("OpenDialogue", func() {
			time.Sleep(ms(d.At))
			side := b2i(d.Srv)
			dg, err := mgrs[side].OpenDialogue(pattern(d.Meta, uint32(i)), d.Peer)
			if err != nil {
				if !early {
					c.Fail("OpenDialogue over a healthy connection: %v", err)
				}
				return
			}
			o := startRead(side, dg)
			mu.Lock()
			pairs[i+1] = &pair{}
			pairs[i+1].dg[side], pairs[i+1].out[side] = dg, o
			mu.Unlock()
		})
	}
	if !og.Wait(slack+35*time.Second, "opening dialogues") {
		l.Cut()
		return
	}
	match := func() (missing string) {
		mu.Lock()
		defer mu.Unlock()
		for i, d := range p.Dlgs {
			x := pairs[i+1]
			if x == nil {
				continue
			}
			side := b2i(d.Srv)
			me := x.dg[side]
			o := accepted[1-side][me.DialogueID()]
			if o == nil || outs[1-side][me.DialogueID()] == nil {
				missing = fmt.Sprintf("dialogue %d was opened at the %s, but not accepted at the other side", me.DialogueID(), sideName(d.Srv))
				continue
			}
			if !sameBytes(o.Meta(), pattern(d.Meta, uint32(i))) || o.Peer() != d.Peer || !sameBytes(me.Meta(), o.Meta()) || me.Peer() != d.Peer ||
				me.Side() != geminio.InitiatorSide || o.Side() != geminio.RecipientSide || me.ClientID() != o.ClientID() {
				c.Fail("dialogue %d was opened with meta %q and peer %q, has %q, %q, %v there and %q, %q, %v at the other side", me.DialogueID(), pattern(d.Meta, uint32(i)), d.Peer,
					me.Meta(), me.Peer(), me.Side(), o.Meta(), o.Peer(), o.Side())
			}
			x.dg[1-side], x.out[1-side] = o, outs[1-side][me.DialogueID()]
		}
		if n := len(accepted[0]) + len(accepted[1]); missing == "" && !early && n != len(p.Dlgs) {
			c.Fail("%d dialogues were opened, %d accepted", len(p.Dlgs), n)
		}
		return
	}
	miss := match()
	for k := 0; miss != "" && k < 50; k++ {
		time.Sleep(slack / 50)
		miss = match()
	}
	if miss != "" && !early {
		c.Fail("%s", miss)
		l.Cut()
		return
	}
	closedBy := map[int][2]bool{} // dialogues closed
	listed := func(why string) {
		if !p.Mux || early {
			return
		}
		for side := range 2 {
			want := []uint64{1}
			for i := range p.Dlgs {
				if _, gone := closedBy[i+1]; !gone && pairs[i+1] != nil {
					want = append(want, pairs[i+1].dg[side].DialogueID())
				}
			}
			slices.Sort(want)
			have := []uint64{}
			for _, dg := range mgrs[side].ListDialogues() {
				have = append(have, dg.DialogueID())
			}
			slices.Sort(have)
			if !slices.Equal(want, have) {
				c.Fail("%s the %s lists the dialogues %v, not %v", why, sideName(side == 1), have, want)
			}
			for _, x := range have {
				if dg, err := mgrs[side].GetDialogue(cns[side].ClientID(), x); err != nil || dg.DialogueID() != x {
					c.Fail("GetDialogue of %d at the %s: %v", x, sideName(side == 1), err)
				}
			}
		}
	}
	listed("once dialogues were opened")

	// traffic
	lost := make([]bool, len(p.Writers)) // its dialogue was closed meanwhile
	traffic := func(again bool) *group {
		wg := newGroup(c)
		for i, w := range p.Writers {
			x := pairs[w.D]
			side := b2i(w.Srv)
			if again && (!w.Again || lost[i]) || w.D > 0 && (x == nil || x.dg[side] == nil) {
				continue
			}
			if _, gone := closedBy[w.D]; gone && again {
				continue
			}
			wg.Go(fmt.Sprintf("writer %d", i), func() {
				for range w.Sizes {
					mu.Lock()
					k := wrote[i]
					mu.Unlock()
					b := append([]byte(fmt.Sprintf("%d/%d;", i, k)), pattern(w.Sizes[k%len(w.Sizes)], uint32(i*1000+k))...)
					var pkt packet.Packet
					switch w.Kind {
					case 0:
						pkt = pf[side].NewMessagePacketWithIDAndSessionID(pf[side].NewPacketID(), 1, []byte("key"), b)
					case 1:
						pkt = pf[side].NewStreamPacketWithSessionID(1, b)
					default:
						pkt = pf[side].NewRequestPacketWithIDAndSessionID(pf[side].NewPacketID(), 1, []byte("method"), b)
					}
					var err error
					switch {
					case !p.Mux:
						err = cns[side].Write(pkt)
					case w.Wait:
						err = x.dg[side].WriteWait(pkt)
					default:
						err = x.dg[side].Write(pkt)
					}
					if err != nil {
						if err != io.EOF {
							c.Fail("Write of writer %d: %v", i, err)
						}
						mu.Lock()
						_, gone := closedBy[w.D]
						mu.Unlock()
						if !early && !gone {
							c.Fail("Write of writer %d failed while everything was open: %v", i, err)
						}
						return
					}
					mu.Lock()
					wrote[i]++
					mu.Unlock()
					time.Sleep(ms(w.Gap))
				}
			})
		}
		return wg
	}
	dlgDue := map[int]int{} // written before the close of the dialogue
	closing := func(early bool) *group {
		cg := newGroup(c)
		for _, x := range p.Closes {
			if x.D >= len(pairs) || pairs[x.D] == nil || x.Early != early || pairs[x.D].dg[0] == nil || pairs[x.D].dg[1] == nil {
				continue
			}
			mu.Lock()
			cb := closedBy[x.D]
			cb[b2i(x.Srv)] = true
			cb[1-b2i(x.Srv)] = cb[1-b2i(x.Srv)] || x.Both
			closedBy[x.D] = cb
			for i, w := range p.Writers {
				lost[i] = lost[i] || w.D == x.D
			}
			mu.Unlock()
			cg.Go("Close of a dialogue", func() {
				time.Sleep(ms(x.At))
				mu.Lock()
				for i, w := range p.Writers {
					if _, ok := dlgDue[i]; !ok && w.D == x.D && w.Srv == x.Srv {
						dlgDue[i] = wrote[i]
					}
				}
				mu.Unlock()
				twice(cg, "Close of a dialogue", pairs[x.D].dg[b2i(x.Srv)].Close)
				if x.Both {
					pairs[x.D].dg[1-b2i(x.Srv)].Close()
				}
			})
		}
		return cg
	}
	arrived := func(why string) {
		if early {
			return
		}
		limit := time.Now().Add(slack)
		for i, w := range p.Writers {
			if lost[i] {
				continue
			}
			o := pairs[w.D].out[1-b2i(w.Srv)]
			for {
				o.mu.Lock()
				n := o.got[i]
				o.mu.Unlock()
				if n == wrote[i] {
					break
				}
				if time.Now().After(limit) {
					c.Fail("%s writer %d had written %d packets, %d arrived", why, i, wrote[i], n)
					return
				}
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	cg := closing(true)
	wg := traffic(false)
	if !wg.Wait(slack+35*time.Second, "writing") || !cg.Wait(slack, "closing dialogues") {
		l.Cut()
		return
	}
	arrived("over a healthy connection")
	if len(p.Closes) > 0 && p.Mux {
		closing(false).Wait(slack, "closing dialogues")
		if !early {
			time.Sleep(10*lat + 500*time.Millisecond)
			for i, w := range p.Writers {
				n, ok := dlgDue[i]
				if cb := closedBy[w.D]; !ok || cb[1-b2i(w.Srv)] {
					continue
				}
				o := pairs[w.D].out[1-b2i(w.Srv)]
				o.mu.Lock()
				if o.got[i] < n {
					c.Fail("writer %d had written %d packets when its side closed dialogue %d, %d arrived", i, n, pairs[w.D].dg[0].DialogueID(), o.got[i])
				} else if n > 0 {
					c.Label("arrived before the close of a dialogue")
				}
				o.mu.Unlock()
			}
			for d := range closedBy {
				for side := range 2 {
					o := pairs[d].out[side]
					o.mu.Lock()
					eof := o.eof
					o.mu.Unlock()
					id := pairs[d].dg[side].DialogueID()
					if !eof {
						c.Fail("dialogue %d was closed, but Read at the %s did not end", id, sideName(side == 1))
					}
					if err := pairs[d].dg[side].Write(pf[side].NewStreamPacketWithSessionID(1, nil)); err != io.EOF {
						c.Fail("dialogue %d was closed, but Write at the %s gives %v", id, sideName(side == 1), err)
					}
					if _, err := mgrs[side].GetDialogue(cns[side].ClientID(), id); err == nil {
						c.Fail("dialogue %d was closed, but the %s still has it", id, sideName(side == 1))
					}
					mu.Lock()
					if n := closedOnes[side][id]; n != 1 {
						c.Fail("dialogue %d was closed, the %s was told %d times", id, sideName(side == 1), n)
					}
					mu.Unlock()
				}
			}
			mu.Lock()
			if len(closedOnes[0]) != len(closedBy) || len(closedOnes[1]) != len(closedBy) {
				c.Fail("%d dialogues were closed, the sides were told of %v and %v", len(closedBy), closedOnes[0], closedOnes[1])
			}
			mu.Unlock()
			listed("once dialogues were closed")
			c.Label("dialogues closed")
		}
	}
	if !traffic(true).Wait(slack+35*time.Second, "writing once more") {
		l.Cut()
		return
	}
	arrived("once others were closed")
	n := 0
	for _, w := range wrote {
		n += w
	}
	if n > 1 {
		c.NonTrivial()
	}
	if !early {
		finish()
	}
	if !fin.Wait(75*time.Second, "closing") {
		l.Cut()
		return
	}
	// both sides come to an end
	if !readers.Wait(75*time.Second, "Read after the connection was closed") {
		l.Cut()
		return
	}
	// the connection may be going to end yet
	time.Sleep(10*lat + time.Second)
	for side := range 2 {
		if err := cns[side].Write(pf[side].NewStreamPacketWithSessionID(1, nil)); err != io.EOF {
			c.Fail("the connection was closed, but Write at the %s gives %v", sideName(side == 1), err)
		}
	}
	for _, x := range pairs {
		for side := range 2 {
			if x == nil || x.out[side] == nil {
				continue
			}
			x.out[side].mu.Lock()
			if j := x.out[side].junk; j != "" {
				c.Fail("at the %s: %s", sideName(side == 1), j)
			}
			for i, w := range p.Writers {
				if g := x.out[side].got[i]; g > 0 && (pairs[w.D] != x || b2i(w.Srv) == side) {
					c.Fail("what writer %d wrote was read elsewhere", i)
				} else if g > wrote[i] {
					c.Fail("%d packets of writer %d arrived, it wrote %d", g, i, wrote[i])
				}
			}
			x.out[side].mu.Unlock()
		}
	}
	if p.Fin < 2 {
		for i, w := range p.Writers {
			if b2i(w.Srv) != p.Fin || lost[i] || pairs[w.D] == nil || pairs[w.D].out[1-p.Fin] == nil {
				continue
			}
			if n := pairs[w.D].out[1-p.Fin].got[i]; n < due[i] {
				c.Fail("writer %d had written %d packets when its side was closed, %d arrived", i, due[i], n)
			} else if n < wrote[i] || early && n > 0 {
				c.Label("arrived before the close")
			}
		}
	}
	rest := newGroup(c)
	for side := range 2 {
		if finDone[side] {
			continue
		}
		rest.Go("Close at the "+sideName(side == 1), func() {
			if p.Mux {
				twice(rest, "Close of a multiplexer", mgrs[side].Close)
			}
			twice(rest, "Close of a connection", cns[side].Close)
		})
	}
	if !rest.Wait(75*time.Second, "closing the other side") || !loops.Wait(75*time.Second, "AcceptDialogue and ClosedDialogue after the end") {
		l.Cut()
		return
	}
	if p.Mux {
		for side := range 2 {
			if dg, err := mgrs[side].OpenDialogue(nil, ""); err == nil {
				c.Fail("the %s opened dialogue %d after the end", sideName(side == 1), dg.DialogueID())
			}
		}
	}
	ends()
	time.Sleep(45 * time.Second)
	l.mu.Lock()
	if !cconn.closed || !sconn.closed {
		c.Fail("both sides were closed, but not both net.Conns")
	}
	l.mu.Unlock()
	if lo := leftover(); len(lo) > 0 {
		c.Fail("goroutines left after both sides were closed: %v", lo)
	}
	c.Label("mux %v, fin %d, early %v", p.Mux, p.Fin, early)
	_ = begin
}

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "packets of three kinds by up to 8 writers over a bare connection, or over up to 10 dialogues opened from both sides of a bare multiplexer, some of which are closed, with given or own timers and packet factories, buffer sizes and links, ended in 5 ways after or amid the traffic; " +
			"non-trivial: at least two packets were written",
		Gen:    genLayers,
		Run:    runLayers,
		Bubble: true,
		Quick:  1500, Thorough: 20000, QuickS: 30, ThoroughS: 700,
		Assumptions: []string{"TCP-like in-memory connection that neither loses nor reorders bytes before it is cut", "virtual clock of testing/synctest"},
	})
}
