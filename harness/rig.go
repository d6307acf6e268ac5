package gv

import (
	"bytes"
	"fmt"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
	"pgregory.net/rapid"
)

// LinkPlan describes both directions of the connection under an end pair.
type LinkPlan struct {
	C2S, S2C DirPlan
}

// genDir draws a healthy direction: latency, fragmentation, bounded window.
func genDir(t *rapid.T, label string, window bool) DirPlan {
	d := plainDir()
	switch rapid.IntRange(0, 3).Draw(t, label+"LatC") {
	case 0, 1:
	case 2:
		d.Lat = []int{rapid.IntRange(0, 50000).Draw(t, label+"Lat")}
	default:
		d.Lat = rapid.SliceOfN(rapid.IntRange(0, 20000), 1, 6).Draw(t, label+"Lats")
	}
	d.Frag = genFrag(t, label+"Frag")
	if window && rapid.IntRange(0, 3).Draw(t, label+"WinC") == 0 {
		// A window as small as a few packets with a latency of its own would make
		// the connection too slow for heartbeats, so bound the product.
		d.Window = rapid.IntRange(512, 16384).Draw(t, label+"Win")
		for i := range d.Lat {
			d.Lat[i] = d.Lat[i] % 2000
		}
	}
	return d
}

func genLink(t *rapid.T, window bool) LinkPlan {
	return LinkPlan{C2S: genDir(t, "c2s", window), S2C: genDir(t, "s2c", window)}
}

// maxLat is the largest one-way latency of the plan.
func (lp LinkPlan) maxLat() time.Duration {
	m := 0
	for _, d := range []DirPlan{lp.C2S, lp.S2C} {
		for _, l := range d.Lat {
			m = max(m, l)
		}
	}
	return time.Duration(m) * time.Microsecond
}

// slack bounds the time the plan's link needs to carry n bytes in w writes.
func (lp LinkPlan) slack(n, w int) time.Duration {
	s := time.Duration(0)
	for _, d := range []DirPlan{lp.C2S, lp.S2C} {
		m := 0
		for _, l := range d.Lat {
			m = max(m, l)
		}
		k := w + 1
		if d.Window > 0 {
			k += 2 * n / d.Window
		}
		s += time.Duration(k*m) * time.Microsecond
	}
	return s
}

// rig is a client end and a server end over one simulated connection.
type rig struct {
	c            *Case
	l            *link
	cconn, sconn *memConn
	cli, srv     geminio.End
	cerr, serr   error
}

// dial makes both ends. It reports whether both came up; when expectOK is set a
// failure to come up is a violation.
func dialRig(c *Case, lp LinkPlan, co *client.EndOptions, so *server.EndOptions, expectOK bool) *rig {
	r := &rig{c: c}
	r.cconn, r.sconn, r.l = newLink(lp.C2S, lp.S2C, "x")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		if so == nil {
			so = server.NewEndOptions()
		}
		r.srv, r.serr = server.NewEndWithConn(r.sconn, so)
	}()
	go func() {
		defer wg.Done()
		if co == nil {
			co = client.NewEndOptions()
		}
		r.cli, r.cerr = client.NewEndWithConn(r.cconn, co)
	}()
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		c.Fail("the two ends did not come up, nor fail, within 60 s")
		r.l.Cut()
		return nil
	}
	if expectOK && (r.cerr != nil || r.serr != nil) {
		c.Fail("the handshake over a healthy connection failed: client %v, server %v", r.cerr, r.serr)
		r.l.Cut()
		return nil
	}
	return r
}

func (r *rig) end(server bool) geminio.End {
	if server {
		return r.srv
	}
	return r.cli
}

func sideName(server bool) string {
	if server {
		return "server"
	}
	return "client"
}

// open opens a stream from one side and accepts it on the other.
func (r *rig) open(fromServer bool, meta []byte) (cs, ss geminio.Stream, ok bool) {
	o := options.OpenStream()
	if meta != nil {
		o.SetMeta(meta)
	}
	type res struct {
		s   geminio.Stream
		err error
	}
	och, ach := make(chan res, 1), make(chan res, 1)
	go func() { s, err := r.end(fromServer).OpenStream(o); och <- res{s, err} }()
	go func() { s, err := r.end(!fromServer).AcceptStream(); ach <- res{s, err} }()
	t := time.NewTimer(40 * time.Second)
	defer t.Stop()
	var or, ar res
	for i := 0; i < 2; i++ {
		select {
		case or = <-och:
			och = nil
		case ar = <-ach:
			ach = nil
		case <-t.C:
			r.c.Fail("opening a stream from the %s side over a healthy connection: open returned: %v, accept returned: %v after 40 s", sideName(fromServer), och == nil, ach == nil)
			return nil, nil, false
		}
		if or.err != nil || ar.err != nil {
			r.c.Fail("opening a stream from the %s side over a healthy connection failed: open %v, accept %v", sideName(fromServer), or.err, ar.err)
			return nil, nil, false
		}
	}
	if or.s.StreamID() != ar.s.StreamID() {
		r.c.Fail("the two sides of a stream disagree on its ID: opener %d, acceptor %d", or.s.StreamID(), ar.s.StreamID())
		return nil, nil, false
	}
	if fromServer {
		return ar.s, or.s, true
	}
	return or.s, ar.s, true
}

// pairs gives the default stream plus n opened ones; entry [i][0] is the client
// side, [i][1] the server side.
func (r *rig) pairs(fromServer []bool) ([][2]geminio.Stream, bool) {
	out := [][2]geminio.Stream{{r.cli, r.srv}}
	for i, fs := range fromServer {
		cs, ss, ok := r.open(fs, []byte(fmt.Sprintf("stream-%d", i)))
		if !ok {
			return nil, false
		}
		out = append(out, [2]geminio.Stream{cs, ss})
	}
	return out, true
}

// teardown closes both ends and lets everything settle.
func (r *rig) teardown() {
	if r == nil {
		return
	}
	g := newGroup(r.c)
	if r.cli != nil {
		g.Go("client Close", func() { r.cli.Close() })
	}
	if r.srv != nil {
		g.Go("server Close", func() { r.srv.Close() })
	}
	g.Wait(90*time.Second, "closing both ends")
	time.Sleep(time.Second)
	r.l.Cut()
	time.Sleep(time.Second)
}

func sameBytes(a, b []byte) bool { return bytes.Equal(a, b) }

func ms(n int) time.Duration { return time.Duration(n) * time.Millisecond }
