package gv

import (
	"errors"
	"io"
	"net"
	"sync"
	"syscall"
	"time"
)

// DirPlan says how one direction of a simulated connection behaves. All fields
// are plain data so that a plan can be generated, shrunk, stored and replayed.
type DirPlan struct {
	// Lat is the latency in microseconds of the i-th written segment (cycled).
	Lat []int `json:",omitempty"`
	// Frag caps the number of bytes the i-th Read may return (cycled; 0: no cap).
	Frag []int `json:",omitempty"`
	// Window bounds the bytes in flight: a writer blocks once it is full (0: none).
	Window int `json:",omitempty"`
	// CutAfter breaks the connection once this many bytes went through (-1: never).
	CutAfter int `json:",omitempty"`
	// HoleAfter silently swallows every byte from this offset on (-1: never).
	HoleAfter int `json:",omitempty"`
}

func plainDir() DirPlan { return DirPlan{CutAfter: -1, HoleAfter: -1} }

type seg struct {
	data []byte
	at   time.Time
}

// dir is one direction of a link.
type dir struct {
	l        *link
	plan     DirPlan
	segs     []seg
	inflight int
	written  int // bytes accepted from the writer
	nseg     int
	nread    int
	eofAt    time.Time // writer closed; EOF becomes visible then
	wclosed  bool
	rclosed  bool
	lastAt   time.Time
	onWrite  func(p []byte)
	// hole: from now on everything is swallowed, also the end of the stream
	hole bool
	// nothing written by now or later arrives before stallUntil
	stallUntil time.Time
}

type link struct {
	mu   sync.Mutex
	cond *sync.Cond
	d    [2]*dir
	cut  bool
	// cutAt records when the link was cut
	cutAt time.Time
}

// memConn is one endpoint: it writes into out and reads from in.
type memConn struct {
	l       *link
	out, in *dir
	la, ra  net.Addr
	closed  bool
	wmu     sync.Mutex // concurrent Writes do not interleave
}

type memAddr string

func (a memAddr) Network() string { return "mem" }
func (a memAddr) String() string  { return string(a) }

// NewLink gives the two endpoints of a simulated connection. ab describes the
// direction from the first endpoint to the second.
func newLink(ab, ba DirPlan, name string) (*memConn, *memConn, *link) {
	l := &link{}
	l.cond = sync.NewCond(&l.mu)
	l.d[0] = &dir{l: l, plan: ab}
	l.d[1] = &dir{l: l, plan: ba}
	a := &memConn{l: l, out: l.d[0], in: l.d[1], la: memAddr("a-" + name), ra: memAddr("b-" + name)}
	b := &memConn{l: l, out: l.d[1], in: l.d[0], la: memAddr("b-" + name), ra: memAddr("a-" + name)}
	return a, b, l
}

// Cut breaks the link now: bytes in flight are lost, both sides see errors.
func (l *link) Cut() {
	l.mu.Lock()
	l.cutLocked()
	l.mu.Unlock()
}

func (l *link) cutLocked() {
	if l.cut {
		return
	}
	l.cut = true
	l.cutAt = time.Now()
	l.cond.Broadcast()
}

// Hole makes a direction swallow everything from now on.
func (l *link) Hole(d int) {
	l.mu.Lock()
	l.d[d].hole = true
	l.mu.Unlock()
}

// Stall delays what is under way in a direction, and what is written until
// then, by t.
func (l *link) Stall(d int, t time.Duration) {
	l.mu.Lock()
	u := time.Now().Add(t)
	l.d[d].stallUntil = u
	for i := range l.d[d].segs {
		if l.d[d].segs[i].at.Before(u) {
			l.d[d].segs[i].at = u
		}
	}
	if l.d[d].lastAt.Before(u) {
		l.d[d].lastAt = u
	}
	l.mu.Unlock()
}

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "mem", Err: err}
}

func (c *memConn) Write(p []byte) (int, error) {
	c.wmu.Lock()
	defer c.wmu.Unlock()
	l := c.l
	l.mu.Lock()
	defer l.mu.Unlock()
	d := c.out
	n := 0
	for {
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		if l.cut {
			return n, opErr("write", syscall.ECONNRESET)
		}
		if d.rclosed {
			return n, opErr("write", syscall.EPIPE)
		}
		if len(p) == 0 {
			return n, nil
		}
		if d.plan.Window > 0 && d.inflight >= d.plan.Window {
			l.cond.Wait()
			continue
		}
		take := len(p)
		if d.plan.Window > 0 && d.inflight+take > d.plan.Window {
			take = d.plan.Window - d.inflight
		}
		doCut := false
		if d.plan.CutAfter >= 0 && d.written+take >= d.plan.CutAfter {
			take = d.plan.CutAfter - d.written
			doCut = true
		}
		chunk := append([]byte(nil), p[:take]...)
		start := d.written
		d.written += take
		n += take
		p = p[take:]
		if d.onWrite != nil {
			d.onWrite(chunk)
		}
		if d.plan.HoleAfter >= 0 && start+len(chunk) > d.plan.HoleAfter {
			keep := d.plan.HoleAfter - start
			if keep < 0 {
				keep = 0
			}
			chunk = chunk[:keep]
		}
		if d.hole {
			chunk = nil
		}
		if len(chunk) > 0 {
			at := time.Now()
			if len(d.plan.Lat) > 0 {
				at = at.Add(time.Duration(d.plan.Lat[d.nseg%len(d.plan.Lat)]) * time.Microsecond)
			}
			if at.Before(d.stallUntil) {
				at = d.stallUntil
			}
			if at.Before(d.lastAt) {
				at = d.lastAt
			}
			d.lastAt = at
			d.nseg++
			d.inflight += len(chunk)
			d.segs = append(d.segs, seg{chunk, at})
			l.cond.Broadcast()
		}
		if doCut {
			l.cutLocked()
			return n, opErr("write", syscall.ECONNRESET)
		}
	}
}

func (c *memConn) Read(p []byte) (int, error) {
	l := c.l
	l.mu.Lock()
	defer l.mu.Unlock()
	d := c.in
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if l.cut {
			// data delivered before the cut may still be read
			if len(d.segs) > 0 && !d.segs[0].at.After(l.cutAt) {
				return c.take(d, p), nil
			}
			return 0, opErr("read", syscall.ECONNRESET)
		}
		if len(d.segs) > 0 {
			now := time.Now()
			if !d.segs[0].at.After(now) {
				return c.take(d, p), nil
			}
			t := time.AfterFunc(d.segs[0].at.Sub(now), l.cond.Broadcast)
			l.cond.Wait()
			t.Stop()
			continue
		}
		if d.wclosed && !d.hole {
			now := time.Now()
			if !d.eofAt.After(now) {
				return 0, io.EOF
			}
			t := time.AfterFunc(d.eofAt.Sub(now), l.cond.Broadcast)
			l.cond.Wait()
			t.Stop()
			continue
		}
		l.cond.Wait()
	}
}

func (c *memConn) take(d *dir, p []byte) int {
	s := &d.segs[0]
	n := len(s.data)
	if n > len(p) {
		n = len(p)
	}
	if len(d.plan.Frag) > 0 {
		f := d.plan.Frag[d.nread%len(d.plan.Frag)]
		if f > 0 && n > f {
			n = f
		}
	}
	d.nread++
	copy(p, s.data[:n])
	s.data = s.data[n:]
	if len(s.data) == 0 {
		d.segs = d.segs[1:]
	}
	d.inflight -= n
	c.l.cond.Broadcast()
	return n
}

func (c *memConn) Close() error {
	l := c.l
	l.mu.Lock()
	defer l.mu.Unlock()
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.wclosed = true
	c.out.eofAt = time.Now()
	if c.out.eofAt.Before(c.out.lastAt) {
		c.out.eofAt = c.out.lastAt
	}
	c.in.rclosed = true
	l.cond.Broadcast()
	return nil
}

func (c *memConn) LocalAddr() net.Addr              { return c.la }
func (c *memConn) RemoteAddr() net.Addr             { return c.ra }
func (c *memConn) SetDeadline(time.Time) error      { return nil }
func (c *memConn) SetReadDeadline(time.Time) error  { return nil }
func (c *memConn) SetWriteDeadline(time.Time) error { return nil }

var errAccept = errors.New("mem listener closed")
