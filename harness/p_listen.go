package gv

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
	"pgregory.net/rapid"
)

// ---- C21: listening -------------------------------------------------------------

const (
	ldGood   = iota
	ldRefuse // the delegate refuses it
	ldMute   // sends nothing
	ldPart   // sends the beginning of its first packet, and no more
	ldGone   // sends its first packet and leaves
	ldJunk   // sends something else
)

var ldNames = []string{"good", "refused", "mute", "halting", "leaving", "talking junk"}

type lsDial struct {
	At, K int
	N     int  `json:",omitempty"` // bytes sent
	Bye   bool `json:",omitempty"` // and closes its connection then
	Ctor  int  `json:",omitempty"`
	Close int  // ms until it closes its end, limNone: last of all
	Calls int  `json:",omitempty"`
}

type planLs struct {
	Unix    bool `json:",omitempty"`
	Dials   []lsDial
	Acc     int  // so many accept
	AccAt   int  // ms
	AccGap  int  // ms between being accepted and accepting again
	Conn    bool `json:",omitempty"` // by Accept
	CloseAt int  // limNone: once all clients have come
	Twice   bool `json:",omitempty"`
	Timer   bool `json:",omitempty"` // shared by all server ends
	NoDlg   bool `json:",omitempty"`
}

func genLs(t *rapid.T, thorough bool) any {
	p := planLs{Unix: rapid.IntRange(0, 3).Draw(t, "unix") == 0, Conn: rapid.IntRange(0, 3).Draw(t, "conn") == 0, Acc: 1, CloseAt: limNone,
		Twice: rapid.IntRange(0, 3).Draw(t, "twice") == 0, Timer: rapid.IntRange(0, 3).Draw(t, "timer") == 0, NoDlg: rapid.IntRange(0, 3).Draw(t, "nodlg") == 0}
	if rapid.IntRange(0, 2).Draw(t, "accC") == 0 {
		p.Acc = rapid.IntRange(2, 3).Draw(t, "acc")
	}
	if rapid.IntRange(0, 2).Draw(t, "accAtC") == 0 {
		p.AccAt = rapid.IntRange(1, 40).Draw(t, "accAt")
	}
	if rapid.IntRange(0, 2).Draw(t, "accGapC") == 0 {
		p.AccGap = rapid.IntRange(1, 20).Draw(t, "accGap")
	}
	if rapid.IntRange(0, 2).Draw(t, "closeC") == 0 {
		p.CloseAt = rapid.IntRange(0, 60).Draw(t, "close")
	}
	most := 20
	if rapid.IntRange(0, 3).Draw(t, "many") == 0 {
		most = 60
	}
	spread := rapid.Bool().Draw(t, "spread")
	p.Dials = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) lsDial {
		d := lsDial{K: rapid.SampledFrom([]int{ldGood, ldGood, ldGood, ldRefuse, ldMute, ldMute, ldPart, ldGone, ldJunk}).Draw(t, "k"), Close: limNone}
		if spread {
			d.At = rapid.IntRange(0, 40).Draw(t, "at")
		}
		switch d.K {
		case ldPart:
			d.N = rapid.IntRange(0, 60).Draw(t, "n")
			d.Bye = rapid.Bool().Draw(t, "bye")
		case ldJunk:
			d.N = rapid.IntRange(1, 200).Draw(t, "n")
			d.Bye = rapid.Bool().Draw(t, "bye")
		case ldMute:
			d.Bye = rapid.IntRange(0, 3).Draw(t, "bye") == 0
		case ldGood:
			d.Ctor = rapid.IntRange(0, 3).Draw(t, "ctor")
			d.Calls = rapid.IntRange(0, 3).Draw(t, "calls")
			if rapid.IntRange(0, 2).Draw(t, "closeC") == 0 {
				d.Close = rapid.IntRange(0, 20).Draw(t, "close")
			}
		}
		return d
	}), genMin(t, most, "dials"), most).Draw(t, "dials")
	held := 0 // the listener takes on so many who don't finish their handshake, and no more
	for i := range p.Dials {
		if d := &p.Dials[i]; d.K == ldMute || d.K == ldPart || d.K == ldJunk {
			if !d.Bye {
				held++
			}
			d.Bye = d.Bye || held > 20
		}
	}
	return p
}

// lsClient is one good client.
type lsClient struct {
	end   geminio.End
	err   error
	began time.Time
}

// lsHang is for what takes milliseconds.
const lsHang = 40 * time.Second

func runLs(c *Case, raw json.RawMessage) {
	p := decodePlan[planLs](raw)
	network, addr := "tcp", "127.0.0.1:0"
	if p.Unix {
		dir, err := os.MkdirTemp("", "gv")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		network, addr = "unix", filepath.Join(dir, "s")
	}
	so := server.NewEndOptions()
	srec := &rec{c: c}
	srec.getID = func(_ uint64, meta []byte) (uint64, error) {
		if strings.HasPrefix(string(meta), "refuse") {
			return 0, errRefused
		}
		return 0, nil
	}
	if !p.NoDlg {
		so.SetDelegate(srvRec{srec})
	}
	so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "echo", RPC: func(_ context.Context, req geminio.Request, rsp geminio.Response) {
		rsp.SetData(append([]byte("echo "), req.Data()...))
	}})
	if p.Timer {
		tmr := timer.NewTimer()
		defer tmr.Close()
		so.SetTimer(tmr)
	}
	ln, err := server.Listen(network, addr, so)
	if err != nil {
		panic("harness: listen: " + err.Error())
	}
	addr = ln.Addr().String()
	begin := time.Now()
	var mu sync.Mutex
	accepted := map[string]geminio.End{} // by meta
	var strays []geminio.End
	errs := 0
	closed := false // or about to be
	release := make(chan struct{})

	accs := newGroup(c)
	for k := 0; k < p.Acc; k++ {
		accs.Go("accepting", func() {
			time.Sleep(time.Until(begin.Add(ms(p.AccAt))))
			for {
				var end geminio.End
				var err error
				if p.Conn {
					var cn net.Conn
					if cn, err = ln.Accept(); err == nil {
						end, _ = cn.(geminio.End)
						if end == nil {
							c.Fail("Accept gave a %T, which is no end", cn)
							return
						}
					} else if cn != nil {
						c.Fail("Accept gave the error %v, and a connection", err)
					}
				} else {
					if end, err = ln.AcceptEnd(); err != nil && end != nil {
						c.Fail("AcceptEnd gave the error %v, and an end", err)
					}
				}
				mu.Lock()
				if err != nil {
					errs++
					if closed && (errors.Is(err, net.ErrClosed) || errs > 1000) {
						mu.Unlock()
						return
					}
					if errs > 1000 {
						c.Fail("accepting failed 1000 times: %v", err)
						mu.Unlock()
						return
					}
					mu.Unlock()
					continue
				}
				meta := string(end.Meta())
				_ = meta
				name := srvMeta(end)
				if _, dup := accepted[name]; dup {
					c.Fail("the client %q was accepted twice", name)
					strays = append(strays, end)
				} else {
					accepted[name] = end
				}
				mu.Unlock()
				if !strings.HasPrefix(name, "good") && !strings.HasPrefix(name, "gone") {
					c.Fail("accepted an end of the client %q", name)
				}
				time.Sleep(ms(p.AccGap))
			}
		})
	}

	clis := make([]*lsClient, len(p.Dials))
	use := func(i int, cl *lsClient, n int, must bool) {
		for k := 0; k < n; k++ {
			ctx, cancel := context.WithTimeout(context.Background(), lsHang)
			data := fmt.Sprintf("%d/%d", i, k)
			rsp, err := cl.end.Call(ctx, "echo", cl.end.NewRequest([]byte(data)))
			for err != nil && strings.Contains(err.Error(), "no such rpc") && time.Since(cl.began) < lsHang {
				// the client may be up before the server's end has its methods
				time.Sleep(time.Millisecond)
				rsp, err = cl.end.Call(ctx, "echo", cl.end.NewRequest([]byte(data)))
			}
			cancel()
			if err != nil {
				if must {
					c.Fail("a call by the good client %d, which was accepted: %v", i, err)
				}
				return
			}
			if string(rsp.Data()) != "echo "+data {
				c.Fail("a call by the good client %d gave %q for %q", i, rsp.Data(), data)
			}
		}
	}
	isClosed := func() bool {
		mu.Lock()
		defer mu.Unlock()
		return closed
	}
	good := newGroup(c)
	bad := newGroup(c)
	ngood, nbad := 0, 0
	for i, d := range p.Dials {
		if d.K == ldGood {
			ngood++
			good.Go(fmt.Sprintf("the good client %d", i), func() {
				time.Sleep(time.Until(begin.Add(ms(d.At))))
				cl := &lsClient{began: time.Now()}
				co := client.NewEndOptions()
				co.SetMeta([]byte(fmt.Sprintf("good %d", i)))
				dial := func() (net.Conn, error) { return net.Dial(network, addr) }
				switch d.Ctor {
				case 1:
					cl.end, cl.err = client.NewEndWithDialer(dial, co)
				case 2:
					var cn net.Conn
					if cn, cl.err = dial(); cl.err == nil {
						cl.end, cl.err = client.NewEndWithConn(cn, co)
					}
				case 3:
					cl.end, cl.err = client.NewRetryEndWithDialer(dial, co)
				default:
					cl.end, cl.err = client.NewEnd(network, addr, co)
				}
				if cl.err != nil {
					if cl.end != nil {
						c.Fail("a client got the error %v, and an end", cl.err)
					}
					if p.CloseAt == limNone && !isClosed() {
						c.Fail("the good client %d failed after %v: %v", i, time.Since(cl.began).Round(time.Millisecond), cl.err)
					}
					cl.end = nil
				}
				mu.Lock()
				clis[i] = cl
				mu.Unlock()
				if cl.end == nil {
					return
				}
				use(i, cl, d.Calls, p.CloseAt == limNone)
				if d.Close != limNone {
					time.Sleep(ms(d.Close))
					cl.end.Close()
				}
			})
			continue
		}
		nbad++
		bad.Go("a client "+ldNames[d.K], func() {
			time.Sleep(time.Until(begin.Add(ms(d.At))))
			if d.K == ldRefuse {
				if p.NoDlg {
					return
				}
				co := client.NewEndOptions()
				co.SetMeta([]byte(fmt.Sprintf("refuse %d", i)))
				end, err := client.NewEnd(network, addr, co)
				if err == nil {
					c.Fail("a client that was refused came up")
					end.Close()
				} else if p.CloseAt == limNone && !isClosed() && err.Error() != errRefused.Error() {
					c.Fail("a client that was refused got the error %v", err)
				}
				return
			}
			cn, err := net.Dial(network, addr)
			if err != nil {
				if p.CloseAt == limNone && !isClosed() {
					c.Fail("dialing: %v", err)
				}
				return
			}
			defer cn.Close()
			pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
			first, err := packet.Encode(pf.NewConnPacket(0, true, 20, []byte(fmt.Sprintf("gone %d", i))))
			if err != nil {
				panic(err)
			}
			switch d.K {
			case ldPart:
				cn.Write(first[:min(d.N, len(first)-1)])
			case ldGone:
				cn.Write(first)
				d.Bye = true
			case ldJunk:
				cn.Write(pattern(d.N, uint32(i)))
			}
			if !d.Bye {
				<-release
			}
		})
	}
	if p.CloseAt == limNone {
		// slow and bad dialers don't hold up the good ones
		if !good.Wait(lsHang, "good clients") {
			c.Label("stuck")
		}
		end := time.Now().Add(lsHang)
		for {
			mu.Lock()
			missing := []string{}
			for i, d := range p.Dials {
				if d.K == ldGood && d.Close == limNone && clis[i] != nil && clis[i].end != nil && accepted[fmt.Sprintf("good %d", i)] == nil {
					missing = append(missing, fmt.Sprint(i))
				}
			}
			mu.Unlock()
			if len(missing) == 0 {
				break
			}
			if time.Now().After(end) {
				c.Fail("the good clients %s came up, but were never accepted", strings.Join(missing, ", "))
				buf := make([]byte, 1<<20)
				c.Trace("%s", blockedDump(string(buf[:runtime.Stack(buf, true)])))
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	} else {
		time.Sleep(time.Until(begin.Add(ms(p.CloseAt))))
	}
	// closing
	mu.Lock()
	closed = true
	mu.Unlock()
	cg := newGroup(c)
	for k := 0; k <= b2i(p.Twice); k++ {
		cg.Go("Close of the listener", func() {
			if err := ln.Close(); err != nil && !p.Twice {
				c.Fail("Close of the listener: %v", err)
			}
		})
	}
	cg.Wait(lsHang, "Close of the listener")
	accs.Wait(lsHang, "accepting from a closed listener")
	c.within(lsHang, "AcceptEnd of a closed listener", func() {
		if end, err := ln.AcceptEnd(); err == nil {
			c.Fail("AcceptEnd of a closed listener succeeded")
			end.Close()
		}
	})
	if cn, err := net.Dial(network, addr); err == nil {
		c.Fail("the listener still listens after Close")
		cn.Close()
	}
	good.Wait(lsHang, "good clients, the listener was closed")
	// those accepted go on
	after := newGroup(c)
	lost := 0
	for i, d := range p.Dials {
		cl := clis[i]
		if d.K != ldGood || cl == nil || cl.end == nil {
			continue
		}
		mu.Lock()
		acc := accepted[fmt.Sprintf("good %d", i)]
		mu.Unlock()
		if acc != nil {
			if d.Close == limNone {
				after.Go(fmt.Sprintf("calls of client %d after the listener was closed", i), func() { use(i, cl, 1, true) })
			}
		} else if d.Ctor != 3 {
			// nobody will ever have its end
			lost++
			after.Go(fmt.Sprintf("Receive at client %d, which was not accepted before the listener was closed", i), func() {
				if _, err := cl.end.Receive(context.Background()); err == nil {
					c.Fail("Receive at a client without a server gave a message")
				}
			})
		}
	}
	after.Wait(lsHang, "after the listener was closed")
	if lost > 0 {
		c.Label("closed before they were accepted")
	}
	close(release)
	bad.Wait(lsHang, "bad clients")
	fin := newGroup(c)
	for i := range p.Dials {
		if cl := clis[i]; cl != nil && cl.end != nil {
			fin.Go("Close of a client", func() { cl.end.Close() })
		}
	}
	mu.Lock()
	for _, e := range accepted {
		strays = append(strays, e)
	}
	mu.Unlock()
	for _, e := range strays {
		fin.Go("Close of a server end", func() { e.Close() })
	}
	fin.Wait(lsHang, "Close of all ends")
	if !c.Failed() && !p.Timer {
		var lo []string
		for end := time.Now().Add(lsHang); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
			if lo = leftover(); len(lo) == 0 {
				break
			}
		}
		if len(lo) > 0 {
			c.Fail("goroutines left after everything was closed: %s", strings.Join(lo, "; "))
		}
	}
	if ngood > 0 && (nbad > 0 || p.CloseAt != limNone) {
		c.NonTrivial()
	}
	if lost == 0 && p.CloseAt != limNone {
		c.Label("closed early")
	}
	for _, d := range p.Dials {
		c.Label("%s", ldNames[d.K])
	}
}

// srvMeta is the metadata that the client of a server end gave.
func srvMeta(e geminio.End) string { return string(e.Meta()) }

func init() {
	register(&Prop{
		ID:       "C21",
		Rule:     "a listener on loopback TCP or a unix socket, and up to 60 dialers at once or spread over 40 ms: good clients made by any constructor, refused ones, and ones that send nothing, a part of their first packet, junk, or leave; 1 to 3 acceptors that start late or pause; the listener closed at any time or at last, once or twice; in real time; non-trivial: a good client among bad ones, or the listener closed early",
		Gen:      genLs,
		Run:      runLs,
		RealTime: true,
		Quick:    25, Thorough: 3000, QuickS: 25, ThoroughS: 500,
		Assumptions: []string{"what takes milliseconds does not take 40 s (10 s for a handshake) on the machine that runs the check"},
	})
}
