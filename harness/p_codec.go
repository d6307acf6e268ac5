package gv

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"pgregory.net/rapid"
)

// ---- C01: every packet survives encoding and decoding ----------------------

type pktSpec struct {
	Kind    int
	ID      uint64 `json:",omitempty"`
	A       uint64 `json:",omitempty"` // session / client / negotiate id
	B       uint64 `json:",omitempty"` // second id
	Flag    bool   `json:",omitempty"`
	HB      int    `json:",omitempty"` // exponent of the heartbeat class
	Prio    uint8  `json:",omitempty"`
	Qos     int8   `json:",omitempty"`
	Retain  bool   `json:",omitempty"`
	Clear   bool   `json:",omitempty"`
	Err     string `json:",omitempty"`
	HasErr  bool   `json:",omitempty"`
	Key     Blob   `json:",omitzero"`
	Val     Blob   `json:",omitzero"`
	Custom  Blob   `json:",omitzero"`
	Str     string `json:",omitempty"`
	Timeout int64  `json:",omitempty"`
	DL      int64  `json:",omitempty"` // deadline, unix nanoseconds, 0: unset
	CtxDL   int64  `json:",omitempty"`
}

const nKinds = 18

type codecPlan struct {
	Pkts []pktSpec
	Frag []int `json:",omitempty"`
	Junk Blob  `json:",omitzero"`
	// EOFWithData: the reader reports EOF together with its last bytes
	EOFWithData bool `json:",omitempty"`
}

func genPktSpec(t *rapid.T, maxBody int) pktSpec {
	s := pktSpec{
		Kind: rapid.IntRange(0, nKinds-1).Draw(t, "kind"),
		ID:   genU64(t, "id"),
		A:    genU64(t, "a"),
		B:    genU64(t, "b"),
		Flag: rapid.Bool().Draw(t, "flag"),
	}
	switch s.Kind {
	case 0: // conn
		s.HB = rapid.IntRange(0, 3).Draw(t, "hb")
		s.Retain = rapid.Bool().Draw(t, "retain")
		s.Clear = rapid.Bool().Draw(t, "clear")
		s.Val = genBlob(t, maxBody, "meta")
	case 6: // session
		s.Prio = rapid.Uint8().Draw(t, "prio")
		s.Qos = int8(rapid.IntRange(0, 15).Draw(t, "qos"))
		s.Val = genBlob(t, maxBody, "meta")
		s.Str = genStr(t, 40, "peer")
	case 10, 11, 13, 14: // message, message ack, request, response
		s.Key = genBlob(t, 64, "key")
		s.Val = genBlob(t, maxBody, "val")
		s.Custom = genBlob(t, 256, "custom")
		s.Str = genStr(t, 40, "topic")
		if rapid.Bool().Draw(t, "timed") {
			s.Timeout = rapid.Int64().Draw(t, "timeout")
			s.DL = rapid.Int64Range(-60000000000000000, 8000000000000000000).Draw(t, "dl")
			s.CtxDL = rapid.Int64Range(0, 8000000000000000000).Draw(t, "ctxdl")
		}
	case 12, 16: // stream, register
		s.Val = genBlob(t, maxBody, "val")
	}
	switch s.Kind {
	case 1, 3, 7, 9, 11, 14, 17:
		s.HasErr = rapid.Bool().Draw(t, "hasErr")
		if s.HasErr {
			s.Err = genStr(t, 60, "err")
		}
	}
	return s
}

var codecPF = packet.NewPacketFactory(id.NewIDCounter(id.Even))

func (s pktSpec) err() error {
	if !s.HasErr {
		return nil
	}
	return errors.New(s.Err)
}

func hbOf(exp int) packet.Heartbeat {
	return []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320}[exp&3]
}

func unixNano(ns int64) time.Time {
	if ns == 0 {
		return time.Time{}
	}
	return time.Unix(0, ns).UTC()
}

func (s pktSpec) fill(d *packet.MessageData) {
	d.Key, d.Value, d.Custom = s.Key.Bytes(), s.Val.Bytes(), s.Custom.Bytes()
	d.Topic = s.Str
	if s.HasErr {
		d.Error = s.Err
	}
	d.Timeout = time.Duration(s.Timeout)
	d.Deadline = unixNano(s.DL)
	d.Context.Deadline = unixNano(s.CtxDL)
}

func (s pktSpec) build() packet.Packet {
	pf := codecPF
	switch s.Kind {
	case 0:
		p := pf.NewConnPacket(s.A, s.Flag, hbOf(s.HB), s.Val.Bytes())
		p.PacketID = s.ID
		p.Retain, p.Clear = s.Retain, s.Clear
		return p
	case 1:
		return pf.NewConnAckPacket(s.ID, s.A, s.err())
	case 2:
		p := pf.NewDisConnPacket()
		p.PacketID = s.ID
		return p
	case 3:
		return pf.NewDisConnAckPacket(s.ID, s.err())
	case 4:
		p := pf.NewHeartbeatPacket()
		p.PacketID = s.ID
		return p
	case 5:
		return pf.NewHeartbeatAckPacket(s.ID)
	case 6:
		p := pf.NewSessionPacket(s.A, s.Flag, s.Val.Bytes(), s.Str)
		p.PacketID = s.ID
		p.Priority, p.Qos = s.Prio, s.Qos
		return p
	case 7:
		return pf.NewSessionAckPacket(s.ID, s.A, s.B, s.err())
	case 8:
		p := pf.NewDismissPacket(s.A)
		p.PacketID = s.ID
		return p
	case 9:
		return pf.NewDismissAckPacket(s.ID, s.A, s.err())
	case 10:
		p := pf.NewMessagePacketWithIDAndSessionID(s.ID, s.A, nil, nil)
		s.fill(p.Data)
		return p
	case 11:
		p := pf.NewMessageAckPacketWithSessionID(s.A, s.ID, s.err())
		s.fill(p.Data)
		return p
	case 12:
		p := pf.NewStreamPacketWithSessionID(s.A, s.Val.Bytes())
		p.PacketID = s.ID
		return p
	case 13:
		p := pf.NewRequestPacketWithIDAndSessionID(s.ID, s.A, s.Key.Bytes(), s.Val.Bytes())
		s.fill(p.Data)
		return p
	case 14:
		p := pf.NewResponsePacket(s.ID, s.Key.Bytes(), s.Val.Bytes(), s.err())
		p.SetSessionID(s.A)
		s.fill(p.Data)
		return p
	case 15:
		ct := packet.RequestCancelTypeCanceled
		if s.Flag {
			ct = packet.RequestCancelTypeDeadlineExceeded
		}
		return pf.NewRequestCancelPacketWithIDAndSessionID(s.ID, s.A, ct)
	case 16:
		p := pf.NewRegisterPacketWithSessionID(s.A, s.Val.Bytes())
		p.PacketID = s.ID
		return p
	default:
		return pf.NewRegisterAckPacketWithSessionID(s.A, s.ID, s.err())
	}
}

// reference encoder for version 1 of the wire format, written from its
// description: 14 byte header, big endian, payload layout per type.
func (s pktSpec) reference() []byte {
	types := [...]byte{0x01, 0x02, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82}
	var pl []byte
	u64 := func(v uint64) { pl = binary.BigEndian.AppendUint64(pl, v) }
	rc := func() byte {
		if s.HasErr {
			return 1
		}
		return 0
	}
	obj := map[string]any{}
	b64 := func(k string, b []byte) {
		if len(b) > 0 {
			obj[k] = base64.StdEncoding.EncodeToString(b)
		}
	}
	str := func(k, v string) {
		if v != "" {
			obj[k] = v
		}
	}
	js := func() { pl = append(pl, mustJSON(obj)...) }
	switch s.Kind {
	case 0:
		var f byte
		if s.Retain {
			f |= 1
		}
		if s.Clear {
			f |= 2
		}
		if s.Flag {
			f |= 8
		}
		f |= byte(s.HB) << 4
		pl = append(pl, f, 0)
		u64(s.A)
		b64("meta", s.Val.Bytes())
		js()
	case 1:
		pl = append(pl, rc())
		u64(s.A)
		str("error", s.Err)
		js()
	case 3:
		pl = append(pl, rc())
		str("error", s.Err)
		js()
	case 2, 4, 5:
	case 6:
		f := byte(s.Qos) & 0x0f
		if s.Flag {
			f |= 0x10
		}
		pl = append(pl, s.Prio, f)
		u64(s.A)
		b64("meta", s.Val.Bytes())
		str("peer", s.Str)
		js()
	case 7:
		pl = append(pl, 0, 0)
		u64(s.A)
		u64(s.B)
		str("error", s.Err)
		js()
	case 8, 9, 17:
		u64(s.A)
		str("error", s.Err)
		js()
	case 10, 11, 13, 14:
		u64(s.A)
		b64("key", s.Key.Bytes())
		b64("value", s.Val.Bytes())
		b64("custom", s.Custom.Bytes())
		str("topic", s.Str)
		str("error", s.Err)
		if s.Timeout != 0 {
			obj["timeout"] = s.Timeout
		}
		obj["deadline"] = unixNano(s.DL)
		obj["context"] = map[string]any{"deadline": unixNano(s.CtxDL)}
		js()
	case 12, 16:
		u64(s.A)
		pl = append(pl, s.Val.Bytes()...)
	case 15:
		u64(s.A)
		if s.Flag {
			pl = append(pl, 0, 2)
		} else {
			pl = append(pl, 0, 1)
		}
	}
	hdr := []byte{1, types[s.Kind]}
	hdr = binary.BigEndian.AppendUint64(hdr, s.ID)
	hdr = binary.BigEndian.AppendUint32(hdr, uint32(len(pl)))
	return append(hdr, pl...)
}

// describe renders every observable field of a packet.
func describe(p packet.Packet) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s id=%d", p.Type(), p.ID())
	if h := reflect.ValueOf(p).Elem().FieldByName("PacketHeader"); h.IsValid() && !h.IsNil() {
		fmt.Fprintf(&b, " version=%v", h.Elem().FieldByName("Version"))
	}
	md := func(d *packet.MessageData) {
		if d == nil {
			b.WriteString(" data=nil")
			return
		}
		fmt.Fprintf(&b, " key=%x val=%x custom=%x topic=%q err=%q timeout=%d dl=%d/%v ctxdl=%d/%v", d.Key, d.Value, d.Custom, d.Topic, d.Error, d.Timeout,
			d.Deadline.UnixNano(), d.Deadline.IsZero(), d.Context.Deadline.UnixNano(), d.Context.Deadline.IsZero())
	}
	cd := func(d *packet.ConnData) {
		if d == nil {
			b.WriteString(" data=nil")
			return
		}
		fmt.Fprintf(&b, " meta=%x err=%q", d.Meta, d.Error)
	}
	sd := func(d *packet.SessionData) {
		if d == nil {
			b.WriteString(" data=nil")
			return
		}
		fmt.Fprintf(&b, " meta=%x err=%q peer=%q", d.Meta, d.Error, d.Peer)
	}
	switch r := p.(type) {
	case *packet.ConnPacket:
		fmt.Fprintf(&b, " client=%d acquire=%v hb=%d retain=%v clear=%v", r.ClientID, r.ClientIDAcquire(), r.Heartbeat, r.Retain, r.Clear)
		cd(r.ConnData)
	case *packet.ConnAckPacket:
		fmt.Fprintf(&b, " ret=%d client=%d", r.RetCode, r.ClientID)
		cd(r.ConnData)
	case *packet.DisConnAckPacket:
		fmt.Fprintf(&b, " ret=%d", r.RetCode)
		cd(r.ConnData)
	case *packet.SessionPacket:
		fmt.Fprintf(&b, " neg=%d acquire=%v prio=%d qos=%d", r.NegotiateID(), r.SessionIDAcquire(), r.Priority, r.Qos)
		sd(r.SessionData)
	case *packet.SessionAckPacket:
		fmt.Fprintf(&b, " neg=%d sess=%d", r.NegotiateID(), r.SessionID())
		sd(r.SessionData)
	case *packet.DismissPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		sd(r.SessionData)
	case *packet.DismissAckPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		sd(r.SessionData)
	case *packet.MessagePacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		md(r.Data)
	case *packet.MessageAckPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		md(r.Data)
	case *packet.RequestPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		md(r.Data)
	case *packet.ResponsePacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		md(r.Data)
	case *packet.StreamPacket:
		fmt.Fprintf(&b, " sess=%d data=%x", r.SessionID(), r.Data)
	case *packet.RequestCancelPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
	case *packet.RegisterPacket:
		fmt.Fprintf(&b, " sess=%d method=%q", r.SessionID(), r.Method())
	case *packet.RegisterAckPacket:
		fmt.Fprintf(&b, " sess=%d", r.SessionID())
		if r.RegisterData != nil {
			fmt.Fprintf(&b, " err=%q", r.RegisterData.Error)
		}
	}
	return b.String()
}

// fragReader returns data in pieces.
type fragReader struct {
	data    []byte
	frag    []int
	i       int
	eofWith bool
}

func (r *fragReader) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		return 0, io.EOF
	}
	n := len(r.data)
	if len(r.frag) > 0 {
		n = min(n, r.frag[r.i%len(r.frag)])
		r.i++
	}
	n = min(n, len(p))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.eofWith && len(r.data) == 0 {
		return n, io.EOF
	}
	return n, nil
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "1-5 packets of all 18 kinds with generated ids, flags, bodies, UTF-8 strings, errors and deadlines; decoded from a slice (alone and followed by junk) and from a reader that returns generated fragments of the concatenation; non-trivial: at least one packet carries a payload beyond its fixed fields",
		Gen: func(t *rapid.T, thorough bool) any {
			maxBody := 150000
			if thorough {
				maxBody = 300000
			}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			pl := codecPlan{}
			for i := 0; i < n; i++ {
				pl.Pkts = append(pl.Pkts, genPktSpec(t, maxBody))
			}
			pl.Frag = genFrag(t, "frag")
			pl.Junk = genBlob(t, 100, "junk")
			pl.EOFWithData = rapid.Bool().Draw(t, "eofWith")
			if n, ok := genBig(t, 5000, "big"); ok {
				pl.Pkts[0].Val.N, pl.Frag = n, nil
			}
			return pl
		},
		Run:     runCodec,
		InShard: true, Quick: 25000, Thorough: 400000, QuickS: 20, ThoroughS: 180,
		Assumptions: []string{"textual fields (topic, peer, error) are valid UTF-8, as the JSON body requires"},
	})
	register(&Prop{
		ID:   "C02",
		Rule: "byte strings made from valid encodings by truncation, length-field edits, bit flips, splices, type changes and random payloads, plus random bytes; decoded from a slice and from a fragmenting reader; non-trivial: the input has a complete header",
		Gen:  genHostileBytes, Run: runHostileBytes,
		InShard: true, Quick: 200000, Thorough: 2000000, QuickS: 25, ThoroughS: 180,
	})
}

func runCodec(c *Case, raw json.RawMessage) {
	pl := decodePlan[codecPlan](raw)
	var all []byte
	var descs []string
	for i, s := range pl.Pkts {
		p := s.build()
		want := describe(p)
		b, err := packet.Encode(p)
		if err != nil {
			c.Fail("packet %d (%s): encode: %v", i, want, err)
			return
		}
		c.Label("kind %s", p.Type())
		if len(b) > 14+20 {
			c.NonTrivial()
		}
		if len(b) < 14 || int(binary.BigEndian.Uint32(b[10:14])) != len(b)-14 {
			c.Fail("packet %d (%s): the length field does not cover the payload of %d bytes", i, want, len(b)-14)
			return
		}
		ref := s.reference()
		if !sameWire(b, ref) {
			c.Fail("packet %d (%s): encoding departs from the version-1 layout:\n got %x\nwant %x", i, want, trunc(string(b), 400), trunc(string(ref), 400))
			return
		}
		// the same packet, encoded twice, gives the same bytes
		b2, err := packet.Encode(p)
		if err != nil || !bytes.Equal(b, b2) {
			c.Fail("packet %d (%s): encoding it again differs (%v)", i, want, err)
			return
		}
		for _, in := range [][]byte{b, append(append([]byte(nil), b...), pl.Junk.Bytes()...), ref} {
			q, _, err := packet.Decode(in)
			if err != nil {
				c.Fail("packet %d (%s): decode of its own encoding: %v", i, want, err)
				return
			}
			if q.Type() != p.Type() || reflect.TypeOf(q) != reflect.TypeOf(p) {
				c.Fail("packet %d (%s) decodes as %T %s", i, want, q, q.Type())
				return
			}
			if got := describe(q); got != want {
				c.Fail("packet %d changed in transit:\n sent %s\n  got %s", i, trunc(want, 600), trunc(got, 600))
				return
			}
			b3, err := packet.Encode(q)
			if err != nil || !bytes.Equal(b3, b) {
				c.Fail("packet %d (%s): re-encoding the decoded packet differs (%v)", i, want, err)
				return
			}
		}
		// a strict prefix is never a packet
		for _, cut := range []int{len(b) - 1, len(b) / 2, 13} {
			if cut >= len(b) || cut < 0 {
				continue
			}
			if _, _, err := packet.Decode(b[:cut]); err == nil {
				c.Fail("packet %d (%s): its first %d of %d bytes decode as a packet", i, want, cut, len(b))
				return
			}
		}
		all = append(all, b...)
		descs = append(descs, want)
	}
	r := &fragReader{data: append([]byte(nil), all...), frag: pl.Frag, eofWith: pl.EOFWithData}
	for i, want := range descs {
		q, err := packet.DecodeFromReader(r)
		if err != nil {
			c.Fail("packet %d (%s): decode from the stream: %v", i, want, err)
			return
		}
		if got := describe(q); got != want {
			c.Fail("packet %d changed in the stream:\n sent %s\n  got %s", i, trunc(want, 600), trunc(got, 600))
			return
		}
	}
	if q, err := packet.DecodeFromReader(r); err == nil {
		c.Fail("after %d packets the stream yields another one: %s", len(descs), describe(q))
	}
	// the writer may accept the bytes piecemeal
	w := &shortWriter{frag: pl.Frag}
	for _, s := range pl.Pkts {
		if err := packet.EncodeToWriter(s.build(), w); err != nil {
			c.Fail("EncodeToWriter: %v", err)
			return
		}
	}
	if !bytes.Equal(w.buf, all) {
		c.Fail("EncodeToWriter wrote %d bytes that differ from the %d encoded ones", len(w.buf), len(all))
	}
}

type shortWriter struct {
	buf  []byte
	frag []int
	i    int
}

func (w *shortWriter) Write(p []byte) (int, error) {
	n := len(p)
	if len(w.frag) > 0 {
		n = min(n, w.frag[w.i%len(w.frag)])
		w.i++
	}
	w.buf = append(w.buf, p[:n]...)
	return n, nil
}

// sameWire compares two encodings; JSON bodies as values.
func sameWire(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	if len(a) < 14 || len(b) < 14 || !bytes.Equal(a[:10], b[:10]) {
		return false
	}
	off := map[byte]int{0x01: 10, 0x02: 9, 0x12: 1, 0x31: 10, 0x32: 18, 0x41: 8, 0x42: 8, 0x51: 8, 0x52: 8, 0x71: 8, 0x72: 8, 0x82: 8}
	o, ok := off[a[1]]
	if !ok || len(a) < 14+o || len(b) < 14+o || !bytes.Equal(a[14:14+o], b[14:14+o]) {
		return false
	}
	var x, y any
	if json.Unmarshal(a[14+o:], &x) != nil || json.Unmarshal(b[14+o:], &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

// ---- C02: arbitrary bytes -----------------------------------------------------

type hostilePlan struct {
	Base  []pktSpec `json:",omitempty"`
	Edits []edit    `json:",omitempty"`
	Raw   []byte    `json:",omitempty"`
	Frag  []int     `json:",omitempty"`
}

type edit struct {
	Op  int
	Pos int    `json:",omitempty"`
	N   uint32 `json:",omitempty"`
	B   []byte `json:",omitempty"`
}

func (h hostilePlan) bytes() []byte {
	var b []byte
	for _, s := range h.Base {
		b = append(b, s.reference()...)
	}
	b = append(b, h.Raw...)
	for _, e := range h.Edits {
		switch e.Op {
		case 0: // truncate
			if len(b) > 0 {
				b = b[:e.Pos%(len(b)+1)]
			}
		case 1: // set the length field of the first packet
			if len(b) >= 14 {
				binary.BigEndian.PutUint32(b[10:14], e.N)
			}
		case 2: // overwrite
			if len(b) > 0 {
				p := e.Pos % len(b)
				for i, x := range e.B {
					if p+i < len(b) {
						b[p+i] = x
					}
				}
			}
		case 3: // insert
			p := 0
			if len(b) > 0 {
				p = e.Pos % (len(b) + 1)
			}
			b = append(b[:p:p], append(append([]byte(nil), e.B...), b[p:]...)...)
		case 4: // type
			if len(b) >= 2 && len(e.B) > 0 {
				b[1] = e.B[0]
			}
		case 5: // make the length field true again
			if len(b) >= 14 {
				binary.BigEndian.PutUint32(b[10:14], uint32(len(b)-14))
			}
		}
	}
	return b
}

func genHostileBytes(t *rapid.T, thorough bool) any {
	h := hostilePlan{Frag: genFrag(t, "frag")}
	if rapid.IntRange(0, 4).Draw(t, "mode") > 0 {
		n := rapid.IntRange(1, 2).Draw(t, "n")
		for i := 0; i < n; i++ {
			h.Base = append(h.Base, genPktSpec(t, 200))
		}
	} else {
		h.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	}
	types := []byte{0x01, 0x02, 0x11, 0x12, 0x21, 0x22, 0x31, 0x32, 0x41, 0x42, 0x51, 0x52, 0x61, 0x71, 0x72, 0x73, 0x81, 0x82, 0, 0xff}
	ne := rapid.IntRange(0, 4).Draw(t, "ne")
	for i := 0; i < ne; i++ {
		e := edit{Op: rapid.IntRange(0, 5).Draw(t, "op")}
		switch e.Op {
		case 0:
			e.Pos = rapid.IntRange(0, 400).Draw(t, "pos")
		case 1:
			e.N = rapid.OneOf(rapid.Uint32Range(0, 30), rapid.Uint32Range(0, 600), rapid.SampledFrom([]uint32{1 << 20, 1 << 24, 1 << 28, 1 << 31, 0xffffffff, 0xfffffff0, 0x7fffffff}),
				rapid.Uint32Range(0xffffffe0, 0xffffffff), rapid.Uint32Range(0x7fffffe0, 0x80000020)).Draw(t, "n")
		case 2, 3:
			e.Pos = rapid.IntRange(0, 400).Draw(t, "pos")
			e.B = rapid.SliceOfN(rapid.Byte(), 1, 8).Draw(t, "b")
		case 4:
			e.B = []byte{rapid.SampledFrom(types).Draw(t, "type")}
		}
		h.Edits = append(h.Edits, e)
	}
	return h
}

const allocSlack = 4 << 20

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func runHostileBytes(c *Case, raw json.RawMessage) {
	h := decodePlan[hostilePlan](raw)
	b := h.bytes()
	if len(b) >= 14 {
		c.NonTrivial()
		c.Label("type %s", packet.Type(b[1]).String())
	}
	// a declared length far beyond the data is where memory can go wrong
	measure := len(b) >= 14 && int64(binary.BigEndian.Uint32(b[10:14])) > int64(len(b))+1<<16 || len(b) >= 14 && b[1] == 1
	var a0 uint64
	if measure {
		a0 = allocated()
		c.Label("memory measured")
	}
	in := append([]byte(nil), b...)
	p, _, sliceErr := packet.Decode(in)
	err := sliceErr
	if err == nil && p == nil {
		c.Fail("Decode(%x) returned neither a packet nor an error", b)
	}
	if !bytes.Equal(in, b) {
		c.Fail("Decode modified its input")
	}
	if err == nil {
		c.Label("slice accepted")
		checkAccepted(c, p, b)
	} else {
		c.Label("slice rejected")
	}
	r := &fragReader{data: append([]byte(nil), b...), frag: h.Frag}
	n := 0
	for {
		q, err := packet.DecodeFromReader(r)
		if err != nil {
			if n == 0 && sliceErr == nil {
				c.Fail("the slice accepts what the reader is refused for (%v): %s", err, trunc(describe(p), 300))
			}
			break
		}
		if q == nil {
			c.Fail("DecodeFromReader returned neither a packet nor an error")
			break
		}
		if n == 0 {
			checkAccepted(c, q, b)
			c.Label("reader accepted")
			if sliceErr != nil {
				c.Fail("the reader accepts what the slice is refused for (%v): %s", sliceErr, trunc(describe(q), 300))
			} else if p != nil {
				if d1, d2 := describe(p), describe(q); p.Type() == q.Type() && isFull(p) && d1 != d2 {
					c.Fail("slice and reader decode the same bytes differently:\n slice  %s\n reader %s", trunc(d1, 500), trunc(d2, 500))
				}
			}
		}
		n++
		if n > 100000 {
			c.Fail("DecodeFromReader does not terminate on %d bytes", len(b))
			break
		}
	}
	if measure {
		if used := allocated() - a0; used > uint64(40*len(b))+allocSlack {
			c.Fail("decoding %d bytes allocated %d bytes", len(b), used)
		}
	}
}

func isFull(p packet.Packet) bool {
	_, bare := p.(*packet.PacketHeader)
	return !bare
}

// checkAccepted: what was accepted is usable, i.e. carries its own header and
// can be described and encoded again.
func checkAccepted(c *Case, p packet.Packet, b []byte) {
	if p.Type() != packet.Type(b[1]) || p.ID() != binary.BigEndian.Uint64(b[2:10]) {
		c.Fail("decoded header (%s %d) is not that of the bytes %x", p.Type(), p.ID(), b[:14])
		return
	}
	if n := binary.BigEndian.Uint32(b[10:14]); uint64(n) > uint64(len(b)-14) {
		c.Fail("a packet (%s) was accepted that announces %d bytes of payload, %d were there", p.Type(), n, len(b)-14)
	}
	describe(p)
	if _, err := packet.Encode(p); err != nil {
		c.Fail("an accepted packet (%s) cannot be encoded again: %v", trunc(describe(p), 300), err)
	}
}
