From ae3cf93a7743f7f51a8d7f9c19bc638ec0eebf94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 01/52] fix: packet.Decode of Request and Response packets
 dereferenced a nil embedded packet

---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From e6fa628c9e383f66ee6cece90964e7886933d736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 02/52] fix: decode RequestCancel packets instead of rejecting
 them as unsupported

---
 packet/decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -131,6 +131,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	default:
 		return nil, 10, ErrUnsupportedPacket
 	}
@@ -254,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
-- 
2.43.0


From ca992fc3cfe925f2dfba69367dd6c1a21a9647de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:35 +0000
Subject: [PATCH 03/52] fix: reject packets too short for their fixed fields
 instead of panicking

---
 packet/decode.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index d917355..af895fd 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -24,6 +24,10 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pktHdr, 14, ErrExpectingData
 	}
 
+	if pktHdr.PacketLen < minPayloadLen(pktHdr.Typ) {
+		return nil, 14, ErrIllegalPacket
+	}
+
 	switch pktHdr.Typ {
 	case TypeConnPacket:
 		pkt := &ConnPacket{}
@@ -142,6 +146,27 @@ func Decode(data []byte) (Packet, uint32, error) {
 	}
 }
 
+// minPayloadLen returns the length of the fixed fields that a payload of the
+// type starts with, a packet shorter than that can't be decoded.
+func minPayloadLen(typ Type) uint32 {
+	switch typ {
+	case TypeConnPacket, TypeSessionPacket, TypeRequestCancelPacket:
+		return 10
+	case TypeConnAckPacket:
+		return 9
+	case TypeDisConnAckPacket:
+		return 1
+	case TypeSessionAckPacket:
+		return 18
+	case TypeDismissPacket, TypeDismissAckPacket,
+		TypeMessagePacket, TypeMessageAckPacket,
+		TypeStreamPacket, TypeRequestPacket, TypeResponsePacket,
+		TypeRegisterPacket, TypeRegisterAckPacket:
+		return 8
+	}
+	return 0
+}
+
 func DecodeFromReader(reader io.Reader) (Packet, error) {
 	if reader == nil {
 		return nil, ErrInvalidArguments
@@ -153,6 +178,10 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 	}
 	//log.Tracef("DecodeFromReader | incoming underlay %s", pktHdr.Typ.String())
 
+	if pktHdr.PacketLen < minPayloadLen(pktHdr.Typ) {
+		return nil, ErrIllegalPacket
+	}
+
 	switch pktHdr.Typ {
 	case TypeConnPacket:
 		pkt := &ConnPacket{}
-- 
2.43.0


From 358ac7ada97b2165bc3363215ab6ce4e3a8df696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 04/52] fix: bound the memory taken by a packet header that
 announces a huge payload, and consume every payload

---
 packet/decode.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index af895fd..e1ccd7c 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -1,6 +1,7 @@
 package packet
 
 import (
+	"bytes"
 	"errors"
 	"io"
 )
@@ -167,6 +168,23 @@ func minPayloadLen(typ Type) uint32 {
 	return 0
 }
 
+// readPayload reads a payload of the length announced by its header, memory
+// grows with the bytes that really arrived, not with the announced length.
+func readPayload(reader io.Reader, length uint32) ([]byte, error) {
+	buf := &bytes.Buffer{}
+	if length <= 4096 {
+		buf.Grow(int(length))
+	}
+	n, err := io.CopyN(buf, reader, int64(length))
+	if err == io.EOF && n > 0 {
+		err = io.ErrUnexpectedEOF
+	}
+	if err != nil {
+		return nil, err
+	}
+	return buf.Bytes(), nil
+}
+
 func DecodeFromReader(reader io.Reader) (Packet, error) {
 	if reader == nil {
 		return nil, ErrInvalidArguments
@@ -182,6 +200,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		return nil, ErrIllegalPacket
 	}
 
+	payload, err := readPayload(reader, pktHdr.PacketLen)
+	if err != nil {
+		return nil, err
+	}
+	reader = bytes.NewReader(payload)
+
 	switch pktHdr.Typ {
 	case TypeConnPacket:
 		pkt := &ConnPacket{}
-- 
2.43.0


From 80756d7856350b86ec8da090f5d4854ac2171c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 05/52] fix: encode the 320s heartbeat, it was sent as 80s

---
 packet/packet_conn.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..f617382 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -78,8 +78,8 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 	if connPkt.clientIDAcquire {
 		pkt[0] |= 0x08
 	}
-	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+	if connPkt.Heartbeat > Heartbeat5 {
+		pkt[0] |= byte(math.Round(math.Log(float64(connPkt.Heartbeat)/5)/math.Log(4))) & 0x03 << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From a17269e7719b42bcb9354a78f13c76d50d173c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 06/52] fix: the client lost the ConnAck, or crashed, when it
 came before connect waited for it

---
 conn/conn_client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..0d92ad3 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -199,8 +199,9 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// sync must set before the packet send down, in case of the ack coming first
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -401,7 +402,6 @@ func (cc *ClientConn) fini() {
 	}
 	// collect shub
 	cc.shub.Close()
-	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
 	cc.connMtx.Lock()
-- 
2.43.0


From eff6b20a2accc14bd08db3a68002f94671177404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 07/52] fix: a connection that failed or closed while its
 queues were full deadlocked

---
 conn/conn_base.go   | 42 ++++++++++++++++++++++++++++++++++++++++--
 conn/conn_client.go | 14 +++-----------
 conn/conn_server.go | 13 ++-----------
 3 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..21eaf6d 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -99,6 +99,40 @@ func (bc *baseConn) Write(pkt packet.Packet) error {
 	return nil
 }
 
+// writeAside queues a packet without blocking, for handlePkt is the only one to
+// consume the queue and mustn't wait for itself.
+func (bc *baseConn) writeAside(pkt packet.Packet) {
+	select {
+	case bc.writeInCh <- pkt:
+	default:
+		go bc.Write(pkt)
+	}
+}
+
+// finiWrite stops the writes from outside, those who hold the lock may be
+// waiting for room in writeInCh, so it must be drained until they left.
+func (bc *baseConn) finiWrite() {
+	drained := make(chan struct{})
+	go func() {
+		defer close(drained)
+		for pkt := range bc.writeInCh {
+			if bc.failedCh != nil && !packet.ConnLayer(pkt) {
+				bc.failedCh <- pkt
+			}
+		}
+	}()
+	bc.connMtx.Lock()
+	bc.connOK = false
+	close(bc.writeInCh)
+	bc.connMtx.Unlock()
+	<-drained
+	// the net.Conn is closed, let readPkt quit
+	go func(readInCh chan packet.Packet) {
+		for range readInCh {
+		}
+	}(bc.readInCh)
+}
+
 // common read/write/handle
 func (bc *baseConn) writePkt() {
 	writeOutCh := bc.writeOutCh
@@ -116,7 +150,11 @@ func (bc *baseConn) writePkt() {
 			record := !packet.ConnLayer(pkt)
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
-				// write to net Conn error, we should close the layer
+				// write to net Conn error, we should close the layer, and keep
+				// draining until then, or else handlePkt blocks on writeOutCh
+				bc.netconn.Close()
+				for range writeOutCh {
+				}
 				return
 			}
 		}
@@ -170,7 +208,7 @@ func (bc *baseConn) handleInDisConnPacket(pkt *packet.DisConnPacket) iodefine.IO
 		return iodefine.IOErr
 	}
 	retPkt := bc.pf.NewDisConnAckPacket(pkt.PacketID, nil)
-	bc.writeInCh <- retPkt
+	bc.writeAside(retPkt)
 	// send our side close while receiving close packet
 	bc.Close()
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 0d92ad3..c1b62d8 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -302,7 +302,7 @@ func (cc *ClientConn) handleInConnAckPacket(pkt *packet.ConnAckPacket) iodefine.
 		cc.shub.Error(pkt.PacketID, errors.New(pkt.ConnData.Error))
 		// close the conn
 		retPkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- retPkt
+		cc.writeAside(retPkt)
 		return iodefine.IOSuccess
 	}
 	cc.shub.Done(pkt.PacketID)
@@ -385,7 +385,7 @@ func (cc *ClientConn) Close() {
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
 		pkt := cc.pf.NewDisConnPacket()
-		cc.writeInCh <- pkt
+		cc.writeAside(pkt)
 	})
 }
 
@@ -404,15 +404,7 @@ func (cc *ClientConn) fini() {
 	cc.shub.Close()
 	// collect net.Conn
 	cc.netconn.Close()
-	cc.connMtx.Lock()
-	cc.connOK = false
-	close(cc.writeInCh)
-	cc.connMtx.Unlock()
-	for pkt := range cc.writeInCh {
-		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
-			cc.failedCh <- pkt
-		}
-	}
+	cc.finiWrite()
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..7836c59 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -407,7 +407,7 @@ func (sc *ServerConn) Close() {
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
 		pkt := sc.pf.NewDisConnPacket()
-		sc.writeInCh <- pkt
+		sc.writeAside(pkt)
 	})
 }
 
@@ -431,20 +431,11 @@ func (sc *ServerConn) fini() {
 
 	// collect shub
 	sc.shub.Close()
-	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
 	// lock protect conn status and input resource
-	sc.connMtx.Lock()
-	sc.connOK = false
-	close(sc.writeInCh)
-	sc.connMtx.Unlock()
 	// writeInCh must be cared since buffer might still has data
-	for pkt := range sc.writeInCh {
-		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
-			sc.failedCh <- pkt
-		}
-	}
+	sc.finiWrite()
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 4cbe5e1d1d26eca9f696f195929512f84c8eb1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 08/52] fix: Close of a client connection crashed on hbTick
 when it raced with the connection's end

---
 conn/conn_client.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index c1b62d8..a40b6de 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -378,7 +378,6 @@ func (cc *ClientConn) Close() {
 		}
 		if cc.hbTick != nil {
 			cc.hbTick.Cancel()
-			cc.hbTick = nil
 		}
 
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
@@ -398,7 +397,6 @@ func (cc *ClientConn) fini() {
 		cc.clientID, remote, string(cc.meta))
 	if cc.hbTick != nil {
 		cc.hbTick.Cancel()
-		cc.hbTick = nil
 	}
 	// collect shub
 	cc.shub.Close()
-- 
2.43.0


From b496ba3e774797f32e5941b5d4b7439dde7a8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:35 +0000
Subject: [PATCH 09/52] fix: closing a connection whose peer is dead never
 closed the net.Conn

---
 conn/conn_base.go   | 10 ++++++++++
 conn/conn_client.go |  2 ++
 conn/conn_server.go |  2 ++
 3 files changed, 14 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 21eaf6d..5ff43d8 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -4,6 +4,7 @@ import (
 	"io"
 	"net"
 	"sync"
+	"time"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/jumboframes/armorigo/synchub"
@@ -25,6 +26,9 @@ const (
 	CLOSED     = "closed"
 	FINI       = "fini"
 
+	// how long to wait for the peer to finish the close handshake
+	closeTimeout = 30 * time.Second
+
 	ET_CONNSENT  = "connsent"
 	ET_CONNRECV  = "connrecv"
 	ET_CONNACK   = "connack"
@@ -72,6 +76,9 @@ type baseConn struct {
 	// heartbeat
 	hbTick timer.Tick
 
+	// closes the net.Conn if the peer doesn't finish the close handshake
+	closeTmr *time.Timer
+
 	connOK  bool
 	connMtx sync.RWMutex
 }
@@ -123,6 +130,9 @@ func (bc *baseConn) finiWrite() {
 	}()
 	bc.connMtx.Lock()
 	bc.connOK = false
+	if bc.closeTmr != nil {
+		bc.closeTmr.Stop()
+	}
 	close(bc.writeInCh)
 	bc.connMtx.Unlock()
 	<-drained
diff --git a/conn/conn_client.go b/conn/conn_client.go
index a40b6de..b018ee8 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -383,6 +383,8 @@ func (cc *ClientConn) Close() {
 		cc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			cc.clientID, cc.netconn.RemoteAddr(), string(cc.meta))
 
+		// a dead peer never answers, and we don't rely on tmr for it may be closed
+		cc.closeTmr = time.AfterFunc(closeTimeout, func() { cc.netconn.Close() })
 		pkt := cc.pf.NewDisConnPacket()
 		cc.writeAside(pkt)
 	})
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 7836c59..50f3699 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -406,6 +406,8 @@ func (sc *ServerConn) Close() {
 		sc.log.Debugf("client is closing, clientID: %d, remote: %s, meta: %s",
 			sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
 
+		// a dead peer never answers, and we don't rely on tmr for it may be closed
+		sc.closeTmr = time.AfterFunc(closeTimeout, func() { sc.netconn.Close() })
 		pkt := sc.pf.NewDisConnPacket()
 		sc.writeAside(pkt)
 	})
-- 
2.43.0


From 58030fb67df84b6504932f7ddd30993b12e2abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:51 +0000
Subject: [PATCH 10/52] fix: dialogues closing under load deadlocked, or
 crashed sending on closed channels

---
 multiplexer/dialogue.go     | 151 ++++++++++++++++++++++++------------
 multiplexer/dialogue_mgr.go |   8 +-
 2 files changed, 105 insertions(+), 54 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..92f91da 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -27,6 +27,9 @@ const (
 	DISMISSED    = "dismissed"
 	FINI         = "fini"
 
+	// how long to wait for the peer to finish the close handshake
+	closeTimeout = 30 * time.Second
+
 	ET_SESSIONSENT = "sessionsent"
 	ET_SESSIONRECV = "sessionrecv"
 	ET_SESSIONACK  = "sessionrecv"
@@ -72,7 +75,11 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// closeIOCh tells handlePkt to quit, finiCh tells handlePkt quit, and
+	// discardCh tells that nobody cares about the packets to read anymore.
+	closeIOCh, finiCh, discardCh chan struct{}
 
+	discardOnce sync.Once
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
 }
@@ -149,6 +156,9 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		writeOutSize: 32,
 		readOutSize:  32,
 		writeInSize:  32,
+		closeIOCh:    make(chan struct{}),
+		finiCh:       make(chan struct{}),
+		discardCh:    make(chan struct{}),
 	}
 	// states
 	dg.initFSM()
@@ -234,6 +244,38 @@ func (dg *dialogue) WriteWait(pkt packet.Packet) error {
 	return nil
 }
 
+// writeAside queues a packet without blocking, for handlePkt is the only one to
+// consume the queue and mustn't wait for itself. The caller must make sure that
+// the dialogue is not finished.
+func (dg *dialogue) writeAside(pkt packet.Packet) {
+	select {
+	case dg.writeInCh <- pkt:
+	default:
+		go func() {
+			dg.mtx.RLock()
+			defer dg.mtx.RUnlock()
+			if dg.dialogueOK {
+				dg.writeInCh <- pkt
+			}
+		}()
+	}
+}
+
+// readIn takes a packet from under layer, which is dropped if the dialogue quit.
+func (dg *dialogue) readIn(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.finiCh:
+	}
+}
+
+// discard drops the packets which nobody reads from now on
+func (dg *dialogue) discard() {
+	dg.discardOnce.Do(func() {
+		close(dg.discardCh)
+	})
+}
+
 func (dg *dialogue) Read() (packet.Packet, error) {
 	pkt, ok := <-dg.readOutCh
 	if !ok {
@@ -315,11 +357,7 @@ func (dg *dialogue) open() error {
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
+		dg.closeIO()
 	}
 	return event.Error
 }
@@ -343,6 +381,9 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				// keep draining until handlePkt quit, or else it blocks on writeOutCh
+				for range writeOutCh {
+				}
 				return
 			}
 		}
@@ -368,10 +409,20 @@ func (dg *dialogue) handlePkt() {
 
 	for {
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
+		case <-dg.closeIOCh:
+			// those came before the close should be handled
+			for {
+				select {
+				case pkt := <-readInCh:
+					switch dg.handleIn(pkt) {
+					case iodefine.IOClosed, iodefine.IOErr:
+						goto FINI
+					}
+				default:
+					goto FINI
+				}
 			}
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -404,6 +455,8 @@ func (dg *dialogue) handlePkt() {
 FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
+	// from now on nobody handles readInCh
+	close(dg.finiCh)
 
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
@@ -465,7 +518,7 @@ func (dg *dialogue) handleInSessionPacket(pkt *packet.SessionPacket) iodefine.IO
 	dg.meta = pkt.SessionData.Meta
 
 	retPkt := dg.pf.NewSessionAckPacket(pkt.PacketID, pkt.NegotiateID(), dialogueID, nil)
-	dg.writeInCh <- retPkt
+	dg.writeAside(retPkt)
 	return iodefine.IOSuccess
 }
 
@@ -504,7 +557,7 @@ func (dg *dialogue) handleInDismissPacket(pkt *packet.DismissPacket) iodefine.IO
 	}
 	retPkt := dg.pf.NewDismissAckPacket(pkt.ID(),
 		pkt.SessionID(), nil)
-	dg.writeInCh <- retPkt
+	dg.writeAside(retPkt)
 	// send out side dismiss while receiving dismiss packet
 	dg.Close()
 	return iodefine.IOSuccess
@@ -541,7 +594,14 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	dg.readOutCh <- pkt
+	select {
+	case dg.readOutCh <- pkt:
+	default:
+		select {
+		case dg.readOutCh <- pkt:
+		case <-dg.discardCh:
+		}
+	}
 	return iodefine.IOSuccess
 }
 
@@ -639,19 +699,20 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
 			return
 		}
+		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
+		// we need a tick in case of never receiving the dismiss ack packet
+		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(closeTimeout))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-		dg.writeInCh <- pkt
+		dg.writeAside(pkt)
+		// packets not read yet mustn't block the close
+		dg.discard()
 
 		go func() {
 			// we don't use shub WithCallback because the force close may arrive firse
@@ -668,41 +729,25 @@ func (dg *dialogue) Close() {
 	})
 }
 
+// CloseWait closes the dialogue and waits for the end
 func (dg *dialogue) CloseWait() {
-	// send close packet and wait for the end
-	dg.closeOnce.Do(func() {
-		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		dg.mtx.RLock()
-		if !dg.dialogueOK {
-			dg.mtx.RUnlock()
-			return
-		}
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-		dg.log.Debugf("dialogue is closing, clientID: %d, dialogueID: %d",
-			dg.cn.ClientID(), dg.dialogueID)
-
-		dg.writeInCh <- pkt
-		dg.mtx.RUnlock()
-		// the sync shouldn't be locked
-		event := <-dg.closewait.C()
-		if event.Error != nil {
-			dg.log.Debugf("dialogue close wait err: %s, clientID: %d, peerDialogueID: %d, dialogueID: %d",
-				event.Error, dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
-			if event.Error == synchub.ErrSyncTimeout {
-				// timeout and exit the dialogue
-				dg.closeIO()
-			}
-			return
-		}
+	dg.Close()
+	timeout := time.NewTimer(closeTimeout)
+	defer timeout.Stop()
+	select {
+	case <-dg.finiCh:
 		dg.log.Debugf("dialogue closed, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
-		return
-	})
+	case <-timeout.C:
+		dg.log.Debugf("dialogue close wait timeout, clientID: %d, peerDialogueID: %d, dialogueID: %d",
+			dg.cn.ClientID(), dg.peerNegotiatingID, dg.dialogueID)
+		dg.closeIO()
+	}
 }
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		close(dg.closeIOCh)
 	})
 }
 
@@ -717,21 +762,27 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
+	// those who write hold the lock and may be waiting for room in writeInCh, so
+	// it must be drained until they left
+	drained := make(chan struct{})
+	go func(writeInCh chan packet.Packet) {
+		defer close(drained)
+		for pkt := range writeInCh {
+			if dg.failedCh != nil && !packet.SessionLayer(pkt) {
+				dg.failedCh <- pkt
+			}
+		}
+	}(dg.writeInCh)
 	dg.mtx.Lock()
 	// TODO should we move dialogueOK=false to Close and CloseWait?
 	dg.dialogueOK = false
 	close(dg.writeInCh)
 	dg.mtx.Unlock()
+	<-drained
 
 	// collect shub
 	dg.shub.Close()
-	dg.shub = nil
 
-	for pkt := range dg.writeInCh {
-		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
-			dg.failedCh <- pkt
-		}
-	}
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..a8a80ff 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -387,8 +387,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
 		dm.mtx.Unlock()
+		dg.readIn(pkt)
 
 	case *packet.SessionAckPacket:
 		dm.mtx.RLock()
@@ -400,9 +400,9 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			dm.mtx.RUnlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		// TODO do we need handle the packet in time? before data or dismiss coming.
+		dg.readIn(pkt)
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
@@ -426,8 +426,8 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
 		dm.mtx.RUnlock()
+		dg.readIn(pkt)
 	}
 }
 
-- 
2.43.0


From aff4f042320fa9af145a95c547c9081d04c7814e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 11/52] fix: dialogues lost their first data or notifications,
 or crashed, while opening and closing raced

---
 multiplexer/dialogue.go     |   6 +-
 multiplexer/dialogue_mgr.go | 132 ++++++++++++++++++++++++------------
 2 files changed, 94 insertions(+), 44 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 92f91da..ddc85ad 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -532,8 +533,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
+	if pkt.SessionData.Error != "" {
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index a8a80ff..87ac0a4 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -52,6 +52,9 @@ type dialogueMgr struct {
 
 	// close channel
 	closeCh chan struct{}
+	// quitCh tells those waiting that dialogueMgr is closing or finished
+	quitCh   chan struct{}
+	quitOnce sync.Once
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -142,6 +145,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		dialogues:            make(map[uint64]*dialogue),
 		negotiatingDialogues: make(map[uint64]*dialogue),
 		closeCh:              make(chan struct{}),
+		quitCh:               make(chan struct{}),
 	}
 	// dialogue id counter
 	if dm.cn.Side() == geminio.RecipientSide {
@@ -193,9 +197,8 @@ ERR:
 func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	dm.log.Debugf("dialogue online, clientID: %d, add dialogueID: %d", dg.ClientID(), dg.DialogueID())
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	if !dm.mgrOK {
+		dm.mtx.Unlock()
 		return ErrOperationOnClosedMultiplexer
 	}
 	// remove from the negotiating dialogues, and add to ready dialogues.
@@ -204,6 +207,8 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
+	dm.mtx.Unlock()
+	// the outside may take long or call back, so don't notify it with the lock held
 	if dm.dlgt != nil {
 		dm.dlgt.DialogueOnline(dg)
 	}
@@ -212,8 +217,15 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 		dm.dialogueAcceptFn(dg.(Dialogue))
 
 	} else if dm.dialogueAcceptCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueAcceptCh <- dg.(*dialogue)
+		select {
+		case dm.dialogueAcceptCh <- dg.(*dialogue):
+		case <-dm.quitCh:
+			// it's not going to be onlined, then no offline either
+			if dm.dlgt != nil {
+				dm.dlgt.DialogueOffline(dg)
+			}
+			return ErrOperationOnClosedMultiplexer
+		}
 	}
 	return nil
 }
@@ -224,11 +236,10 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 
 	dm.log.Debugf("dialogue offline, clientID: %d, del dialogueID: %d", clientID, dialogueID)
 	dm.mtx.Lock()
-	defer dm.mtx.Unlock()
-
 	_, ok := dm.dialogues[dialogueID]
+	delete(dm.dialogues, dialogueID)
+	dm.mtx.Unlock()
 	if ok {
-		delete(dm.dialogues, dialogueID)
 		if dm.dlgt != nil {
 			dm.dlgt.DialogueOffline(dg)
 		}
@@ -240,9 +251,14 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
 	} else if dm.dialogueClosedCh != nil {
-		// this must not be blocked, or else the whole system will stop
-		dm.dialogueClosedCh <- dg.(*dialogue)
-
+		select {
+		case dm.dialogueClosedCh <- dg.(*dialogue):
+		default:
+			select {
+			case dm.dialogueClosedCh <- dg.(*dialogue):
+			case <-dm.quitCh:
+			}
+		}
 	}
 	// unsucceed dialogue
 	return ErrDialogueNotFound
@@ -278,6 +294,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		return nil, err
 	}
 	dm.mtx.Lock()
+	if !dm.mgrOK {
+		dm.mtx.Unlock()
+		dg.closeIO()
+		return nil, ErrOperationOnClosedMultiplexer
+	}
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
@@ -286,21 +307,20 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
+		for id, opened := range dm.dialogues {
+			if opened == dg {
+				delete(dm.dialogues, id)
+			}
+		}
 		dm.mtx.Unlock()
 		return nil, err
 	}
-	dm.mtx.Lock()
-	delete(dm.negotiatingDialogues, negotiatingID)
+	// it's been moved to the ready dialogues since the session ack
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	if !dm.mgrOK {
-		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
-		dm.mtx.Unlock()
-		dg.fini()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
-	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
-	dm.mtx.Unlock()
 	return dg, nil
 }
 
@@ -309,11 +329,7 @@ func (dm *dialogueMgr) AcceptDialogue() (Dialogue, error) {
 	if dm.dialogueAcceptCh == nil {
 		return nil, ErrAcceptChNotEnabled
 	}
-	dg, ok := <-dm.dialogueAcceptCh
-	if !ok {
-		return nil, io.EOF
-	}
-	return dg, nil
+	return dm.waitDialogue(dm.dialogueAcceptCh)
 }
 
 // ClosedDialogue blocks until success or end
@@ -321,11 +337,21 @@ func (dm *dialogueMgr) ClosedDialogue() (Dialogue, error) {
 	if dm.dialogueClosedCh == nil {
 		return nil, ErrClosedChNotEnabled
 	}
-	dg, ok := <-dm.dialogueClosedCh
-	if !ok {
+	return dm.waitDialogue(dm.dialogueClosedCh)
+}
+
+func (dm *dialogueMgr) waitDialogue(ch <-chan *dialogue) (Dialogue, error) {
+	select {
+	case dg := <-ch:
+		return dg, nil
+	case <-dm.quitCh:
+	}
+	select {
+	case dg := <-ch:
+		return dg, nil
+	default:
 		return nil, io.EOF
 	}
-	return dg, nil
 }
 
 func (dm *dialogueMgr) ListDialogues() []Dialogue {
@@ -343,6 +369,8 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
+	defer dm.mtx.RUnlock()
 	dialogue, ok := dm.dialogues[dialogueID]
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
@@ -366,6 +394,10 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// the conn may be still reading, and it can't finish unless somebody takes
+	// the packets
+	for range dm.cn.ChannelRead() {
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
@@ -391,17 +423,28 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dg.readIn(pkt)
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		dm.mtx.RUnlock()
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		if realPkt.SessionData.Error == "" {
+			_, ok = dm.dialogues[realPkt.SessionID()]
+			if ok {
+				dm.log.Errorf("clientID: %d, dialogueID: %d exists already",
+					dm.cn.ClientID(), realPkt.SessionID())
+				dm.mtx.Unlock()
+				return
+			}
+			// data or dismiss may follow immediately, they must find the dialogue
+			delete(dm.negotiatingDialogues, realPkt.NegotiateID())
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
+		dm.mtx.Unlock()
 		dg.readIn(pkt)
 
 	default:
@@ -434,8 +477,13 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 func (dm *dialogueMgr) Close() {
 	dm.log.Debugf("dialogue manager is closing, clientID: %d", dm.cn.ClientID())
 	wg := sync.WaitGroup{}
+	dm.quit()
 	dm.mtx.RLock()
 	if !dm.mgrOK {
+		// the dialogues are quitting, packets nobody reads mustn't hold them
+		for _, dg := range dm.dialogues {
+			dg.discard()
+		}
 		dm.mtx.RUnlock()
 		return
 	}
@@ -463,6 +511,12 @@ func (dm *dialogueMgr) Close() {
 	return
 }
 
+func (dm *dialogueMgr) quit() {
+	dm.quitOnce.Do(func() {
+		close(dm.quitCh)
+	})
+}
+
 func (dm *dialogueMgr) fini() {
 	dm.log.Debugf("dialogue manager finishing, clientID: %d", dm.cn.ClientID())
 
@@ -472,10 +526,10 @@ func (dm *dialogueMgr) fini() {
 	// collect conn status
 	dm.mgrOK = false
 	// collect all dialogues
-	for id, dg := range dm.dialogues {
+	// they quit with DialogueOffline and delete themselves
+	for _, dg := range dm.dialogues {
 		// cause the dialogue io err
 		dg.closeIO()
-		delete(dm.dialogues, id)
 	}
 	for id, dg := range dm.negotiatingDialogues {
 		// cause the dialogue io err
@@ -485,20 +539,12 @@ func (dm *dialogueMgr) fini() {
 
 	// collect id
 	dm.dialogueIDs.Close()
-	dm.dialogueIDs = nil
-	// collect channels
-	if !dm.dialogueAcceptChOutside && dm.dialogueAcceptCh != nil {
-		close(dm.dialogueAcceptCh)
-	}
-	if !dm.dialogueClosedChOutside && dm.dialogueClosedCh != nil {
-		close(dm.dialogueClosedCh)
-	}
-	// dm.dialogueAcceptCh, dm.dialogueClosedCh = nil, nil
+	// those who accept or being accepted should quit
+	dm.quit()
 	// collect timer
 	if dm.tmrOwner == dm {
 		dm.tmr.Close()
 	}
-	dm.tmr = nil
 
 	dm.log.Debugf("dialogue manager finished, clientID: %d", dm.cn.ClientID())
 }
-- 
2.43.0


From 542f55190c485a3667318bff653cfdbe0f9d23c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 12/52] fix: heavy traffic in both directions deadlocked the
 connection

---
 conn/conn_base.go       | 28 ++++++++++++++++++++++++--
 conn/conn_client.go     |  8 +++++---
 conn/conn_server.go     | 10 ++++++----
 multiplexer/dialogue.go | 44 ++++++++++++++++++++++++++++++++++-------
 4 files changed, 74 insertions(+), 16 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 5ff43d8..bacbe74 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -72,6 +72,8 @@ type baseConn struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// packets waiting for room in writeOutCh, only for handlePkt's use
+	writeOutPending []packet.Packet
 
 	// heartbeat
 	hbTick timer.Tick
@@ -116,6 +118,28 @@ func (bc *baseConn) writeAside(pkt packet.Packet) {
 	}
 }
 
+// writeOut hands a packet to writePkt without blocking, for handlePkt must keep
+// taking the packets to read, or else both sides may wait for each other.
+func (bc *baseConn) writeOut(pkt packet.Packet) {
+	if len(bc.writeOutPending) == 0 {
+		select {
+		case bc.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	bc.writeOutPending = append(bc.writeOutPending, pkt)
+}
+
+// toWrite gives what handlePkt should wait for at the write direction: packets
+// from outside are not taken until those pending are written out.
+func (bc *baseConn) toWrite() (<-chan packet.Packet, chan<- packet.Packet, packet.Packet) {
+	if len(bc.writeOutPending) == 0 {
+		return bc.writeInCh, nil, nil
+	}
+	return nil, bc.writeOutCh, bc.writeOutPending[0]
+}
+
 // finiWrite stops the writes from outside, those who hold the lock may be
 // waiting for room in writeInCh, so it must be drained until they left.
 func (bc *baseConn) finiWrite() {
@@ -248,7 +272,7 @@ func (bc *baseConn) handleOutDisConnPacket(pkt *packet.DisConnPacket) iodefine.I
 			err, bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta), bc.fsm.State())
 		return iodefine.IOErr
 	}
-	bc.writeOutCh <- pkt
+	bc.writeOut(pkt)
 	bc.log.Debugf("send dis conn down succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
@@ -275,7 +299,7 @@ func (bc *baseConn) handleOutDisConnAckPacket(pkt *packet.DisConnAckPacket) iode
 }
 
 func (bc *baseConn) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	bc.writeOutCh <- pkt
+	bc.writeOut(pkt)
 	bc.log.Tracef("send data succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		bc.clientID, pkt.ID(), bc.netconn.RemoteAddr(), string(bc.meta))
 	return iodefine.IOSuccess
diff --git a/conn/conn_client.go b/conn/conn_client.go
index b018ee8..e1326fb 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -216,9 +216,11 @@ func (cc *ClientConn) connect() error {
 
 func (cc *ClientConn) handlePkt() {
 	readInCh := cc.readInCh
-	writeInCh := cc.writeInCh
 	for {
+		writeInCh, writeOutCh, pending := cc.toWrite()
 		select {
+		case writeOutCh <- pending:
+			cc.writeOutPending = cc.writeOutPending[1:]
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -345,14 +347,14 @@ func (cc *ClientConn) handleOutConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 		cc.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
-	cc.writeOutCh <- pkt
+	cc.writeOut(pkt)
 	cc.log.Debugf("send conn succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
 }
 
 func (cc *ClientConn) handleOutHeartbeatPacket(pkt *packet.HeartbeatPacket) iodefine.IORet {
-	cc.writeOutCh <- pkt
+	cc.writeOut(pkt)
 	cc.log.Debugf("send heartbeat succeed, clientID: %d, PacketID: %d, packetType: %s",
 		cc.clientID, pkt.ID(), pkt.Type().String())
 	return iodefine.IOSuccess
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 50f3699..48faa45 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -205,9 +205,11 @@ func (sc *ServerConn) initFSM() {
 
 func (sc *ServerConn) handlePkt() {
 	readInCh := sc.readInCh
-	writeInCh := sc.writeInCh
 	for {
+		writeInCh, writeOutCh, pending := sc.toWrite()
 		select {
+		case writeOutCh <- pending:
+			sc.writeOutPending = sc.writeOutPending[1:]
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -346,7 +348,7 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
 
 	retPkt := sc.pf.NewHeartbeatAckPacket(pkt.PacketID)
-	sc.writeOutCh <- retPkt
+	sc.writeOut(retPkt)
 	if sc.dlgt != nil {
 		sc.dlgt.Heartbeat(sc)
 	}
@@ -378,7 +380,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 				pkt.ConnData.Error, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 			return iodefine.IOErr
 		}
-		sc.writeOutCh <- pkt
+		sc.writeOut(pkt)
 		// this situation shouldn't be seen as connected, so don't set onlined.
 		return iodefine.IOSuccess
 	}
@@ -388,7 +390,7 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 			err, sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta), sc.fsm.State())
 		return iodefine.IOErr
 	}
-	sc.writeOutCh <- pkt
+	sc.writeOut(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
 	sc.onlined = true
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index ddc85ad..5c861b4 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -76,6 +76,8 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// packets waiting for room in writeOutCh, only for handlePkt's use
+	writeOutPending []packet.Packet
 	// closeIOCh tells handlePkt to quit, finiCh tells handlePkt quit, and
 	// discardCh tells that nobody cares about the packets to read anymore.
 	closeIOCh, finiCh, discardCh chan struct{}
@@ -262,6 +264,28 @@ func (dg *dialogue) writeAside(pkt packet.Packet) {
 	}
 }
 
+// writeOut hands a packet to writePkt without blocking, for handlePkt must keep
+// taking the packets to read, or else both sides may wait for each other.
+func (dg *dialogue) writeOut(pkt packet.Packet) {
+	if len(dg.writeOutPending) == 0 {
+		select {
+		case dg.writeOutCh <- pkt:
+			return
+		default:
+		}
+	}
+	dg.writeOutPending = append(dg.writeOutPending, pkt)
+}
+
+// toWrite gives what handlePkt should wait for at the write direction: packets
+// from outside are not taken until those pending are written out.
+func (dg *dialogue) toWrite() (<-chan packet.Packet, chan<- packet.Packet, packet.Packet) {
+	if len(dg.writeOutPending) == 0 {
+		return dg.writeInCh, nil, nil
+	}
+	return nil, dg.writeOutCh, dg.writeOutPending[0]
+}
+
 // readIn takes a packet from under layer, which is dropped if the dialogue quit.
 func (dg *dialogue) readIn(pkt packet.Packet) {
 	select {
@@ -406,10 +430,12 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 
 func (dg *dialogue) handlePkt() {
 	readInCh := dg.readInCh
-	writeInCh := dg.writeInCh
 
 	for {
+		writeInCh, writeOutCh, pending := dg.toWrite()
 		select {
+		case writeOutCh <- pending:
+			dg.writeOutPending = dg.writeOutPending[1:]
 		case <-dg.closeIOCh:
 			// those came before the close should be handled
 			for {
@@ -617,7 +643,7 @@ func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.I
 			err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOut(pkt)
 	dg.log.Debugf("send dialogue down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 	return iodefine.IOSuccess
@@ -637,7 +663,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 					err, dg.cn.ClientID(), pkt.NegotiateID(), pkt.ID())
 				return iodefine.IOErr
 			}
-			dg.writeOutCh <- pkt
+			dg.writeOut(pkt)
 			// to tell peer the dialogue handshake is error, and peer should dismiss the dialogue.
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOSuccess
@@ -649,7 +675,7 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOut(pkt)
 	dg.log.Debugf("dialogue write session ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 
@@ -664,7 +690,7 @@ func (dg *dialogue) handleOutDismissPacket(pkt *packet.DismissPacket) iodefine.I
 			err, dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 		return iodefine.IOErr
 	}
-	dg.writeOutCh <- pkt
+	dg.writeOut(pkt)
 	dg.log.Debugf("dialogue write dismiss down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -681,7 +707,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 	// dg.dowritePkt(pkt, false) changes to dg.writeOutCh <- pkt
 	// because this packet should be after all upper layer packets
 	// at last the close(dg.writeOutCh) makes sure the flush
-	dg.writeOutCh <- pkt
+	dg.writeOut(pkt)
 	dg.log.Debugf("dialogue write dismiss ack down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	if dg.fsm.State() == DISMISS_HALF {
@@ -695,7 +721,7 @@ func (dg *dialogue) handleOutDismissAckPacket(pkt *packet.DismissAckPacket) iode
 }
 
 func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
-	dg.writeOutCh <- pkt
+	dg.writeOut(pkt)
 	dg.log.Tracef("dialogue write data down succeed, clientID: %d, dialogueID: %d, packetID: %d",
 		dg.cn.ClientID(), dg.dialogueID, pkt.ID())
 	return iodefine.IOSuccess
@@ -790,6 +816,10 @@ func (dg *dialogue) fini() {
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
+	for _, pkt := range dg.writeOutPending {
+		dg.writeOutCh <- pkt
+	}
+	dg.writeOutPending = nil
 	close(dg.writeOutCh)
 	// collect channels
 	dg.writeInCh, dg.writeOutCh = nil, nil
-- 
2.43.0


From 0d7b08203e2497364edee232b6d47c8ba57237ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:57 +0000
Subject: [PATCH 13/52] fix: a stream that came before the server end was ready
 crashed the server

---
 server/end.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/server/end.go b/server/end.go
index 36e1357..c67f59e 100644
--- a/server/end.go
+++ b/server/end.go
@@ -47,6 +47,13 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		// application
 		ep     geminio.End
 		epOpts []application.EndOption
+		// dialogues may come before ep is ready
+		epReady = make(chan struct{})
+		epGet   = func() *application.End {
+			<-epReady
+			end, _ := ep.(*application.End)
+			return end
+		}
 	)
 	// we share packet factory, log, timer and delegate for follow 3 layers.
 
@@ -68,12 +75,16 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			if end := epGet(); end != nil {
+				end.AcceptDialogue(dg)
+			}
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			if end := epGet(); end != nil {
+				end.ClosedDialogue(dg)
+			}
 		}
 	}
 	// multiplexer
@@ -115,6 +126,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		epOpts = append(epOpts, application.OptionWithRemoteRPCCheck())
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
+	close(epReady)
 	if err != nil {
 		goto ERR
 	}
-- 
2.43.0


From a39f27a461b64c49e4f7767b0cc99a2742228b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:00 +0000
Subject: [PATCH 14/52] fix: an end that failed to start left its connection
 behind

---
 client/end.go | 3 +++
 server/end.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/client/end.go b/client/end.go
index ec8d17e..8e36d73 100644
--- a/client/end.go
+++ b/client/end.go
@@ -92,6 +92,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -108,6 +109,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	if err != nil {
+		mp.Close()
+		cn.Close()
 		goto ERR
 	}
 	// client
diff --git a/server/end.go b/server/end.go
index c67f59e..e5d9140 100644
--- a/server/end.go
+++ b/server/end.go
@@ -105,6 +105,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	}
 	mp, err = multiplexer.NewDialogueMgr(cn, mpOpts...)
 	if err != nil {
+		cn.Close()
 		goto ERR
 	}
 	// application
@@ -128,6 +129,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	ep, err = application.NewEnd(cn, mp, epOpts...)
 	close(epReady)
 	if err != nil {
+		mp.Close()
+		cn.Close()
 		goto ERR
 	}
 	se.End = ep
-- 
2.43.0


From 141cb68ae2e2db020f928ad6e3779ac7a4db6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 15/52] fix: streams that finished under load crashed,
 deadlocked or left calls waiting forever

---
 application/end.go      |  9 +++---
 application/stream.go   | 61 +++++++++++++++++++++++++++++++----------
 multiplexer/dialogue.go | 33 ++++++++++++++++------
 3 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..6def071 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -196,7 +195,6 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -210,7 +208,6 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -233,6 +230,10 @@ func (end *End) Addr() net.Addr {
 
 func (end *End) Close() error {
 	end.onceClose.Do(func() {
+		end.streams.Range(func(_, value interface{}) bool {
+			value.(*stream).Close()
+			return true
+		})
 		end.multiplexer.Close()
 		end.cn.Close()
 		if end.tmrOwner == end {
@@ -247,7 +248,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
@@ -255,7 +255,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index 9940afa..0272b05 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -67,6 +67,10 @@ type stream struct {
 	streamOK  bool
 	closeOnce *gsync.Once
 	finiOnce  *gsync.Once
+	// closeCh tells the stream is closed from outside, nobody reads anymore
+	closeCh chan struct{}
+	// no packet should be delivered after a discarded one, only for readPkt's use
+	discarding bool
 
 	// app layer messages
 	// raw cache
@@ -102,6 +106,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		streamOK:          true,
 		closeOnce:         new(gsync.Once),
 		finiOnce:          new(gsync.Once),
+		closeCh:           make(chan struct{}),
 		messageCh:         make(chan *packet.MessagePacket, 32),
 		streamCh:          make(chan *packet.StreamPacket, 32),
 		failedCh:          make(chan packet.Packet),
@@ -109,6 +114,8 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	// must be stored before it may finish
+	end.streams.Store(sm.StreamID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
@@ -145,12 +152,20 @@ func (sm *stream) Side() geminio.Side {
 // main handle logic
 func (sm *stream) handlePkt() {
 	writeInCh := sm.writeInCh
+	// those waiting should be notified once the dialogue is gone, even if readPkt
+	// is blocked by the packets nobody reads
+	gone := (<-chan struct{})(nil)
+	if dg, ok := sm.dg.(interface{ Gone() <-chan struct{} }); ok {
+		gone = dg.Gone()
+	}
 
 	for {
 		select {
+		case <-gone:
+			goto FINI
 		case pkt, ok := <-writeInCh:
 			if !ok {
-				// BUG! shoud never be here.
+				// the stream is finished by readPkt
 				goto FINI
 			}
 			sm.log.Tracef("stream write in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
@@ -188,12 +203,18 @@ func (sm *stream) readPkt() {
 				sm.log.Infof("stream read in packet but buffer full and discard, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 			case iodefine.IOErr:
+				sm.dg.Close()
+				for range readInCh {
+				}
 				goto FINI
 			}
 		}
 	}
 FINI:
 	sm.finiOnce.Do(sm.fini)
+	// the outside should care about message and stream channel status
+	close(sm.messageCh)
+	close(sm.streamCh)
 }
 
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -241,6 +262,9 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 	sm.log.Tracef("read message packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	// we don't want block here, and also we don't want discard immediately.
+	if sm.discarding {
+		return iodefine.IODiscard
+	}
 	select {
 	case sm.messageCh <- pkt:
 		/*
@@ -250,6 +274,13 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 					sm.dg.WriteWait(pkt)
 					return iodefine.IODiscard
 		*/
+	case <-sm.closeCh:
+		select {
+		case sm.messageCh <- pkt:
+		default:
+			sm.discarding = true
+			return iodefine.IODiscard
+		}
 	}
 	return iodefine.IOSuccess
 }
@@ -536,6 +567,8 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 
 func (sm *stream) Close() error {
 	sm.closeOnce.Do(func() {
+		// packets not read yet mustn't block the close
+		close(sm.closeCh)
 		sm.mtx.RLock()
 		defer sm.mtx.RUnlock()
 		if !sm.streamOK {
@@ -555,29 +588,27 @@ func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
+	// those who write hold the lock and may be waiting for room in writeInCh, so
+	// it must be drained until they left
+	drained := make(chan struct{})
+	go func() {
+		defer close(drained)
+		for pkt := range sm.writeInCh {
+			sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
+		}
+	}()
 	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
-
 	sm.streamOK = false
 	close(sm.writeInCh)
-
-	for pkt := range sm.writeInCh {
-		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
-	}
-	sm.writeInCh = nil
+	sm.mtx.Unlock()
+	<-drained
+	// collect shub, and all syncs will be close notified
 	sm.shub.Close()
-	sm.shub = nil
-
-	// the outside should care about message and stream channel status
-	close(sm.messageCh)
-	close(sm.streamCh)
 
 	// collect timer
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 5c861b4..2ea28bc 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -78,9 +78,12 @@ type dialogue struct {
 	failedCh                 chan packet.Packet
 	// packets waiting for room in writeOutCh, only for handlePkt's use
 	writeOutPending []packet.Packet
-	// closeIOCh tells handlePkt to quit, finiCh tells handlePkt quit, and
-	// discardCh tells that nobody cares about the packets to read anymore.
-	closeIOCh, finiCh, discardCh chan struct{}
+	// closeIOCh tells handlePkt to quit, finiCh tells handlePkt quit, goneCh
+	// tells the dialogue is finished, and discardCh tells that nobody cares about
+	// the packets to read anymore.
+	closeIOCh, finiCh, goneCh, discardCh chan struct{}
+	// no packet should be delivered after a discarded one, only for handlePkt's use
+	discarding bool
 
 	discardOnce sync.Once
 	closeOnce   *gsync.Once
@@ -161,6 +164,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		writeInSize:  32,
 		closeIOCh:    make(chan struct{}),
 		finiCh:       make(chan struct{}),
+		goneCh:       make(chan struct{}),
 		discardCh:    make(chan struct{}),
 	}
 	// states
@@ -313,6 +317,11 @@ func (dg *dialogue) ReadC() <-chan packet.Packet {
 	return dg.readOutCh
 }
 
+// Gone tells the dialogue is finished, while some packets may not be read yet
+func (dg *dialogue) Gone() <-chan struct{} {
+	return dg.goneCh
+}
+
 func (dg *dialogue) initFSM() {
 	init := dg.fsm.AddState(INIT)
 	sessionsent := dg.fsm.AddState(SESSION_SENT)
@@ -624,15 +633,22 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
+	if dg.discarding {
+		return iodefine.IODiscard
+	}
 	select {
 	case dg.readOutCh <- pkt:
+		return iodefine.IOSuccess
 	default:
-		select {
-		case dg.readOutCh <- pkt:
-		case <-dg.discardCh:
-		}
 	}
-	return iodefine.IOSuccess
+	select {
+	case dg.readOutCh <- pkt:
+		return iodefine.IOSuccess
+	case <-dg.discardCh:
+	case <-dg.closeIOCh:
+	}
+	dg.discarding = true
+	return iodefine.IODiscard
 }
 
 // output packet
@@ -829,6 +845,7 @@ func (dg *dialogue) fini() {
 	dg.fsm.EmitEvent(ET_FINI)
 	dg.fsm.Close()
 	dg.fsm = nil
+	close(dg.goneCh)
 
 	dg.log.Debugf("dialogue finished, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
-- 
2.43.0


From 8d456cc2b04d5281f103574c1f4cf3c66a01713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 16/52] fix: closing a stream or an end lost what was just
 written

---
 application/end.go    |  5 +++++
 application/stream.go | 49 +++++++++++++++++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index 6def071..622c53f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -230,10 +230,15 @@ func (end *End) Addr() net.Addr {
 
 func (end *End) Close() error {
 	end.onceClose.Do(func() {
+		streams := []*stream{}
 		end.streams.Range(func(_, value interface{}) bool {
+			streams = append(streams, value.(*stream))
 			value.(*stream).Close()
 			return true
 		})
+		for _, sm := range streams {
+			<-sm.flushedCh
+		}
 		end.multiplexer.Close()
 		end.cn.Close()
 		if end.tmrOwner == end {
diff --git a/application/stream.go b/application/stream.go
index 0272b05..fbde0ba 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -28,6 +28,9 @@ var (
 
 const (
 	registrationFormat = "%d-%d-registration"
+
+	// how long to wait for what was written before the close
+	closeTimeout = 30 * time.Second
 )
 
 type patternRPC struct {
@@ -67,8 +70,10 @@ type stream struct {
 	streamOK  bool
 	closeOnce *gsync.Once
 	finiOnce  *gsync.Once
-	// closeCh tells the stream is closed from outside, nobody reads anymore
-	closeCh chan struct{}
+	// closeCh tells the stream is closed from outside, nobody reads anymore, and
+	// flushedCh tells what was written before has been handed to the dialogue
+	closeCh, flushedCh chan struct{}
+	flushOnce          sync.Once
 	// no packet should be delivered after a discarded one, only for readPkt's use
 	discarding bool
 
@@ -107,6 +112,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		closeOnce:         new(gsync.Once),
 		finiOnce:          new(gsync.Once),
 		closeCh:           make(chan struct{}),
+		flushedCh:         make(chan struct{}),
 		messageCh:         make(chan *packet.MessagePacket, 32),
 		streamCh:          make(chan *packet.StreamPacket, 32),
 		failedCh:          make(chan packet.Packet),
@@ -252,6 +258,11 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
 		return sm.handleOutRegisterPacket(realPkt)
+	case *packet.DismissPacket:
+		// all packets written before the close are handed to the dialogue
+		sm.dg.Close()
+		sm.flushed()
+		return iodefine.IOSuccess
 	}
 	// unknown packet
 	return iodefine.IOSuccess
@@ -577,12 +588,41 @@ func (sm *stream) Close() error {
 
 		sm.log.Debugf("stream async close, clientID: %d, dialogueID: %d",
 			sm.cn.ClientID(), sm.dg.DialogueID())
-		// diglogue Close will leads to fini and then close the readInCh
-		sm.dg.Close()
+		// diglogue Close will leads to fini and then close the readInCh, but it
+		// should come after those have been written
+		pkt := sm.pf.NewDismissPacket(sm.dg.DialogueID())
+		select {
+		case sm.writeInCh <- pkt:
+		default:
+			go func() {
+				sm.mtx.RLock()
+				defer sm.mtx.RUnlock()
+				if sm.streamOK {
+					sm.writeInCh <- pkt
+				}
+			}()
+		}
+		// in case of the peer takes nothing
+		go func() {
+			timeout := time.NewTimer(closeTimeout)
+			defer timeout.Stop()
+			select {
+			case <-timeout.C:
+				sm.dg.Close()
+				sm.flushed()
+			case <-sm.flushedCh:
+			}
+		}()
 	})
 	return nil
 }
 
+func (sm *stream) flushed() {
+	sm.flushOnce.Do(func() {
+		close(sm.flushedCh)
+	})
+}
+
 // finish and reclaim resources
 func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
@@ -604,6 +644,7 @@ func (sm *stream) fini() {
 	<-drained
 	// collect shub, and all syncs will be close notified
 	sm.shub.Close()
+	sm.flushed()
 
 	// collect timer
 	if sm.tmrOwner == sm {
-- 
2.43.0


From e3465f8add0c8c47bc068b61271c24e7d65dc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 17/52] fix: deadlines set in the past or racing with Read and
 Write hung them, concurrent Reads lost bytes

A deadline that was already exceeded didn't wake pending Reads and Writes, one
that fired between the check and the registration was lost, and a Read cached
over what another Read had cached. Data received was lost at the close.
---
 application/raw.go    | 156 +++++++++++++++++-------------------------
 application/stream.go |   2 +-
 2 files changed, 63 insertions(+), 95 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..976f75d 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,55 +1,42 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
 	"time"
-
-	"github.com/jumboframes/armorigo/synchub"
-)
-
-const (
-	deadlineReadSyncKey  = "geminio:read_deadline"
-	deadlineWriteSyncKey = "geminio:write_deadline"
 )
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
+	// one Read at a time, or else they may overwrite the cache of each other
 	sm.cacheMtx.Lock()
+	defer sm.cacheMtx.Unlock()
+
+	// what has been received should be read even if the stream is closed
 	if sm.cache != nil && len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
-	if sm.readDeadlineExceeded() {
+	dlCh := make(chan struct{})
+	sm.dlMtx.Lock()
+	if exceeded(sm.dlRead) {
+		sm.dlMtx.Unlock()
 		select {
 		case pkt, ok := <-sm.streamCh:
 			if !ok {
 				return 0, io.EOF
 			}
-			sm.cacheMtx.Lock()
 			n := copy(b, pkt.Data)
 			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
 			return n, nil
 		default:
 			return 0, os.ErrDeadlineExceeded
 		}
 	}
-
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlReadChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -61,10 +48,8 @@ func (sm *stream) Read(b []byte) (int, error) {
 			sm.dlMtx.Unlock()
 			return 0, io.EOF
 		}
-		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
 		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
 
 		// if we have't used the deadline channel, then release it
 		sm.dlMtx.Lock()
@@ -88,7 +73,10 @@ func (sm *stream) Write(b []byte) (int, error) {
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	dlCh := make(chan struct{})
+	sm.dlMtx.Lock()
+	if exceeded(sm.dlWrite) {
+		sm.dlMtx.Unlock()
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -97,8 +85,6 @@ func (sm *stream) Write(b []byte) (int, error) {
 		}
 	}
 
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
 	e := sm.dlWriteChList.PushBack(dlCh)
 	sm.dlMtx.Unlock()
 
@@ -166,34 +152,27 @@ func (sm *stream) SetReadDeadline(t time.Time) error {
 }
 
 func (sm *stream) setReadDeadline(t time.Time) error {
-	if sm.dlReadSync != nil {
-		sm.dlReadSync.Cancel(false)
-		sm.dlReadSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
+	if sm.dlReadTimer != nil {
+		sm.dlReadTimer.Stop()
+		sm.dlReadTimer = nil
 	}
 	sm.dlRead = t
+	if t.IsZero() {
+		return nil
+	}
+	if exceeded(t) {
+		notifyDeadline(sm.dlReadChList)
+		return nil
+	}
+	sm.dlReadTimer = time.AfterFunc(time.Until(t), func() {
+		// deadline exceeds
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		// the deadline may have been changed in the meantime
+		if sm.dlRead.Equal(t) {
+			notifyDeadline(sm.dlReadChList)
+		}
+	})
 	return nil
 }
 
@@ -209,53 +188,42 @@ func (sm *stream) SetWriteDeadline(t time.Time) error {
 }
 
 func (sm *stream) setWriteDeadline(t time.Time) error {
-	if sm.dlWriteSync != nil {
-		sm.dlWriteSync.Cancel(false)
-		sm.dlWriteSync = nil
-	}
-	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
+	if sm.dlWriteTimer != nil {
+		sm.dlWriteTimer.Stop()
+		sm.dlWriteTimer = nil
 	}
 	sm.dlWrite = t
+	if t.IsZero() {
+		return nil
+	}
+	if exceeded(t) {
+		notifyDeadline(sm.dlWriteChList)
+		return nil
+	}
+	sm.dlWriteTimer = time.AfterFunc(time.Until(t), func() {
+		// deadline exceeds
+		sm.dlMtx.Lock()
+		defer sm.dlMtx.Unlock()
+		// the deadline may have been changed in the meantime
+		if sm.dlWrite.Equal(t) {
+			notifyDeadline(sm.dlWriteChList)
+		}
+	})
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
-	}
-	return false
+func exceeded(deadline time.Time) bool {
+	return !deadline.IsZero() && !time.Now().Before(deadline)
 }
 
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
-
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+// notifyDeadline wakes all waiting Read or Write
+func notifyDeadline(chs *list.List) {
+	e := chs.Front()
+	for e != nil {
+		ch, _ := e.Value.(chan struct{})
+		close(ch)
+		olde := e
+		e = e.Next()
+		chs.Remove(olde)
 	}
-	return false
 }
diff --git a/application/stream.go b/application/stream.go
index fbde0ba..8597fb9 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -88,7 +88,7 @@ type stream struct {
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
-	dlReadSync, dlWriteSync     synchub.Sync
+	dlReadTimer, dlWriteTimer   *time.Timer
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
 
-- 
2.43.0


From 221f90ffda662ca82dd29a47946bea2058cfed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 18/52] fix: bytes written to a stream were dropped once the
 reader was 32 packets behind

---
 application/stream.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 8597fb9..43c3e8e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -466,11 +466,19 @@ func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodef
 func (sm *stream) handleInStreamPacket(pkt *packet.StreamPacket) iodefine.IORet {
 	sm.log.Tracef("read stream packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	// it's a byte stream, we can't discard anything in the middle of it
+	if sm.discarding {
+		return iodefine.IODiscard
+	}
 	select {
 	case sm.streamCh <- pkt:
-	default:
-		// TODO drop the packet, we don't want block here
-		return iodefine.IODiscard
+	case <-sm.closeCh:
+		select {
+		case sm.streamCh <- pkt:
+		default:
+			sm.discarding = true
+			return iodefine.IODiscard
+		}
 	}
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From 6adb5e02626f3d97c8c449e871f517e80bdc75f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 19/52] fix: Response lost its Method and Custom, and CallAsync
 never set Call.Response

---
 application/rpc.go    | 1 +
 application/stream.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..b9ec5b4 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -192,6 +192,7 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			call.Response = event.Ack.(*response)
 			ch <- call
 			return
 		})}
diff --git a/application/stream.go b/application/stream.go
index 43c3e8e..dd50787 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -415,7 +415,9 @@ func (sm *stream) handleInResponsePacket(pkt *packet.ResponsePacket) iodefine.IO
 	sm.log.Tracef("read response packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 	rsp := &response{
+		method:    string(pkt.Data.Key),
 		data:      pkt.Data.Value,
+		custom:    pkt.Data.Custom,
 		requestID: pkt.ID(),
 		clientID:  sm.cn.ClientID(),
 		streamID:  sm.dg.DialogueID(),
@@ -565,6 +567,7 @@ func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string,
 		sm.rpcMtx.Unlock()
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
+		rspPkt.Data.Custom = rsp.custom
 		err := sm.dg.WriteWait(rspPkt)
 		if err != nil {
 			// Write error, the response cannot be delivered, so should be debuged
-- 
2.43.0


From c2baec2e430c675ebf9b8f7efda909c641da0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 20/52] fix: canceling the context of a Call never reached the
 remote RPC

---
 application/stream.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index dd50787..57f3f42 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -254,6 +254,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -334,7 +336,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Background(), context.CancelFunc(nil)
+	ctx, cancel := context.Context(nil), context.CancelFunc(nil)
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -342,11 +344,14 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+		ctx, cancel = context.WithDeadline(context.Background(), deadline)
+	} else {
+		// the peer may cancel it
+		ctx, cancel = context.WithCancel(context.Background())
 	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -374,12 +379,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -525,6 +528,19 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		if err == io.ErrShortBuffer {
+			return iodefine.IODiscard
+		}
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-- 
2.43.0


From b3ae7fd1c82fdbe0f7c516355682db471f6b357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 21/52] fix: Call to an unregistered remote method deadlocked
 the stream's end, CallAsync ignored its options

---
 application/rpc.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index b9ec5b4..3226ec6 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -86,13 +86,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 
 	if sm.opts.remoteMethodCheck {
 		// check remote RPC exists
-		sm.rpcMtx.RLock()
-		_, ok := sm.remoteRPCs[method]
-		if !ok {
-			sm.rpcMtx.RUnlock()
+		if !sm.hasRemoteRPC(method) {
+			sm.mtx.RUnlock()
 			return nil, ErrRemoteRPCUnregistered
 		}
-		sm.rpcMtx.RUnlock()
 	}
 	// transfer to underlayer packet
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
@@ -156,11 +153,24 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
+
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+
+	if sm.opts.remoteMethodCheck {
+		// check remote RPC exists
+		if !sm.hasRemoteRPC(method) {
+			sm.mtx.RUnlock()
+			return nil, ErrRemoteRPCUnregistered
+		}
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
-- 
2.43.0


From fa9770d77c3df311b36a33a44d8f85a5919e6138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:18 +0000
Subject: [PATCH 22/52] fix: Hijack raced with the requests being handled

---
 application/rpc.go    |  2 ++
 application/stream.go | 13 +++++++------
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 3226ec6..43b3524 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -232,6 +232,8 @@ func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions)
 		pRPC.match = *fo.Match
 	}
 	pRPC.rpc = rpc
+	sm.rpcMtx.Lock()
 	sm.hijackRPC = pRPC
+	sm.rpcMtx.Unlock()
 	return nil
 }
diff --git a/application/stream.go b/application/stream.go
index 57f3f42..99e3a86 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -351,17 +351,18 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 	sm.rpcMtx.Lock()
 	sm.rpcCancels[pkt.ID()] = cancel
+	hijackRPC := sm.hijackRPC
 	sm.rpcMtx.Unlock()
 	// hijack exist
-	if sm.hijackRPC != nil {
-		if sm.hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+	if hijackRPC != nil {
+		if hijackRPC.pattern == nil {
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
-		matched := sm.hijackRPC.pattern.Match([]byte(method))
-		if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {
+		matched := hijackRPC.pattern.Match([]byte(method))
+		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(sm.hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
-- 
2.43.0


From cbbdfa273ba134ed7c7ae641db66cb17e3e98aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 23/52] fix: waiting for remote RPCs hung if the registration
 came between the check and the wait

---
 application/end.go | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/application/end.go b/application/end.go
index 622c53f..7d32667 100644
--- a/application/end.go
+++ b/application/end.go
@@ -156,22 +156,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
+		// the registrations may be on their way, wait for them before the check
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				sync.DoneSub(method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
-- 
2.43.0


From c8abeb8f57dd7c983781f5d646ec194a1d03d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 24/52] fix: the consistency and the timeout of a message never
 reached its receiver

---
 application/message.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/application/message.go b/application/message.go
index 51c95c5..15ca824 100644
--- a/application/message.go
+++ b/application/message.go
@@ -8,6 +8,7 @@ import (
 	"github.com/jumboframes/armorigo/synchub"
 	"github.com/singchia/geminio"
 	"github.com/singchia/geminio/options"
+	"github.com/singchia/geminio/packet"
 )
 
 // geminio.Messager
@@ -70,6 +71,10 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	if msg.Timeout() != 0 {
 		pkt.Data.Deadline = time.Now().Add(msg.Timeout())
 	}
+	if msg.Cnss() != 0 {
+		pkt.Cnss = packet.Cnss(msg.Cnss())
+	}
+	pkt.Data.Timeout = msg.Timeout()
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
 
@@ -131,6 +136,10 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	if msg.Timeout() != 0 {
 		pkt.Data.Deadline = now.Add(msg.Timeout())
 	}
+	if msg.Cnss() != 0 {
+		pkt.Cnss = packet.Cnss(msg.Cnss())
+	}
+	pkt.Data.Timeout = msg.Timeout()
 	pkt.Data.Topic = msg.Topic()
 	pkt.Data.Custom = msg.Custom()
 
-- 
2.43.0


From 05e09151dbde981e3e722c8de6d656c4ae9d7d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:49 +0000
Subject: [PATCH 25/52] fix: even and odd ID counters started from an arbitrary
 parity

---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..26f3fdb 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xFE // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From d2673256443f77ea3242df1e0ff5cdb712763e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 26/52] fix: RetryEnd deadlocked registering on a lost
 connection, and leaked the connection made while closing

---
 client/end_retry.go | 46 ++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..2f30b3c 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -109,27 +109,36 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		return err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed in the meantime
+		new.Close()
+		return io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
+	re.rpcMtx.RLock()
+	hijackRPC, hijackRPCOpts := re.hijackRPC, re.hijackRPCOpts
+	rpcs := make(map[string]geminio.RPC, len(re.rpcs))
+	for method, rpc := range re.rpcs {
+		rpcs[method] = rpc
+	}
+	re.rpcMtx.RUnlock()
 	// hijack
-	if re.hijackRPC != nil {
-		err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)
+	if hijackRPC != nil {
+		err = new.Hijack(hijackRPC, hijackRPCOpts)
 		if err != nil {
 			return err
 		}
 	}
-	// register legacy functions
-	re.rpcMtx.RLock()
-	for method, rpc := range re.rpcs {
+	// register legacy functions, don't reinit again if the new end is over
+	for method, rpc := range rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
-			re.rpcMtx.RUnlock()
 			return err
 		}
 	}
-	re.rpcMtx.RUnlock()
 
 	// after retry the end succeed, after hijack and register legacy functions,
 	// the brand new end online
@@ -339,11 +348,6 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 }
 
 func (re *RetryEnd) Register(ctx context.Context, method string, rpc geminio.RPC) error {
-	return re.register(ctx, method, rpc, true)
-}
-
-func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC,
-	memorize bool) error {
 	if atomic.LoadInt32(re.ok) != 1 {
 		// TODO optimize the error
 		return io.EOF
@@ -365,16 +369,14 @@ func (re *RetryEnd) register(ctx context.Context, method string, rpc geminio.RPC
 				return ierr
 			}
 			// retry succeed, recursive the register
-			return re.register(ctx, method, rpc, true)
+			return re.Register(ctx, method, rpc)
 		}
 		return rerr
 	}
-	if memorize {
-		// memorize the rpc in case of retry
-		re.rpcMtx.Lock()
-		re.rpcs[method] = rpc
-		re.rpcMtx.Unlock()
-	}
+	// memorize the rpc in case of retry
+	re.rpcMtx.Lock()
+	re.rpcs[method] = rpc
+	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -404,8 +406,10 @@ func (re *RetryEnd) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions
 		return herr
 	}
 	// memorize the hijack
+	re.rpcMtx.Lock()
 	re.hijackRPC = rpc
 	re.hijackRPCOpts = options.MergeHijackOptions(opts...)
+	re.rpcMtx.Unlock()
 	return nil
 }
 
@@ -561,9 +565,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From d80201878a334aa287c5cdc987ebdc2949a4bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 27/52] fix: ConnOffline was lost if the connection ended
 before the ConnAck, and notified for rejected clients

---
 conn/conn_client.go | 3 ++-
 conn/conn_server.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index e1326fb..3accef6 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -248,7 +248,8 @@ func (cc *ClientConn) handlePkt() {
 	}
 FINI:
 	cc.log.Debugf("handle pkt done, clientID: %d", cc.clientID)
-	if cc.dlgt != nil && cc.clientID != 0 {
+	// only onlined Conn need to be notified
+	if cc.dlgt != nil && cc.onlined {
 		// not that delegate is different from server's delegate
 		cc.dlgt.ConnOffline(cc)
 	}
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 48faa45..c523f00 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -325,6 +325,8 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 			return iodefine.IOSuccess
 		}
 	}
+	// the offline must be notified since now, even if the ack won't be sent
+	sc.onlined = true
 	// the first packet received.
 	sc.shub.Ack(sc.getSyncID(), nil)
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
@@ -393,7 +395,6 @@ func (sc *ServerConn) handleOutConnAckPacket(pkt *packet.ConnAckPacket) iodefine
 	sc.writeOut(pkt)
 	sc.log.Debugf("send conn ack succeed, clientID: %d, packetID: %d, remote: %s, meta: %s",
 		sc.clientID, pkt.ID(), sc.netconn.RemoteAddr(), string(sc.meta))
-	sc.onlined = true
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 99c0d225777eb3e2015c27b7a0abe4ccc32d9a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 28/52] fix: one dialer slow in its handshake blocked the
 listener from accepting all others

---
 server/server.go | 61 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 12 deletions(-)

diff --git a/server/server.go b/server/server.go
index 49bcf17..b46c2f2 100644
--- a/server/server.go
+++ b/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"net"
+	"sync"
 
 	"github.com/singchia/geminio"
 )
@@ -22,6 +23,9 @@ type Listener interface {
 	Addr() net.Addr
 }
 
+// how many connections may be in their handshake, or not accepted yet
+const handshakes = 32
+
 type ret struct {
 	end geminio.End
 	err error
@@ -31,6 +35,9 @@ type listener struct {
 	opts []*EndOptions
 	ln   net.Listener
 	ch   chan *ret
+
+	acceptOnce, closeOnce sync.Once
+	closeCh               chan struct{}
 }
 
 func Listen(network, address string, opts ...*EndOptions) (Listener, error) {
@@ -39,22 +46,51 @@ func Listen(network, address string, opts ...*EndOptions) (Listener, error) {
 		return nil, err
 	}
 	return &listener{
-		ln:   ln,
-		opts: opts,
-		ch:   make(chan *ret, 32)}, nil
+		ln:      ln,
+		opts:    opts,
+		ch:      make(chan *ret),
+		closeCh: make(chan struct{})}, nil
 }
 
 func (ln *listener) AcceptEnd() (geminio.End, error) {
-	netconn, err := ln.ln.Accept()
-	if err != nil {
-		return nil, err
+	ln.acceptOnce.Do(func() { go ln.accept() })
+	select {
+	case ret := <-ln.ch:
+		return ret.end, ret.err
+	case <-ln.closeCh:
+		return nil, net.ErrClosed
+	}
+}
+
+// accept connections and do the handshakes aside, a slow one mustn't block others
+func (ln *listener) accept() {
+	sem := make(chan struct{}, handshakes)
+	for {
+		netconn, err := ln.ln.Accept()
+		if err != nil {
+			if !ln.deliver(nil, err) {
+				return
+			}
+			continue
+		}
+		sem <- struct{}{}
+		go func() {
+			defer func() { <-sem }()
+			end, err := NewEndWithConn(netconn, ln.opts...)
+			if !ln.deliver(end, err) && end != nil {
+				end.Close()
+			}
+		}()
+	}
+}
+
+func (ln *listener) deliver(end geminio.End, err error) bool {
+	select {
+	case ln.ch <- &ret{end, err}:
+		return true
+	case <-ln.closeCh:
+		return false
 	}
-	go func() {
-		end, err := NewEndWithConn(netconn, ln.opts...)
-		ln.ch <- &ret{end, err}
-	}()
-	ret, _ := <-ln.ch
-	return ret.end, ret.err
 }
 
 func (ln *listener) Accept() (net.Conn, error) {
@@ -62,6 +98,7 @@ func (ln *listener) Accept() (net.Conn, error) {
 }
 
 func (ln *listener) Close() error {
+	ln.closeOnce.Do(func() { close(ln.closeCh) })
 	return ln.ln.Close()
 }
 
-- 
2.43.0


From 24294bab8fa35888ad5b37962fedcc9303ae5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:15 +0000
Subject: [PATCH 29/52] fix: RetryEnd failed what it retried with a mismatched
 clientID if the server gave a new one

---
 client/end_retry.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/end_retry.go b/client/end_retry.go
index 2f30b3c..90b6631 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -310,6 +310,7 @@ func (re *RetryEnd) Call(ctx context.Context, method string, req geminio.Request
 				return nil, ierr
 			}
 			// retry succeed, recursive the Call
+			req.SetClientID(re.ClientID())
 			return re.Call(ctx, method, req, opts...)
 		}
 		return nil, cerr
@@ -340,6 +341,7 @@ func (re *RetryEnd) CallAsync(ctx context.Context, method string, req geminio.Re
 				return nil, ierr
 			}
 			// retry succeed, recursive the CallAsync
+			req.SetClientID(re.ClientID())
 			return re.CallAsync(ctx, method, req, ch, opts...)
 		}
 		return nil, cerr
@@ -441,6 +443,7 @@ func (re *RetryEnd) Publish(ctx context.Context, msg geminio.Message,
 				return ierr
 			}
 			// retry succeed, recursive the Publish
+			msg.SetClientID(re.ClientID())
 			return re.Publish(ctx, msg, opts...)
 		}
 		return perr
@@ -470,6 +473,7 @@ func (re *RetryEnd) PublishAsync(ctx context.Context, msg geminio.Message, ch ch
 				return nil, ierr
 			}
 			// retry succeed, recursive the PublishAsync
+			msg.SetClientID(re.ClientID())
 			return re.PublishAsync(ctx, msg, ch, opts...)
 		}
 		return nil, perr
-- 
2.43.0


From 0c63c1a74a2380f069076225a8719c059e8cf397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:07 +0000
Subject: [PATCH 30/52] fix: those who receive and acknowledge under load
 deadlocked the connection until its heartbeat timed out

---
 application/message.go  | 11 +++++++---
 application/stream.go   | 28 +++++++++++++++++++++---
 conn/conn_base.go       | 21 ++++++++++++++++++
 conn/conn_client.go     | 10 +++++----
 conn/conn_server.go     | 10 +++++----
 multiplexer/dialogue.go | 48 ++++++++++++++++++++++++++++++++++-------
 6 files changed, 106 insertions(+), 22 deletions(-)

diff --git a/application/message.go b/application/message.go
index 15ca824..ee38a1f 100644
--- a/application/message.go
+++ b/application/message.go
@@ -37,14 +37,19 @@ func (sm *stream) NewMessage(data []byte, opts ...*options.NewMessageOptions) ge
 
 func (sm *stream) ackMessage(pktID uint64, err error) error {
 	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
 	if !sm.streamOK {
-		sm.mtx.RUnlock()
 		return io.EOF
 	}
 
 	pkt := sm.pf.NewMessageAckPacketWithSessionID(sm.dg.DialogueID(), pktID, err)
-	sm.writeInCh <- pkt
-	sm.mtx.RUnlock()
+	sm.ackMtx.Lock()
+	sm.acks = append(sm.acks, pkt)
+	sm.ackMtx.Unlock()
+	select {
+	case sm.ackReadyCh <- struct{}{}:
+	default:
+	}
 	return nil
 }
 
diff --git a/application/stream.go b/application/stream.go
index 99e3a86..02d4691 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -94,6 +94,11 @@ type stream struct {
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
+	// message acks to write, those who receive mustn't wait for the peer to take
+	// them, or else both sides may wait for each other
+	ackMtx     sync.Mutex
+	acks       []packet.Packet
+	ackReadyCh chan struct{}
 }
 
 func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *stream {
@@ -119,6 +124,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
+		ackReadyCh:        make(chan struct{}, 1),
 	}
 	// must be stored before it may finish
 	end.streams.Store(sm.StreamID(), sm)
@@ -169,6 +175,10 @@ func (sm *stream) handlePkt() {
 		select {
 		case <-gone:
 			goto FINI
+		case <-sm.ackReadyCh:
+			if sm.writeAcks() == iodefine.IOErr {
+				goto FINI
+			}
 		case pkt, ok := <-writeInCh:
 			if !ok {
 				// the stream is finished by readPkt
@@ -250,8 +260,6 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.MessagePacket:
 		return sm.handleOutMessagePacket(realPkt)
-	case *packet.MessageAckPacket:
-		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
 	case *packet.RequestCancelPacket:
@@ -262,6 +270,7 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutRegisterPacket(realPkt)
 	case *packet.DismissPacket:
 		// all packets written before the close are handed to the dialogue
+		sm.writeAcks()
 		sm.dg.Close()
 		sm.flushed()
 		return iodefine.IOSuccess
@@ -505,7 +514,20 @@ func (sm *stream) handleOutMessagePacket(pkt *packet.MessagePacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
-func (sm *stream) handleOutMessageAckPacket(pkt *packet.MessageAckPacket) iodefine.IORet {
+func (sm *stream) writeAcks() iodefine.IORet {
+	sm.ackMtx.Lock()
+	acks := sm.acks
+	sm.acks = nil
+	sm.ackMtx.Unlock()
+	for _, pkt := range acks {
+		if sm.handleOutMessageAckPacket(pkt) == iodefine.IOErr {
+			return iodefine.IOErr
+		}
+	}
+	return iodefine.IOSuccess
+}
+
+func (sm *stream) handleOutMessageAckPacket(pkt packet.Packet) iodefine.IORet {
 	err := sm.dg.WriteWait(pkt)
 	if err != nil {
 		sm.log.Debugf("write message ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
diff --git a/conn/conn_base.go b/conn/conn_base.go
index bacbe74..169d290 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -74,6 +74,8 @@ type baseConn struct {
 	failedCh                 chan packet.Packet
 	// packets waiting for room in writeOutCh, only for handlePkt's use
 	writeOutPending []packet.Packet
+	// packet waiting for room in readOutCh, only for handlePkt's use
+	readOutPending packet.Packet
 
 	// heartbeat
 	hbTick timer.Tick
@@ -140,6 +142,25 @@ func (bc *baseConn) toWrite() (<-chan packet.Packet, chan<- packet.Packet, packe
 	return nil, bc.writeOutCh, bc.writeOutPending[0]
 }
 
+// readOut hands a packet to the outside without blocking, for handlePkt must keep
+// taking the packets to write, or else those who read may wait for it.
+func (bc *baseConn) readOut(pkt packet.Packet) {
+	select {
+	case bc.readOutCh <- pkt:
+	default:
+		bc.readOutPending = pkt
+	}
+}
+
+// toRead gives what handlePkt should wait for at the read direction: packets
+// from the peer are not taken until the one pending is read out.
+func (bc *baseConn) toRead() (<-chan packet.Packet, chan<- packet.Packet, packet.Packet) {
+	if bc.readOutPending == nil {
+		return bc.readInCh, nil, nil
+	}
+	return nil, bc.readOutCh, bc.readOutPending
+}
+
 // finiWrite stops the writes from outside, those who hold the lock may be
 // waiting for room in writeInCh, so it must be drained until they left.
 func (bc *baseConn) finiWrite() {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 3accef6..1e7280b 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -215,12 +215,14 @@ func (cc *ClientConn) connect() error {
 }
 
 func (cc *ClientConn) handlePkt() {
-	readInCh := cc.readInCh
 	for {
-		writeInCh, writeOutCh, pending := cc.toWrite()
+		writeInCh, writeOutCh, writePending := cc.toWrite()
+		readInCh, readOutCh, readPending := cc.toRead()
 		select {
-		case writeOutCh <- pending:
+		case writeOutCh <- writePending:
 			cc.writeOutPending = cc.writeOutPending[1:]
+		case readOutCh <- readPending:
+			cc.readOutPending = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -333,7 +335,7 @@ func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta))
 		return iodefine.IODiscard
 	}
-	cc.readOutCh <- pkt
+	cc.readOut(pkt)
 	return iodefine.IOSuccess
 }
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c523f00..674e33d 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -204,12 +204,14 @@ func (sc *ServerConn) initFSM() {
 }
 
 func (sc *ServerConn) handlePkt() {
-	readInCh := sc.readInCh
 	for {
-		writeInCh, writeOutCh, pending := sc.toWrite()
+		writeInCh, writeOutCh, writePending := sc.toWrite()
+		readInCh, readOutCh, readPending := sc.toRead()
 		select {
-		case writeOutCh <- pending:
+		case writeOutCh <- writePending:
 			sc.writeOutPending = sc.writeOutPending[1:]
+		case readOutCh <- readPending:
+			sc.readOutPending = nil
 		case pkt, ok := <-readInCh:
 			if !ok {
 				goto FINI
@@ -369,7 +371,7 @@ func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		}
 		return iodefine.IODiscard
 	}
-	sc.readOutCh <- pkt
+	sc.readOut(pkt)
 	return iodefine.IOSuccess
 }
 
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 2ea28bc..cd271cb 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -78,6 +78,8 @@ type dialogue struct {
 	failedCh                 chan packet.Packet
 	// packets waiting for room in writeOutCh, only for handlePkt's use
 	writeOutPending []packet.Packet
+	// packet waiting for room in readOutCh, only for handlePkt's use
+	readOutPending packet.Packet
 	// closeIOCh tells handlePkt to quit, finiCh tells handlePkt quit, goneCh
 	// tells the dialogue is finished, and discardCh tells that nobody cares about
 	// the packets to read anymore.
@@ -290,6 +292,16 @@ func (dg *dialogue) toWrite() (<-chan packet.Packet, chan<- packet.Packet, packe
 	return nil, dg.writeOutCh, dg.writeOutPending[0]
 }
 
+// toRead gives what handlePkt should wait for at the read direction: packets
+// from under layer are not taken until the one pending is read out, and nobody
+// waits for that anymore once discardCh is closed.
+func (dg *dialogue) toRead() (<-chan packet.Packet, chan<- packet.Packet, packet.Packet, <-chan struct{}) {
+	if dg.readOutPending == nil {
+		return dg.readInCh, nil, nil, nil
+	}
+	return nil, dg.readOutCh, dg.readOutPending, dg.discardCh
+}
+
 // readIn takes a packet from under layer, which is dropped if the dialogue quit.
 func (dg *dialogue) readIn(pkt packet.Packet) {
 	select {
@@ -438,18 +450,22 @@ func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 }
 
 func (dg *dialogue) handlePkt() {
-	readInCh := dg.readInCh
-
 	for {
-		writeInCh, writeOutCh, pending := dg.toWrite()
+		writeInCh, writeOutCh, writePending := dg.toWrite()
+		readInCh, readOutCh, readPending, discardCh := dg.toRead()
 		select {
-		case writeOutCh <- pending:
+		case writeOutCh <- writePending:
 			dg.writeOutPending = dg.writeOutPending[1:]
+		case readOutCh <- readPending:
+			dg.readOutPending = nil
+		case <-discardCh:
+			dg.discardPending()
 		case <-dg.closeIOCh:
+			dg.discardPending()
 			// those came before the close should be handled
 			for {
 				select {
-				case pkt := <-readInCh:
+				case pkt := <-dg.readInCh:
 					switch dg.handleIn(pkt) {
 					case iodefine.IOClosed, iodefine.IOErr:
 						goto FINI
@@ -641,16 +657,32 @@ func (dg *dialogue) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
 		return iodefine.IOSuccess
 	default:
 	}
+	// handlePkt must keep taking the packets to write, or else those who read may
+	// wait for it
+	dg.readOutPending = pkt
 	select {
-	case dg.readOutCh <- pkt:
-		return iodefine.IOSuccess
 	case <-dg.discardCh:
 	case <-dg.closeIOCh:
+	default:
+		return iodefine.IOSuccess
 	}
-	dg.discarding = true
+	dg.discardPending()
 	return iodefine.IODiscard
 }
 
+// discardPending drops the packet waiting for room in readOutCh, if any.
+func (dg *dialogue) discardPending() {
+	if dg.readOutPending == nil {
+		return
+	}
+	select {
+	case dg.readOutCh <- dg.readOutPending:
+	default:
+		dg.discarding = true
+	}
+	dg.readOutPending = nil
+}
+
 // output packet
 func (dg *dialogue) handleOutSessionPacket(pkt *packet.SessionPacket) iodefine.IORet {
 	err := dg.fsm.EmitEvent(ET_SESSIONSENT)
-- 
2.43.0


From edbdf2fc3d8b7d1fe699ad48c4451249309c3d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 31/52] fix: a dialogue finished before its writer was
 scheduled left the writer forever

---
 multiplexer/dialogue.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index cd271cb..be18935 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -193,7 +193,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 
 	// rolling up
 	go dg.handlePkt()
-	go dg.writePkt()
+	go dg.writePkt(dg.writeOutCh)
 	return dg, nil
 }
 
@@ -409,8 +409,7 @@ func (dg *dialogue) open() error {
 }
 
 // we may or not separate the goroutine because the underlay is still a channel
-func (dg *dialogue) writePkt() {
-	writeOutCh := dg.writeOutCh
+func (dg *dialogue) writePkt(writeOutCh <-chan packet.Packet) {
 	err := error(nil)
 
 	for {
-- 
2.43.0


From 894bd4e74df9281ae78b0279fda318b59934617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 32/52] fix: PublishAsync and CallAsync completed twice if the
 stream was closing while the answer arrived

---
 application/message.go | 10 ++++++++--
 application/rpc.go     | 30 ++++++++++++++++++------------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/application/message.go b/application/message.go
index ee38a1f..6d09499 100644
--- a/application/message.go
+++ b/application/message.go
@@ -3,6 +3,7 @@ package application
 import (
 	"context"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -167,8 +168,9 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		Message: msg,
 		Done:    ch,
 	}
-	// deadline and timeout for local
-	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+	// synchub may complete twice if it's closing while the ack or timeout arrives
+	var once sync.Once
+	done := func(event *synchub.Event) {
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -180,6 +182,10 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
 		ch <- publish
 		return
+	}
+	// deadline and timeout for local
+	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+		once.Do(func() { done(event) })
 	})}
 	if msg.Timeout() != 0 {
 		// the sync may has timeout
diff --git a/application/rpc.go b/application/rpc.go
index 43b3524..76b940a 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io"
 	"regexp"
+	"sync"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -190,21 +191,26 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		Request: req,
 		Done:    ch,
 	}
+	// synchub may complete twice if it's closing while the response or timeout arrives
+	var once sync.Once
+	done := func(event *synchub.Event) {
+		if event.Error != nil {
+			sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			call.Error = event.Error
+			ch <- call
+			return
+		}
+		sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		call.Response = event.Ack.(*response)
+		ch <- call
+		return
+	}
 	// deadline and timeout for local
 	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
 		synchub.WithCallback(func(event *synchub.Event) {
-			if event.Error != nil {
-				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-				call.Error = event.Error
-				ch <- call
-				return
-			}
-			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
-				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-			call.Response = event.Ack.(*response)
-			ch <- call
-			return
+			once.Do(func() { done(event) })
 		})}
 	if req.Timeout() != 0 {
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
-- 
2.43.0


From b5fff8e444bff3eb864c47d5b46b8557c0cc7d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:37 +0000
Subject: [PATCH 33/52] fix: a stream closed while being accepted was notified
 online but never offline

---
 multiplexer/dialogue.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index be18935..4fcb008 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -715,6 +715,8 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 			// this situation shouldn't be seen as connected, so don't set onlined.
 			return iodefine.IOSuccess
 		}
+		// it's been notified online, offline must follow no matter what happens next
+		dg.onlined = true
 	}
 	err = dg.fsm.EmitEvent(ET_SESSIONACK)
 	if err != nil {
-- 
2.43.0


From f396977c6598b2e89d19e50d1b360946b24fc2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:00 +0000
Subject: [PATCH 34/52] fix: a conn finished before its reader or writer was
 scheduled left the writer forever or crashed

---
 conn/conn_base.go   | 7 ++-----
 conn/conn_client.go | 4 ++--
 conn/conn_server.go | 4 ++--
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 169d290..1c16c5f 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -189,8 +189,7 @@ func (bc *baseConn) finiWrite() {
 }
 
 // common read/write/handle
-func (bc *baseConn) writePkt() {
-	writeOutCh := bc.writeOutCh
+func (bc *baseConn) writePkt(writeOutCh <-chan packet.Packet) {
 	err := error(nil)
 
 	for {
@@ -229,9 +228,7 @@ func (bc *baseConn) dowritePkt(pkt packet.Packet, record bool) error {
 	return err
 }
 
-func (bc *baseConn) readPkt() {
-	readInCh := bc.readInCh
-
+func (bc *baseConn) readPkt(readInCh chan<- packet.Packet) {
 	for {
 		pkt, err := packet.DecodeFromReader(bc.netconn)
 		if err != nil {
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 1e7280b..2b98772 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -149,8 +149,8 @@ func newClientConn(netconn net.Conn, opts ...ClientConnOption) (*ClientConn, err
 	cc.hbTick = cc.tmr.Add(time.Duration(cc.heartbeat)*time.Second,
 		timer.WithHandler(cc.sendHeartbeat), timer.WithCyclically())
 	// start
-	go cc.readPkt()
-	go cc.writePkt()
+	go cc.readPkt(cc.readInCh)
+	go cc.writePkt(cc.writeOutCh)
 	go cc.handlePkt()
 	err = cc.connect()
 	if err != nil {
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 674e33d..a30d254 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -125,7 +125,7 @@ func NewServerConn(netconn net.Conn, opts ...ServerConnOption) (*ServerConn, err
 	// states
 	sc.initFSM()
 	// rolling up
-	go sc.writePkt()
+	go sc.writePkt(sc.writeOutCh)
 	go sc.handlePkt()
 	err = sc.wait()
 	if err != nil {
@@ -141,7 +141,7 @@ ERR:
 func (sc *ServerConn) wait() error {
 	sync := sc.shub.New(sc.getSyncID(), synchub.WithTimeout(10*time.Second))
 	// in case of the conn packet is inserted before the wait sync
-	go sc.readPkt()
+	go sc.readPkt(sc.readInCh)
 	event := <-sync.C()
 	if event.Error != nil {
 		sc.log.Infof("wait conn err: %s, clientID: %d, remote: %s, meta: %s",
-- 
2.43.0


From cc71cd75faa4f2de307bec83026930bce104e5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:12 +0000
Subject: [PATCH 35/52] fix: Side of a stream was always the recipient's

---
 multiplexer/dialogue.go     | 12 ++++++++++--
 multiplexer/dialogue_mgr.go |  2 ++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 4fcb008..7363f56 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -61,6 +61,7 @@ type dialogue struct {
 	peerNegotiatingID   uint64
 	dialogueIDPeersCall bool
 	dialogueID          uint64
+	side                geminio.Side
 	// synchub
 	shub *synchub.SyncHub
 
@@ -139,6 +140,13 @@ func OptionDialogueNegotiatingID(negotiatingID uint64, dialogueIDPeersCall bool)
 	}
 }
 
+// OptionDialogueSide tells whether the dialogue is opened from this side
+func OptionDialogueSide(side geminio.Side) DialogueOption {
+	return func(dg *dialogue) {
+		dg.side = side
+	}
+}
+
 func OptionDialogueBufferSize(read, write int) DialogueOption {
 	return func(dg *dialogue) {
 		if read > 0 {
@@ -155,6 +163,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 		opts:         baseOpts,
 		meta:         cn.Meta(),
 		dialogueID:   packet.SessionIDNull,
+		side:         geminio.RecipientSide,
 		cn:           cn,
 		fsm:          yafsm.NewFSM(yafsm.WithInSeq()),
 		closeOnce:    new(gsync.Once),
@@ -213,9 +222,8 @@ func (dg *dialogue) DialogueID() uint64 {
 	return dg.dialogueID
 }
 
-// TODO
 func (dg *dialogue) Side() geminio.Side {
-	return geminio.RecipientSide
+	return dg.side
 }
 
 func (dg *dialogue) Peer() string {
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 87ac0a4..d643eaf 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -175,6 +175,7 @@ func NewDialogueMgr(cn conn.Conn, mpopts ...MultiplexerOption) (Multiplexer, err
 		OptionDialogueLogger(dm.log),
 		OptionDialoguePacketFactory(dm.pf),
 		OptionDialogueMeta(cn.Meta()),
+		OptionDialogueSide(cn.Side()),
 		OptionDialogueBufferSize(dm.readBufferSize, dm.writeBufferSize))
 	if err != nil {
 		dm.log.Errorf("new dialogue err: %s, clientID: %d, dialogueID: %d",
@@ -284,6 +285,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 	dialogueIDPeersCall := dm.cn.Side() == geminio.InitiatorSide
 	dg, err := NewDialogue(dm.cn, dm.multiplexerOpts.opts,
 		OptionDialogueNegotiatingID(negotiatingID, dialogueIDPeersCall),
+		OptionDialogueSide(geminio.InitiatorSide),
 		OptionDialogueDelegate(dm),
 		OptionDialogueLogger(dm.log),
 		OptionDialoguePacketFactory(dm.pf),
-- 
2.43.0


From 2885ec8c0d8b3d0d13a3160f47a377f5ff1de2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 36/52] fix: a message or request sent again with a cancellable
 context could wait forever

---
 application/message.go | 22 +++++++++++++++++-----
 application/rpc.go     | 35 ++++++++++++++++++++++++++++++-----
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/application/message.go b/application/message.go
index 6d09499..ee9eb83 100644
--- a/application/message.go
+++ b/application/message.go
@@ -96,7 +96,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 		return nil
 	}
 	var sync synchub.Sync
-	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx)}
+	syncOpts := []synchub.SyncOption{}
 	if msg.Timeout() != 0 {
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
@@ -105,7 +105,15 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	sm.writeInCh <- pkt
 	sm.mtx.RUnlock()
 
-	event := <-sync.C()
+	// we don't set ctx to sync, it would end whatever has the same ID later, like
+	// the same message published again
+	var event *synchub.Event
+	select {
+	case <-ctx.Done():
+		sync.Cancel(false)
+		return ctx.Err()
+	case event = <-sync.C():
+	}
 	if event.Error != nil {
 		sm.log.Debugf("message return err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -170,7 +178,9 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// synchub may complete twice if it's closing while the ack or timeout arrives
 	var once sync.Once
+	completed := make(chan struct{})
 	done := func(event *synchub.Event) {
+		close(completed)
 		if event.Error != nil {
 			sm.log.Debugf("message packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -184,15 +194,17 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 		return
 	}
 	// deadline and timeout for local
-	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx), synchub.WithCallback(func(event *synchub.Event) {
+	complete := func(event *synchub.Event) {
 		once.Do(func() { done(event) })
-	})}
+	}
+	syncOpts := []synchub.SyncOption{synchub.WithCallback(complete)}
 	if msg.Timeout() != 0 {
 		// the sync may has timeout
 		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
 	}
 	// Add a new sync for the async publish
-	sm.shub.New(pkt.ID(), syncOpts...)
+	sync := sm.shub.New(pkt.ID(), syncOpts...)
+	cancelAsync(ctx, sync, completed, complete)
 	sm.writeInCh <- pkt
 	sm.mtx.RUnlock()
 	return publish, nil
diff --git a/application/rpc.go b/application/rpc.go
index 76b940a..5a78100 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -193,7 +193,9 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// synchub may complete twice if it's closing while the response or timeout arrives
 	var once sync.Once
+	completed := make(chan struct{})
 	done := func(event *synchub.Event) {
+		close(completed)
 		if event.Error != nil {
 			sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
@@ -208,20 +210,43 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		return
 	}
 	// deadline and timeout for local
-	syncOpts := []synchub.SyncOption{synchub.WithContext(ctx),
-		synchub.WithCallback(func(event *synchub.Event) {
-			once.Do(func() { done(event) })
-		})}
+	complete := func(event *synchub.Event) {
+		once.Do(func() { done(event) })
+	}
+	syncOpts := []synchub.SyncOption{synchub.WithCallback(complete)}
 	if req.Timeout() != 0 {
 		syncOpts = append(syncOpts, synchub.WithTimeout(req.Timeout()))
 	}
 	// Add a new sync for the async call
-	sm.shub.New(pkt.ID(), syncOpts...)
+	sync := sm.shub.New(pkt.ID(), syncOpts...)
+	cancelAsync(ctx, sync, completed, complete)
 	sm.writeInCh <- pkt
 	sm.mtx.RUnlock()
 	return call, nil
 }
 
+// cancelAsync completes the sync when ctx is done before it. We don't set ctx to
+// sync, it would end whatever has the same ID later, like the same message
+// published again.
+func cancelAsync(ctx context.Context, sync synchub.Sync, completed <-chan struct{}, complete func(*synchub.Event)) {
+	if ctx.Done() == nil {
+		return
+	}
+	go func() {
+		select {
+		case <-ctx.Done():
+		case <-completed:
+			return
+		}
+		select {
+		case <-completed:
+		default:
+			sync.Cancel(false)
+			complete(&synchub.Event{Error: ctx.Err()})
+		}
+	}()
+}
+
 func (sm *stream) Hijack(rpc geminio.HijackRPC, opts ...*options.HijackOptions) error {
 	pRPC := &patternRPC{
 		match: true,
-- 
2.43.0


From 267bb58f2157b58ce755813e5e1177ed608fcde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 37/52] fix: a handler's context was cancelled when an earlier
 one for the same request ended

---
 application/stream.go | 49 ++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 02d4691..e823e12 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -41,6 +41,11 @@ type patternRPC struct {
 
 type methodRPC geminio.HijackRPC
 
+// rpcCancel cancels the context of one handler
+type rpcCancel struct {
+	cancel context.CancelFunc
+}
+
 type stream struct {
 	*gnet.UnimplementedConn
 	// options for End and stream, remember stream dones't own opts
@@ -57,7 +62,7 @@ type stream struct {
 	// registered rpcs
 	rpcMtx sync.RWMutex
 	// inflight rpc's cancel
-	rpcCancels map[uint64]context.CancelFunc
+	rpcCancels map[uint64]*rpcCancel
 	// key: method value: RPC
 	localRPCs map[string]geminio.RPC
 	// key: method value: placeholder
@@ -110,7 +115,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		shub:              shub,
 		cn:                cn,
 		dg:                dg,
-		rpcCancels:        make(map[uint64]context.CancelFunc),
+		rpcCancels:        make(map[uint64]*rpcCancel),
 		localRPCs:         make(map[string]geminio.RPC),
 		remoteRPCs:        make(map[string]struct{}),
 		streamOK:          true,
@@ -345,7 +350,7 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			streamID:  sm.dg.DialogueID(),
 		}
 	// setup context
-	ctx, cancel := context.Context(nil), context.CancelFunc(nil)
+	ctx, cancel := context.Context(nil), new(rpcCancel)
 	if !pkt.Data.Deadline.IsZero() || !pkt.Data.Context.Deadline.IsZero() {
 		deadline := pkt.Data.Deadline
 		if deadline.IsZero() || (!deadline.IsZero() &&
@@ -353,10 +358,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			pkt.Data.Context.Deadline.Before(deadline)) {
 			deadline = pkt.Data.Context.Deadline
 		}
-		ctx, cancel = context.WithDeadline(context.Background(), deadline)
+		ctx, cancel.cancel = context.WithDeadline(context.Background(), deadline)
 	} else {
 		// the peer may cancel it
-		ctx, cancel = context.WithCancel(context.Background())
+		ctx, cancel.cancel = context.WithCancel(context.Background())
 	}
 	sm.rpcMtx.Lock()
 	sm.rpcCancels[pkt.ID()] = cancel
@@ -365,13 +370,13 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	// hijack exist
 	if hijackRPC != nil {
 		if hijackRPC.pattern == nil {
-			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, cancel, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 		matched := hijackRPC.pattern.Match([]byte(method))
 		if (hijackRPC.match && matched) || (!hijackRPC.match && !matched) {
 			// do RPC and cancel the context
-			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, req, rsp, true)
+			sm.doRPC(pkt, methodRPC(hijackRPC.rpc), method, ctx, cancel, req, rsp, true)
 			return iodefine.IOSuccess
 		}
 	}
@@ -384,15 +389,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			rpc(ctx, req, rsp)
 		}
 		// do RPC and cancel the context
-		sm.doRPC(pkt, wrapperRPC, method, ctx, req, rsp, true)
+		sm.doRPC(pkt, wrapperRPC, method, ctx, cancel, req, rsp, true)
 		return iodefine.IOSuccess
 	}
 
 	// release the context
-	sm.rpcMtx.Lock()
-	delete(sm.rpcCancels, pkt.ID())
-	cancel()
-	sm.rpcMtx.Unlock()
+	sm.releaseRPC(pkt, cancel)
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
@@ -411,7 +413,7 @@ func (sm *stream) handleInRequestCancelPacket(pkt *packet.RequestCancelPacket) i
 	cancel, ok := sm.rpcCancels[pkt.ID()]
 	if ok {
 		delete(sm.rpcCancels, pkt.ID())
-		cancel()
+		cancel.cancel()
 	}
 	sm.rpcMtx.Unlock()
 	return iodefine.IOSuccess
@@ -592,18 +594,23 @@ func (sm *stream) handleOutStreamPacket(pkt *packet.StreamPacket) iodefine.IORet
 	return iodefine.IOSuccess
 }
 
+// releaseRPC cancels the context of a handler, not that of another one that
+// works at the same request, which was sent again
+func (sm *stream) releaseRPC(pkt *packet.RequestPacket, cancel *rpcCancel) {
+	sm.rpcMtx.Lock()
+	if sm.rpcCancels[pkt.ID()] == cancel {
+		delete(sm.rpcCancels, pkt.ID())
+	}
+	cancel.cancel()
+	sm.rpcMtx.Unlock()
+}
+
 // doRPC provide generic rpc call
-func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string, ctx context.Context, req *request, rsp *response, async bool) {
+func (sm *stream) doRPC(pkt *packet.RequestPacket, rpc methodRPC, method string, ctx context.Context, cancel *rpcCancel, req *request, rsp *response, async bool) {
 	prog := func() {
 		rpc(ctx, method, req, rsp)
 		// once the rpc complete, we should cancel the context
-		sm.rpcMtx.Lock()
-		cancel, ok := sm.rpcCancels[pkt.ID()]
-		if ok {
-			delete(sm.rpcCancels, pkt.ID())
-			cancel()
-		}
-		sm.rpcMtx.Unlock()
+		sm.releaseRPC(pkt, cancel)
 
 		rspPkt := sm.pf.NewResponsePacket(pkt.ID(), []byte(req.method), rsp.data, rsp.err)
 		rspPkt.Data.Custom = rsp.custom
-- 
2.43.0


From 9e4480693d15de1c7bdac83aa76a67936aa62c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 38/52] fix: connecting over a connection that was over already
 could wait forever

---
 conn/conn_client.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 2b98772..b6a4701 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -201,7 +201,13 @@ func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
 	// sync must set before the packet send down, in case of the ack coming first
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
-	cc.writeInCh <- pkt
+	// the conn may be finished already
+	err := cc.Write(pkt)
+	if err != nil {
+		cc.log.Errorf("connect err: %s, clientID: %d, remote: %s",
+			err, cc.clientID, cc.netconn.RemoteAddr())
+		return err
+	}
 	event := <-sync.C()
 
 	if event.Error != nil {
-- 
2.43.0


From 53162dc3fe1b76821931d6e2d7515ff0a2fb6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 39/52] fix: a retrying end whose connection ended before it
 was in use never reconnected

---
 client/end_retry.go | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 90b6631..1efa808 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -36,6 +36,14 @@ type RetryEnd struct {
 	hijackRPC     geminio.HijackRPC
 }
 
+// endDelegate serves one of the ends a RetryEnd has in the course of time
+type endDelegate struct {
+	*RetryEnd
+	// closed once the end is in use, or is never going to be
+	settled chan struct{}
+	end     *clientEnd
+}
+
 // RetryEnd with retry connection infinity
 func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, error) {
 	// options
@@ -57,12 +65,10 @@ func NewRetryEndWithDialer(dialer Dialer, opts ...*EndOptions) (geminio.End, err
 
 	// replace outside delegate to ours
 	re.opts.delegate = re.opts.Delegate
-	re.opts.Delegate = re
-	end, err := re.getEnd()
+	_, err := re.getEnd()
 	if err != nil {
 		goto ERR
 	}
-	re.end = unsafe.Pointer(end)
 	return re, nil
 ERR:
 	atomic.StoreInt32(re.ok, 0)
@@ -72,15 +78,26 @@ ERR:
 	return nil, err
 }
 
+// getEnd puts a new end in use
 func (re *RetryEnd) getEnd() (*clientEnd, error) {
-	end, err := NewEndWithDialer(re.dialer, re.opts)
+	ed := &endDelegate{
+		RetryEnd: re,
+		settled:  make(chan struct{}),
+	}
+	// the end may go offline from now on
+	defer close(ed.settled)
+	opts := *re.opts
+	opts.Delegate = ed
+	end, err := NewEndWithDialer(re.dialer, &opts)
 	if err != nil {
 		return nil, err
 	}
 	if re.opts.delegate != nil {
 		re.opts.delegate.ConnOnline(end)
 	}
-	return end.(*clientEnd), nil
+	ed.end = end.(*clientEnd)
+	atomic.StorePointer(&re.end, unsafe.Pointer(ed.end))
+	return ed.end, nil
 }
 
 func (re *RetryEnd) reinit(old *clientEnd) error {
@@ -108,7 +125,6 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		// doesn't mean to close the end
 		return err
 	}
-	atomic.StorePointer(&re.end, unsafe.Pointer(new))
 	if atomic.LoadInt32(re.ok) == 0 {
 		// closed in the meantime
 		new.Close()
@@ -157,7 +173,7 @@ func (re *RetryEnd) ConnOnline(conn delegate.ConnDescriber) error {
 	return nil
 }
 
-func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
+func (re *endDelegate) ConnOffline(conn delegate.ConnDescriber) error {
 	delegate := re.opts.delegate
 	if delegate != nil {
 		// The offline is just a notification, we're still keep on trying reconnct
@@ -167,9 +183,14 @@ func (re *RetryEnd) ConnOffline(conn delegate.ConnDescriber) error {
 		}
 	}
 	fn := func() {
+		// the end may not be in use yet, or it's failed to be, then somebody else
+		// is going on
+		<-re.settled
+		if re.end == nil {
+			return
+		}
 		for atomic.LoadInt32(re.ok) == 1 {
-			end := (*clientEnd)(atomic.LoadPointer(&re.end))
-			err := re.reinit(end)
+			err := re.reinit(re.end)
 			if err != nil {
 				re.opts.Log.Infof("retry client offline and retry failed: %s", err)
 				continue
-- 
2.43.0


From 2db8b75473794d3ea35b61fda3cef4100b9d8671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 40/52] fix: waiting for remote RPCs could block forever when
 the connection broke meanwhile

---
 application/end.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/application/end.go b/application/end.go
index 7d32667..b596904 100644
--- a/application/end.go
+++ b/application/end.go
@@ -159,7 +159,10 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		// the registrations may be on their way, wait for them before the check
 		ifs := strings2interfaces(end.opts.remoteMethods...)
 		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
+		// the completion and the close may both be told, and we may be the one to
+		// tell before we wait
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...),
+			synchub.WithEventChan(make(chan *synchub.Event, 2)))
 		// check whether remote RPCs have been registered
 		for _, method := range end.opts.remoteMethods {
 			if end.stream.hasRemoteRPC(method) {
-- 
2.43.0


From 60fbecccc908cd370f66f1fa6febfb446ceeeb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 41/52] fix: what was received was lost when answering a call
 failed as the stream ended

---
 application/stream.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index e823e12..a02745b 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -403,7 +403,8 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	if err != nil {
 		sm.log.Debugf("write no such rpc response packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
+		// the stream ended, but what came before should still be received
+		return iodefine.IOSuccess
 	}
 	return iodefine.IOSuccess
 }
@@ -453,7 +454,8 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	if err != nil {
 		sm.log.Debugf("write register ack packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
-		return iodefine.IOErr
+		// the stream ended, but what came before should still be received
+		return iodefine.IOSuccess
 	}
 
 	// TODO delegate for remote registration
-- 
2.43.0


From 6c5821da1ca667fa54083af03d96a2a989a85ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 42/52] fix: the first packets of a new server end could
 overtake the ack of its connection

The outside was woken up before the ConnAck was queued. What it wrote in the
meantime, such as a registration, came first and was discarded by the client,
and who waited for its answer waited forever.
---
 conn/conn_server.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conn/conn_server.go b/conn/conn_server.go
index a30d254..8692880 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -329,14 +329,15 @@ func (sc *ServerConn) handleInConnPacket(pkt *packet.ConnPacket) iodefine.IORet
 	}
 	// the offline must be notified since now, even if the ack won't be sent
 	sc.onlined = true
-	// the first packet received.
-	sc.shub.Ack(sc.getSyncID(), nil)
 	retPkt := sc.pf.NewConnAckPacket(pkt.PacketID, sc.clientID, nil)
 	sc.writeInCh <- retPkt
 
 	// set the heartbeat
 	sc.heartbeat = pkt.Heartbeat
 	sc.hbTick = sc.tmr.Add(time.Duration(sc.heartbeat)*2*time.Second, timer.WithHandler(sc.waitHBTimeout))
+	// the first packet received, the outside may write since now, and the client
+	// discards what comes before the ack
+	sc.shub.Ack(sc.getSyncID(), nil)
 	return iodefine.IOSuccess
 }
 
-- 
2.43.0


From 356e5f31ea89eb121412d6214e3e6e46bd643553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 43/52] fix: a peer could take over a dialogue by opening one
 with an ID in use

---
 multiplexer/dialogue.go     | 6 ++++++
 multiplexer/dialogue_mgr.go | 6 ++++++
 multiplexer/multiplexer.go  | 1 +
 3 files changed, 13 insertions(+)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 7363f56..d186239 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -710,6 +710,12 @@ func (dg *dialogue) handleOutSessionAckPacket(pkt *packet.SessionAckPacket) iode
 		// open dialogue passive
 		// notify delegation the online event
 		err = dg.dlgt.DialogueOnline(dg)
+		if err == ErrDialogueExists {
+			// a dismiss would be taken for the other dialogue's
+			pkt.SetError(err)
+			dg.writeOut(pkt)
+			return iodefine.IOErr
+		}
 		if err != nil {
 			pkt.SetError(err)
 			err = dg.fsm.EmitEvent(ET_ERROR)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index d643eaf..6fcc7ae 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -207,6 +207,12 @@ func (dm *dialogueMgr) DialogueOnline(dg delegate.DialogueDescriber) error {
 	if ok {
 		delete(dm.negotiatingDialogues, dg.NegotiatingID())
 	}
+	_, ok = dm.dialogues[dg.DialogueID()]
+	if ok {
+		// the peer asked for an ID in use, the dialogue of which mustn't get lost
+		dm.mtx.Unlock()
+		return ErrDialogueExists
+	}
 	dm.dialogues[dg.DialogueID()] = dg.(*dialogue)
 	dm.mtx.Unlock()
 	// the outside may take long or call back, so don't notify it with the lock held
diff --git a/multiplexer/multiplexer.go b/multiplexer/multiplexer.go
index 4506ebe..960d0bd 100644
--- a/multiplexer/multiplexer.go
+++ b/multiplexer/multiplexer.go
@@ -11,6 +11,7 @@ var (
 	ErrOperationOnClosedMultiplexer = errors.New("operation on closed multiplexer")
 	ErrConnNotFound                 = errors.New("conn not found")
 	ErrDialogueNotFound             = errors.New("dialogue not found")
+	ErrDialogueExists               = errors.New("dialogue exists already")
 	ErrAcceptChNotEnabled           = errors.New("accept channel not enabled")
 	ErrClosedChNotEnabled           = errors.New("closed channel not enabled")
 )
-- 
2.43.0


From 69a2c09de176f8c19f65758aa539bf264a9b9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:59 +0000
Subject: [PATCH 44/52] fix: a wrong kind of answer to a call crashed the
 process

---
 application/rpc.go    | 14 ++++++++++++--
 application/stream.go |  1 +
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 5a78100..3b4e487 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -142,7 +142,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
 			return nil, event.Error
 		}
-		rsp := event.Ack.(*response)
+		rsp, ok := event.Ack.(*response)
+		if !ok {
+			// the peer answered with something else
+			return nil, ErrUnexpectedAck
+		}
 		return rsp, nil
 	}
 }
@@ -205,7 +209,13 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 		}
 		sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 			sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
-		call.Response = event.Ack.(*response)
+		rsp, ok := event.Ack.(*response)
+		if ok {
+			call.Response = rsp
+		} else {
+			// the peer answered with something else
+			call.Error = ErrUnexpectedAck
+		}
 		ch <- call
 		return
 	}
diff --git a/application/stream.go b/application/stream.go
index a02745b..3f8036a 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -24,6 +24,7 @@ var (
 	ErrMismatchStreamID      = errors.New("mismatch streamID")
 	ErrMismatchClientID      = errors.New("mismatch clientID")
 	ErrRemoteRPCUnregistered = errors.New("remote rpc unregistered")
+	ErrUnexpectedAck         = errors.New("unexpected ack")
 )
 
 const (
-- 
2.43.0


From 8aa5da01747a9b2bdf7156db200bab64a587d384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:47 +0000
Subject: [PATCH 45/52] fix: OpenStream of a retrying end failed when the
 connection was gone, instead of going on over the next one

---
 client/end_retry.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 1efa808..6b8725c 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/singchia/geminio"
 	"github.com/singchia/geminio/delegate"
+	"github.com/singchia/geminio/multiplexer"
 	"github.com/singchia/geminio/options"
 	"github.com/singchia/go-timer/v2"
 )
@@ -239,7 +240,9 @@ func (re *RetryEnd) OpenStream(opts ...*options.OpenStreamOptions) (geminio.Stre
 	cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 	sm, oerr := cur.OpenStream(opts...)
 	if oerr != nil {
-		if oerr == io.EOF && atomic.LoadInt32(re.ok) == 1 {
+		// the multiplexer has an error of its own for the EOF
+		if (oerr == io.EOF || oerr == multiplexer.ErrOperationOnClosedMultiplexer) &&
+			atomic.LoadInt32(re.ok) == 1 {
 			// under layer EOF but not closed, we should retry the end,
 			// pass the old end for comparition
 			ierr := re.reinit(cur)
-- 
2.43.0


From a2b21001fb9fb679b658b6af2386c97fe14ce66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 46/52] fix: the cancellation of an asynchronous call was not
 told to its handler

---
 application/message.go |  2 +-
 application/rpc.go     | 29 ++++++++++++++++++++++++++---
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/application/message.go b/application/message.go
index ee9eb83..8012f90 100644
--- a/application/message.go
+++ b/application/message.go
@@ -204,7 +204,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	// Add a new sync for the async publish
 	sync := sm.shub.New(pkt.ID(), syncOpts...)
-	cancelAsync(ctx, sync, completed, complete)
+	cancelAsync(ctx, sync, completed, complete, nil)
 	sm.writeInCh <- pkt
 	sm.mtx.RUnlock()
 	return publish, nil
diff --git a/application/rpc.go b/application/rpc.go
index 3b4e487..15771ea 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -229,16 +229,36 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	}
 	// Add a new sync for the async call
 	sync := sm.shub.New(pkt.ID(), syncOpts...)
-	cancelAsync(ctx, sync, completed, complete)
+	sent := make(chan struct{})
+	cancelAsync(ctx, sync, completed, complete, func() {
+		if ctx.Err() == context.Canceled {
+			// notify peer, which got the deadline by the request
+			<-sent
+			sm.cancelRemoteRPC(pkt.ID())
+		}
+	})
 	sm.writeInCh <- pkt
+	close(sent)
 	sm.mtx.RUnlock()
 	return call, nil
 }
 
+// cancelRemoteRPC cancels the context of the RPC at the peer
+func (sm *stream) cancelRemoteRPC(id uint64) {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK {
+		return
+	}
+	sm.writeInCh <- sm.pf.NewRequestCancelPacketWithIDAndSessionID(id, sm.dg.DialogueID(),
+		packet.RequestCancelTypeCanceled)
+}
+
 // cancelAsync completes the sync when ctx is done before it. We don't set ctx to
 // sync, it would end whatever has the same ID later, like the same message
-// published again.
-func cancelAsync(ctx context.Context, sync synchub.Sync, completed <-chan struct{}, complete func(*synchub.Event)) {
+// published again, so the cancelled, if it's not nil, is called before.
+func cancelAsync(ctx context.Context, sync synchub.Sync, completed <-chan struct{},
+	complete func(*synchub.Event), cancelled func()) {
 	if ctx.Done() == nil {
 		return
 	}
@@ -252,6 +272,9 @@ func cancelAsync(ctx context.Context, sync synchub.Sync, completed <-chan struct
 		case <-completed:
 		default:
 			sync.Cancel(false)
+			if cancelled != nil {
+				cancelled()
+			}
 			complete(&synchub.Event{Error: ctx.Err()})
 		}
 	}()
-- 
2.43.0


From 8abe18213f37b953936702e2e8c1784db5e277ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 47/52] fix: an options value that does not set the check of
 remote methods switched it off

---
 client/end_options.go | 4 +++-
 server/end_options.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/client/end_options.go b/client/end_options.go
index 0653972..a34b4c0 100644
--- a/client/end_options.go
+++ b/client/end_options.go
@@ -88,7 +88,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
diff --git a/server/end_options.go b/server/end_options.go
index 6b6be1a..11fcd04 100644
--- a/server/end_options.go
+++ b/server/end_options.go
@@ -87,7 +87,9 @@ func MergeEndOptions(opts ...*EndOptions) *EndOptions {
 		if opt == nil {
 			continue
 		}
-		eo.RemoteMethodCheck = opt.RemoteMethodCheck
+		if opt.RemoteMethodCheck {
+			eo.RemoteMethodCheck = true
+		}
 		if opt.Timer != nil {
 			eo.Timer = opt.Timer
 			eo.TimerOwner = opt.TimerOwner
-- 
2.43.0


From fe98e9261a6bbd4dd8b41c635d1f3c7628ad727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 48/52] fix: the consistency of a message was lost on its way

---
 application/message.go | 4 +++-
 packet/packet_data.go  | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/application/message.go b/application/message.go
index 8012f90..1c4411d 100644
--- a/application/message.go
+++ b/application/message.go
@@ -79,6 +79,7 @@ func (sm *stream) Publish(ctx context.Context, msg geminio.Message, opts ...*opt
 	}
 	if msg.Cnss() != 0 {
 		pkt.Cnss = packet.Cnss(msg.Cnss())
+		pkt.Data.Cnss = pkt.Cnss
 	}
 	pkt.Data.Timeout = msg.Timeout()
 	pkt.Data.Topic = msg.Topic()
@@ -152,6 +153,7 @@ func (sm *stream) PublishAsync(ctx context.Context, msg geminio.Message, ch chan
 	}
 	if msg.Cnss() != 0 {
 		pkt.Cnss = packet.Cnss(msg.Cnss())
+		pkt.Data.Cnss = pkt.Cnss
 	}
 	pkt.Data.Timeout = msg.Timeout()
 	pkt.Data.Topic = msg.Topic()
@@ -221,7 +223,7 @@ func (sm *stream) Receive(ctx context.Context) (geminio.Message, error) {
 		}
 		msg := &message{
 			timeout:  pkt.Data.Timeout,
-			cnss:     options.Cnss(pkt.Cnss),
+			cnss:     options.Cnss(pkt.Data.Cnss),
 			data:     pkt.Data.Value,
 			topic:    pkt.Data.Topic,
 			custom:   pkt.Data.Custom,
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..be03787 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -101,6 +101,7 @@ type MessageData struct {
 	Key      []byte        `json:"key,omitempty"`
 	Value    []byte        `json:"value,omitempty"`
 	Topic    string        `json:"topic,omitempty"`
+	Cnss     Cnss          `json:"cnss,omitempty"`
 	Custom   []byte        `json:"custom,omitempty"`
 	Error    string        `json:"error,omitempty"`
 	Timeout  time.Duration `json:"timeout,omitempty"`
-- 
2.43.0


From ef4a8152cf73018bb9d7b420e7e927766731515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 49/52] fix: a registration was acknowledged before it took
 effect

---
 application/stream.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 3f8036a..55f4211 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -450,6 +450,11 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 	sm.log.Tracef("read register packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s, method: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String(), method)
 
+	// the other side may expect calls as soon as it's acknowledged
+	sm.rpcMtx.Lock()
+	sm.remoteRPCs[method] = struct{}{}
+	sm.rpcMtx.Unlock()
+
 	retPkt := sm.pf.NewRegisterAckPacket(pkt.ID(), nil)
 	err := sm.dg.Write(retPkt)
 	if err != nil {
@@ -461,10 +466,6 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 
 	// TODO delegate for remote registration
 
-	sm.rpcMtx.Lock()
-	sm.remoteRPCs[method] = struct{}{}
-	sm.rpcMtx.Unlock()
-
 	// to notify the method is registing, in case of we're waiting for the method ready
 	syncID := fmt.Sprintf(registrationFormat, sm.cn.ClientID(), sm.dg.DialogueID())
 	sm.shub.DoneSub(syncID, method)
-- 
2.43.0


From 9be4690212c7c515778ba654b8e1c0deaf57f075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:37 +0000
Subject: [PATCH 50/52] fix: the closed function was not called for a stream
 closed before it was accepted

---
 application/end.go | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/application/end.go b/application/end.go
index b596904..9a13cd0 100644
--- a/application/end.go
+++ b/application/end.go
@@ -105,6 +105,8 @@ type End struct {
 	cn          conn.Conn
 	multiplexer multiplexer.Multiplexer
 	streams     sync.Map
+	// dialogues closed, the streams of which haven't been told yet
+	closedDialogues sync.Map
 	// End holds the default stream
 	*stream
 	onceClose *sync.Once
@@ -195,8 +197,7 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 	if err != nil {
 		return nil, err
 	}
-	sm := newStream(end, end.cn, dg, end.opts)
-	return sm, nil
+	return end.newStream(dg), nil
 }
 
 func (end *End) delStream(streamID uint64) {
@@ -208,8 +209,7 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 	if err != nil {
 		return nil, err
 	}
-	sm := newStream(end, end.cn, dg, end.opts)
-	return sm, nil
+	return end.newStream(dg), nil
 }
 
 func (end *End) Accept() (net.Conn, error) {
@@ -260,7 +260,7 @@ func (end *End) fini() {
 // For multiplexer's call, to notify application layer in this way
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
-	sm := newStream(end, end.cn, dg, end.opts)
+	sm := end.newStream(dg)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
@@ -269,8 +269,26 @@ func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 // For multiplexer's call, to notify application layer in this way
 // TODO optimize
 func (end *End) ClosedDialogue(dg multiplexer.Dialogue) {
+	if end.closedStreamFunc == nil {
+		return
+	}
+	end.closedDialogues.Store(dg, struct{}{})
 	sm, ok := end.streams.Load(dg.DialogueID())
-	if ok && end.closedStreamFunc != nil {
-		end.closedStreamFunc(sm.(*stream))
+	if ok {
+		end.closedStream(dg, sm.(*stream))
+	}
+}
+
+func (end *End) newStream(dg multiplexer.Dialogue) *stream {
+	sm := newStream(end, end.cn, dg, end.opts)
+	// the dialogue may be closed before it's accepted
+	end.closedStream(dg, sm)
+	return sm
+}
+
+func (end *End) closedStream(dg multiplexer.Dialogue, sm *stream) {
+	_, ok := end.closedDialogues.LoadAndDelete(dg)
+	if ok {
+		end.closedStreamFunc(sm)
 	}
 }
-- 
2.43.0


From 0fbabaa8c19fbe971a0e22066dc742e6e2769c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:35 +0000
Subject: [PATCH 51/52] fix: Register in the accept function of streams never
 returned

---
 application/end.go    | 2 ++
 application/rpc.go    | 6 ++++++
 application/stream.go | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/application/end.go b/application/end.go
index 9a13cd0..a476318 100644
--- a/application/end.go
+++ b/application/end.go
@@ -262,6 +262,8 @@ func (end *End) fini() {
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := end.newStream(dg)
 	if sm.acceptStreamFunc != nil {
+		sm.accepting.Store(true)
+		defer sm.accepting.Store(false)
 		sm.acceptStreamFunc(sm)
 	}
 }
diff --git a/application/rpc.go b/application/rpc.go
index 15771ea..329d9b8 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -49,6 +49,12 @@ func (sm *stream) Register(ctx context.Context, method string, rpc geminio.RPC)
 	}
 	sm.addLocalRPC(method, rpc)
 	pkt := sm.pf.NewRegisterPacketWithSessionID(sm.dg.DialogueID(), []byte(method))
+	if sm.accepting.Load() {
+		// the accept function must return before the peer can acknowledge
+		sm.writeInCh <- pkt
+		sm.mtx.RUnlock()
+		return nil
+	}
 	sync := sm.shub.New(pkt.ID())
 	sm.writeInCh <- pkt
 	sm.mtx.RUnlock()
diff --git a/application/stream.go b/application/stream.go
index 55f4211..e730bf9 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -8,6 +8,7 @@ import (
 	"io"
 	"regexp"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/jumboframes/armorigo/synchub"
@@ -80,6 +81,8 @@ type stream struct {
 	// flushedCh tells what was written before has been handed to the dialogue
 	closeCh, flushedCh chan struct{}
 	flushOnce          sync.Once
+	// the accept function is running, and the stream isn't open at the peer yet
+	accepting atomic.Bool
 	// no packet should be delivered after a discarded one, only for readPkt's use
 	discarding bool
 
-- 
2.43.0


From b2fff5da917dc28364a6c31aa188d8488ceace9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:20 +0000
Subject: [PATCH 52/52] fix: closing a multiplexer twice panicked

---
 multiplexer/dialogue_mgr.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 6fcc7ae..68916ab 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,8 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 	// quitCh tells those waiting that dialogueMgr is closing or finished
 	quitCh   chan struct{}
 	quitOnce sync.Once
@@ -514,7 +515,9 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	dm.closeOnce.Do(func() {
+		close(dm.closeCh)
+	})
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
-- 
2.43.0

