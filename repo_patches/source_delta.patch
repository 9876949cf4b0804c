From 457d049bd5dbfad7a4491e7dd075b7f2e4fd6941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 01/46] fix: decoding a request or response packet from a
 buffer dereferenced a nil embedded packet

---
 packet/decode.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packet/decode.go b/packet/decode.go
index 07cc120..f65d95d 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -116,13 +116,17 @@ func Decode(data []byte) (Packet, uint32, error) {
 		return pkt, n, err
 
 	case TypeRequestPacket:
-		pkt := &RequestPacket{}
+		pkt := &RequestPacket{
+			&MessagePacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
 	case TypeResponsePacket:
-		pkt := &ResponsePacket{}
+		pkt := &ResponsePacket{
+			&MessageAckPacket{},
+		}
 		pkt.PacketHeader = pktHdr
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
-- 
2.43.0


From aba0c0e295d7c1aa5c8d403c7790836e839c31da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:10 +0000
Subject: [PATCH 02/46] fix: decode request cancel packets, which could be
 encoded but not decoded

---
 packet/decode.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/packet/decode.go b/packet/decode.go
index f65d95d..d917355 100644
--- a/packet/decode.go
+++ b/packet/decode.go
@@ -131,6 +131,12 @@ func Decode(data []byte) (Packet, uint32, error) {
 		n, err = pkt.Decode(data[14:])
 		return pkt, n, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		n, err = pkt.Decode(data[14:])
+		return pkt, n, err
+
 	default:
 		return nil, 10, ErrUnsupportedPacket
 	}
@@ -254,6 +260,12 @@ func DecodeFromReader(reader io.Reader) (Packet, error) {
 		err = pkt.DecodeFromReader(reader)
 		return pkt, err
 
+	case TypeRequestCancelPacket:
+		pkt := &RequestCancelPacket{}
+		pkt.PacketHeader = pktHdr
+		err = pkt.DecodeFromReader(reader)
+		return pkt, err
+
 	default:
 		return nil, ErrUnsupportedPacket
 	}
-- 
2.43.0


From 763d5ea800115dc7cff1212ecafb73707e9a2468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:11 +0000
Subject: [PATCH 03/46] fix: encode the 320s heartbeat so that it decodes to
 the same value

---
 packet/packet_conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 994087e..3f38230 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -79,7 +79,7 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 		pkt[0] |= 0x08
 	}
 	if connPkt.Heartbeat != Heartbeat5 {
-		pkt[0] |= byte(math.Pow(float64(connPkt.Heartbeat)/5, 0.25)) << 4
+		pkt[0] |= byte(math.Log2(float64(connPkt.Heartbeat)/5)/2) << 4
 	}
 	// client id
 	binary.BigEndian.PutUint64(pkt[2:10], connPkt.ClientID)
-- 
2.43.0


From ae61c05d1fb680bef6b88f60dce39f1fbf433291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:01 +0000
Subject: [PATCH 04/46] fix: reject packets shorter than their fixed fields
 instead of panicking

---
 packet/packet_conn.go | 18 ++++++++++++++++++
 packet/packet_data.go | 20 +++++++++++++++++++-
 packet/packet_sess.go | 24 ++++++++++++++++++++++++
 3 files changed, 61 insertions(+), 1 deletion(-)

diff --git a/packet/packet_conn.go b/packet/packet_conn.go
index 3f38230..75a6284 100644
--- a/packet/packet_conn.go
+++ b/packet/packet_conn.go
@@ -91,6 +91,9 @@ func (connPkt *ConnPacket) Encode() ([]byte, error) {
 }
 
 func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
+	if connPkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -116,6 +119,9 @@ func (connPkt *ConnPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connPkt *ConnPacket) DecodeFromReader(reader io.Reader) error {
+	if connPkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	flags := make([]byte, 2)
 	_, err := io.ReadFull(reader, flags)
 	if err != nil {
@@ -187,6 +193,9 @@ func (connAckPkt *ConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
+	if connAckPkt.PacketLen < 9 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -206,6 +215,9 @@ func (connAckPkt *ConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (connAckPkt *ConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if connAckPkt.PacketLen < 9 {
+		return ErrIllegalPacket
+	}
 	length := int(connAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -271,6 +283,9 @@ func (disConnAckPkt *DisConnAckPacket) Encode() ([]byte, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
+	if disConnAckPkt.PacketLen < 1 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -288,6 +303,9 @@ func (disConnAckPkt *DisConnAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (disConnAckPkt *DisConnAckPacket) DecodeFromReader(reader io.Reader) error {
+	if disConnAckPkt.PacketLen < 1 {
+		return ErrIllegalPacket
+	}
 	length := int(disConnAckPkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
diff --git a/packet/packet_data.go b/packet/packet_data.go
index c6dca77..289f036 100644
--- a/packet/packet_data.go
+++ b/packet/packet_data.go
@@ -61,6 +61,9 @@ func (pkt *RequestCancelPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -72,7 +75,7 @@ func (pkt *RequestCancelPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *RequestCancelPacket) DecodeFromReader(reader io.Reader) error {
-	if pkt.PacketLen < 8 {
+	if pkt.PacketLen < 10 {
 		return ErrIllegalPacket
 	}
 	data := make([]byte, pkt.PacketLen)
@@ -139,6 +142,9 @@ func (pkt *MessagePacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessagePacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -214,6 +220,9 @@ func (pkt *MessageAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *MessageAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	if len(data) < int(pkt.PacketLen) {
 		return 0, ErrIncompletePacket
 	}
@@ -288,6 +297,9 @@ func (pkt *StreamPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *StreamPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -358,6 +370,9 @@ func (pkt *RegisterPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -427,6 +442,9 @@ func (pkt *RegisterAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *RegisterAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
diff --git a/packet/packet_sess.go b/packet/packet_sess.go
index 7695a85..6fe08f1 100644
--- a/packet/packet_sess.go
+++ b/packet/packet_sess.go
@@ -87,6 +87,9 @@ func (pkt *SessionPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 10 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -107,6 +110,9 @@ func (pkt *SessionPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 10 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -177,6 +183,9 @@ func (pkt *SessionAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 18 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -195,6 +204,9 @@ func (pkt *SessionAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *SessionAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 18 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -252,6 +264,9 @@ func (pkt *DismissPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -270,6 +285,9 @@ func (pkt *DismissPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
@@ -327,6 +345,9 @@ func (pkt *DismissAckPacket) Encode() ([]byte, error) {
 }
 
 func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
+	if pkt.PacketLen < 8 {
+		return 0, ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	if len(data) < length {
 		return 0, ErrIncompletePacket
@@ -344,6 +365,9 @@ func (pkt *DismissAckPacket) Decode(data []byte) (uint32, error) {
 }
 
 func (pkt *DismissAckPacket) DecodeFromReader(reader io.Reader) error {
+	if pkt.PacketLen < 8 {
+		return ErrIllegalPacket
+	}
 	length := int(pkt.PacketLen)
 	data := make([]byte, length)
 	_, err := io.ReadFull(reader, data)
-- 
2.43.0


From 03c783c14baab1d378da19247c2af8fd364ce427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 05/46] fix: start even and odd id counters from an even
 number, so that the two sides cannot allocate the same id

---
 pkg/id/id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/id/id.go b/pkg/id/id.go
index 5367ba2..26f3fdb 100644
--- a/pkg/id/id.go
+++ b/pkg/id/id.go
@@ -102,6 +102,6 @@ func randomUint32() uint32 {
 	if err != nil {
 		return 0
 	}
-	b[0] |= 0x00 // a random even number
+	b[0] &= 0xFE // a random even number
 	return (uint32(b[0]) << 0) | (uint32(b[1]) << 8) | (uint32(b[2]) << 16) | (uint32(b[3]) << 24)
 }
-- 
2.43.0


From 92d8ebc5292a976b9ab90ee7c7a9de9fdabe887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:38 +0000
Subject: [PATCH 06/46] fix: register the wait for the connect acknowledgement
 before sending the connect packet

---
 conn/conn_client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 8bd5560..3516259 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -199,8 +199,9 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
-	cc.writeInCh <- pkt
+	// the wait must be in place before the packet can be answered
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
+	cc.writeInCh <- pkt
 	event := <-sync.C()
 
 	if event.Error != nil {
-- 
2.43.0


From 60e3f38553d25b526e5bea7663f60f6eebdf7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:32 +0000
Subject: [PATCH 07/46] fix: do not hand unexpected connection control packets
 to the layers above

---
 conn/conn_client.go | 6 ++++++
 conn/conn_server.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 3516259..6bb3bf8 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -324,6 +324,12 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 }
 
 func (cc *ClientConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
+	if packet.ConnLayer(pkt) {
+		// control packets the peer should not send are never handed up
+		cc.log.Errorf("unexpected control packet, clientID: %d, packetID: %d, packetType: %s",
+			cc.clientID, pkt.ID(), pkt.Type().String())
+		return iodefine.IODiscard
+	}
 	ok := cc.fsm.InStates(CONNED)
 	if !ok {
 		cc.log.Debugf("data at non CONNED, clientID: %d, packetID: %d, remote: %s, meta: %s",
diff --git a/conn/conn_server.go b/conn/conn_server.go
index c1b9474..472fde0 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -356,6 +356,12 @@ func (sc *ServerConn) handleInHeartbeatPacket(pkt *packet.HeartbeatPacket) iodef
 }
 
 func (sc *ServerConn) handleInDataPacket(pkt packet.Packet) iodefine.IORet {
+	if packet.ConnLayer(pkt) {
+		// control packets the peer should not send are never handed up
+		sc.log.Errorf("unexpected control packet, clientID: %d, packetID: %d, packetType: %s",
+			sc.clientID, pkt.ID(), pkt.Type().String())
+		return iodefine.IODiscard
+	}
 	ok := sc.fsm.InStates(CONNED)
 	if !ok {
 		sc.log.Debugf("data at non CONNED, clientID: %d, packetID: %d, remote: %s, meta: %s",
-- 
2.43.0


From 1ed756cbb3ad9940e4bfc43851f163f8b66d3682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:03 +0000
Subject: [PATCH 08/46] fix: keep taking packets after a write error so that
 the connection can finish

---
 conn/conn_base.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8f4ff4e..8218a99 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -117,12 +117,24 @@ func (bc *baseConn) writePkt() {
 			err = bc.dowritePkt(pkt, record)
 			if err != nil {
 				// write to net Conn error, we should close the layer
+				bc.netconn.Close()
+				bc.discardPkt(writeOutCh)
 				return
 			}
 		}
 	}
 }
 
+// after a write error nothing can be sent any more, packets must still be taken
+// until the conn finished, otherwise their senders would block forever
+func (bc *baseConn) discardPkt(writeOutCh <-chan packet.Packet) {
+	for pkt := range writeOutCh {
+		if bc.failedCh != nil && !packet.ConnLayer(pkt) {
+			bc.failedCh <- pkt
+		}
+	}
+}
+
 func (bc *baseConn) dowritePkt(pkt packet.Packet, record bool) error {
 	err := packet.EncodeToWriter(pkt, bc.netconn)
 	if err != nil {
-- 
2.43.0


From e40b0d96069c222b6e580365a4c162537fd31c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:11 +0000
Subject: [PATCH 09/46] fix: keep the metadata a dialogue was opened with when
 the peer acknowledges it

---
 multiplexer/dialogue.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 440ce0e..5335346 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -480,7 +480,6 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		return iodefine.IOErr
 	}
 	dg.dialogueID = pkt.SessionID()
-	dg.meta = pkt.SessionData.Meta
 
 	// the packetID is assigned by SessionPacket, originally from function open,
 	// and open is waiting for the completion.
-- 
2.43.0


From b5f083dd7bf520eaf48ab3ac8c0c6ce6b06aa76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 10/46] fix: fail opening a dialogue when the peer refuses it

---
 multiplexer/dialogue.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 5335346..bd7cac3 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -1,6 +1,7 @@
 package multiplexer
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"time"
@@ -479,6 +480,11 @@ func (dg *dialogue) handleInSessionAckPacket(pkt *packet.SessionAckPacket) iodef
 		dg.shub.Error(pkt.ID(), err)
 		return iodefine.IOErr
 	}
+	if pkt.SessionData.Error != "" {
+		// the peer refused the dialogue
+		dg.shub.Error(pkt.ID(), errors.New(pkt.SessionData.Error))
+		return iodefine.IOErr
+	}
 	dg.dialogueID = pkt.SessionID()
 
 	// the packetID is assigned by SessionPacket, originally from function open,
-- 
2.43.0


From 3c9181107ba609c60b9bcb0fd7f74642b36b9822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:18 +0000
Subject: [PATCH 11/46] fix: closing a finished dialogue dereferenced its
 collected sync hub

---
 multiplexer/dialogue.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index bd7cac3..6813c51 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -645,14 +645,13 @@ func (dg *dialogue) handleOutDataPacket(pkt packet.Packet) iodefine.IORet {
 func (dg *dialogue) Close() {
 	dg.closeOnce.Do(func() {
 		pkt := dg.pf.NewDismissPacket(dg.dialogueID)
-		// we need a tick in case of never receiving the dismiss ack packet
-		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
-
 		dg.mtx.RLock()
 		defer dg.mtx.RUnlock()
 		if !dg.dialogueOK {
 			return
 		}
+		// we need a tick in case of never receiving the dismiss ack packet
+		dg.closewait = dg.shub.New(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 		dg.log.Debugf("dialogue async close, clientID: %d, dialogueID: %d",
 			dg.cn.ClientID(), dg.dialogueID)
 
-- 
2.43.0


From aa4293f5236b763593d3fb32935d23a26bd367d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:21 +0000
Subject: [PATCH 12/46] fix: keep taking packets after a write error so that
 the dialogue can finish

---
 multiplexer/dialogue.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 6813c51..ae123eb 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -344,12 +344,23 @@ func (dg *dialogue) writePkt() {
 			if err != nil {
 				dg.log.Errorf("dialogue write down err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					err, dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+				dg.discardPkt(writeOutCh)
 				return
 			}
 		}
 	}
 }
 
+// after a write error nothing can be sent any more, packets must still be taken
+// until the dialogue finished, otherwise their senders would block forever
+func (dg *dialogue) discardPkt(writeOutCh <-chan packet.Packet) {
+	for pkt := range writeOutCh {
+		if dg.failedCh != nil {
+			dg.failedCh <- pkt
+		}
+	}
+}
+
 func (dg *dialogue) dowritePkt(pkt packet.Packet, record bool) error {
 	err := dg.cn.Write(pkt)
 	if err != nil {
-- 
2.43.0


From e5051d246df6a00af0d369d487b883e1f2a18ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 13/46] fix: route packets to an opened dialogue as soon as its
 acknowledgement arrives

---
 multiplexer/dialogue_mgr.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 677ae3c..53ca3ea 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -286,6 +286,11 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		dm.log.Errorf("dialogue open err: %s, clientID: %d, negotiatingID: %d", err, dm.cn.ClientID(), dg.negotiatingID)
 		dm.mtx.Lock()
 		delete(dm.negotiatingDialogues, negotiatingID)
+		for id, elem := range dm.dialogues {
+			if elem == dg {
+				delete(dm.dialogues, id)
+			}
+		}
 		dm.mtx.Unlock()
 		return nil, err
 	}
@@ -299,7 +304,7 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 	// the logic on negotiatingDialogues is tricky, be care of it.
-	dm.dialogues[dg.dialogueID] = dg
+	// the dialogue was added to dialogues when its ack arrived, it may be offline already.
 	dm.mtx.Unlock()
 	return dg, nil
 }
@@ -391,18 +396,21 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		dm.mtx.Unlock()
 
 	case *packet.SessionAckPacket:
-		dm.mtx.RLock()
+		dm.mtx.Lock()
 		dg, ok := dm.negotiatingDialogues[realPkt.NegotiateID()]
 		if !ok {
 			// TODO we must warn the dialogue initiator
 			dm.log.Errorf("clientID: %d, unable to find negotiatingID: %d",
 				dm.cn.ClientID(), realPkt.NegotiateID())
-			dm.mtx.RUnlock()
+			dm.mtx.Unlock()
 			return
 		}
-		// TODO do we need handle the packet in time? before data or dismiss coming.
+		if realPkt.SessionData.Error == "" {
+			// route to the dialogue from now on, data or dismiss may follow at once
+			dm.dialogues[realPkt.SessionID()] = dg
+		}
 		dg.readInCh <- pkt
-		dm.mtx.RUnlock()
+		dm.mtx.Unlock()
 
 	default:
 		dgPkt, ok := pkt.(packet.SessionAbove)
-- 
2.43.0


From 333b693c7098f4d2b09bddcbbaab5fa052505678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 14/46] fix: close the input of a dialogue once, and only after
 it was taken out of routing

---
 multiplexer/dialogue.go     | 5 -----
 multiplexer/dialogue_mgr.go | 6 ++++--
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index ae123eb..1711c16 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -316,11 +316,6 @@ func (dg *dialogue) open() error {
 	if event.Error != nil {
 		dg.log.Debugf("dialogue open err: %s, clientID: %d, dialogueID: %d",
 			event.Error, dg.cn.ClientID(), dg.dialogueID)
-		dg.mtx.Lock()
-		if dg.dialogueOK {
-			close(dg.readInCh)
-		}
-		dg.mtx.Unlock()
 	}
 	return event.Error
 }
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 53ca3ea..fc77baf 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -291,6 +291,8 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 				delete(dm.dialogues, id)
 			}
 		}
+		// no packet is routed to it any more
+		dg.closeIO()
 		dm.mtx.Unlock()
 		return nil, err
 	}
@@ -298,9 +300,9 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 	delete(dm.negotiatingDialogues, negotiatingID)
 	if !dm.mgrOK {
 		// delete(dm.dialogues, dg.dialogueID)
-		// !mgrOK only happens after dialogueMgr fini, so fini the dialogue
+		// !mgrOK only happens after dialogueMgr fini, which makes the dialogue fini itself
 		dm.mtx.Unlock()
-		dg.fini()
+		dg.closeIO()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
 	// the logic on negotiatingDialogues is tricky, be care of it.
-- 
2.43.0


From 31f183eca338a60b55a506f338050d7cb3326931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:29 +0000
Subject: [PATCH 15/46] fix: do not send on the closed-dialogue channel after
 it was closed

---
 multiplexer/dialogue_mgr.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index fc77baf..0f19c58 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -239,7 +239,8 @@ func (dm *dialogueMgr) DialogueOffline(dg delegate.DialogueDescriber) error {
 	if dm.dialogueClosedFn != nil {
 		dm.dialogueClosedFn(dg.(*dialogue))
 
-	} else if dm.dialogueClosedCh != nil {
+	} else if dm.dialogueClosedCh != nil && dm.mgrOK {
+		// after fini the channel is closed
 		// this must not be blocked, or else the whole system will stop
 		dm.dialogueClosedCh <- dg.(*dialogue)
 
-- 
2.43.0


From 83043eb19ca7fc9bc169d3d745a3674160cfdb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 16/46] fix: look up a dialogue under the lock that protects
 the table

---
 multiplexer/dialogue_mgr.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 0f19c58..19c029f 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -351,7 +351,9 @@ func (dm *dialogueMgr) GetDialogue(clientID, dialogueID uint64) (Dialogue, error
 	if dm.cn.ClientID() != clientID {
 		return nil, errors.New("unfound clientID")
 	}
+	dm.mtx.RLock()
 	dialogue, ok := dm.dialogues[dialogueID]
+	dm.mtx.RUnlock()
 	if !ok {
 		return nil, errors.New("unfound dialgoueID")
 	}
-- 
2.43.0


From 71ed5ad83c736727e6018435eb45d99abb5ade2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 17/46] fix: release the stream lock when a call to an
 unregistered method is refused

---
 application/rpc.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 6c0f25f..0b97522 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -86,13 +86,10 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 
 	if sm.opts.remoteMethodCheck {
 		// check remote RPC exists
-		sm.rpcMtx.RLock()
-		_, ok := sm.remoteRPCs[method]
-		if !ok {
-			sm.rpcMtx.RUnlock()
+		if !sm.hasRemoteRPC(method) {
+			sm.mtx.RUnlock()
 			return nil, ErrRemoteRPCUnregistered
 		}
-		sm.rpcMtx.RUnlock()
 	}
 	// transfer to underlayer packet
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
-- 
2.43.0


From 5a05eab144e30e00cc8146e723785addddba6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:33 +0000
Subject: [PATCH 18/46] fix: fail a call, not the process, when its id is
 acknowledged without a response

---
 application/rpc.go    | 6 +++++-
 application/stream.go | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/application/rpc.go b/application/rpc.go
index 0b97522..8dacce7 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -141,7 +141,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 				event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), req.ID())
 			return nil, event.Error
 		}
-		rsp := event.Ack.(*response)
+		rsp, ok := event.Ack.(*response)
+		if !ok {
+			// the peer acknowledged the request with something else than a response
+			return nil, ErrMismatchResponse
+		}
 		return rsp, nil
 	}
 }
diff --git a/application/stream.go b/application/stream.go
index 9940afa..2f17b05 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -24,6 +24,7 @@ var (
 	ErrMismatchStreamID      = errors.New("mismatch streamID")
 	ErrMismatchClientID      = errors.New("mismatch clientID")
 	ErrRemoteRPCUnregistered = errors.New("remote rpc unregistered")
+	ErrMismatchResponse      = errors.New("mismatch response")
 )
 
 const (
-- 
2.43.0


From dc8e1f68c43ce078acb1dd6bc05608b3df827fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:38 +0000
Subject: [PATCH 19/46] fix: complete an asynchronous call with its response

---
 application/rpc.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/application/rpc.go b/application/rpc.go
index 8dacce7..db7d9ef 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -193,6 +193,14 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			}
 			sm.log.Tracef("response return succeed, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+			rsp, ok := event.Ack.(*response)
+			if !ok {
+				// the peer acknowledged the request with something else than a response
+				call.Error = ErrMismatchResponse
+				ch <- call
+				return
+			}
+			call.Response = rsp
 			ch <- call
 			return
 		})}
-- 
2.43.0


From 5171677c8916419fa600a54d58ebc12c98df5846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 20/46] fix: honour the options and the remote method check in
 asynchronous calls

---
 application/rpc.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/application/rpc.go b/application/rpc.go
index db7d9ef..16d9bc1 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -157,11 +157,24 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 	if req.StreamID() != sm.dg.DialogueID() {
 		return nil, ErrMismatchStreamID
 	}
+	opt := options.MergeCallOptions(opts...)
+	if opt.Timeout != nil {
+		req.SetTimeout(*opt.Timeout)
+	}
+
 	sm.mtx.RLock()
 	if !sm.streamOK {
 		sm.mtx.RUnlock()
 		return nil, io.EOF
 	}
+
+	if sm.opts.remoteMethodCheck {
+		// check remote RPC exists
+		if !sm.hasRemoteRPC(method) {
+			sm.mtx.RUnlock()
+			return nil, ErrRemoteRPCUnregistered
+		}
+	}
 	pkt := sm.pf.NewRequestPacketWithIDAndSessionID(req.ID(), sm.dg.DialogueID(), []byte(method), req.Data())
 	// deadline and timeout for peer
 	if req.Timeout() != 0 {
-- 
2.43.0


From fa68acf35d580a0b2fbe1aaa8f7b6ac7391bb178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:50 +0000
Subject: [PATCH 21/46] fix: send the cancel of a request instead of dropping
 it

---
 application/stream.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 2f17b05..ea63778 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -228,6 +228,8 @@ func (sm *stream) handleOut(pkt packet.Packet) iodefine.IORet {
 		return sm.handleOutMessageAckPacket(realPkt)
 	case *packet.RequestPacket:
 		return sm.handleOutRequestPacket(realPkt)
+	case *packet.RequestCancelPacket:
+		return sm.handleOutRequestCancelPacket(realPkt)
 	case *packet.StreamPacket:
 		return sm.handleOutStreamPacket(realPkt)
 	case *packet.RegisterPacket:
@@ -474,6 +476,19 @@ func (sm *stream) handleOutRequestPacket(pkt *packet.RequestPacket) iodefine.IOR
 	return iodefine.IOSuccess
 }
 
+func (sm *stream) handleOutRequestCancelPacket(pkt *packet.RequestCancelPacket) iodefine.IORet {
+	err := sm.dg.Write(pkt)
+	if err != nil {
+		if err == io.ErrShortBuffer {
+			return iodefine.IODiscard
+		}
+		sm.log.Debugf("write request cancel packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			err, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+		return iodefine.IOErr
+	}
+	return iodefine.IOSuccess
+}
+
 func (sm *stream) handleOutRegisterPacket(pkt *packet.RegisterPacket) iodefine.IORet {
 	err := sm.dg.Write(pkt)
 	if err != nil {
-- 
2.43.0


From e5ad15eda70b41da22ab2a2808a08586237e40df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 22/46] fix: let the peer cancel a request that has no deadline

---
 application/stream.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index ea63778..2da3363 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -304,10 +304,12 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 			deadline = pkt.Data.Context.Deadline
 		}
 		ctx, cancel = context.WithDeadline(ctx, deadline)
-		sm.rpcMtx.Lock()
-		sm.rpcCancels[pkt.ID()] = cancel
-		sm.rpcMtx.Unlock()
+	} else {
+		ctx, cancel = context.WithCancel(ctx)
 	}
+	sm.rpcMtx.Lock()
+	sm.rpcCancels[pkt.ID()] = cancel
+	sm.rpcMtx.Unlock()
 	// hijack exist
 	if sm.hijackRPC != nil {
 		if sm.hijackRPC.pattern == nil {
@@ -335,12 +337,10 @@ func (sm *stream) handleInRequestPacket(pkt *packet.RequestPacket) iodefine.IORe
 	}
 
 	// release the context
-	if cancel != nil {
-		sm.rpcMtx.Lock()
-		delete(sm.rpcCancels, pkt.ID())
-		cancel()
-		sm.rpcMtx.Unlock()
-	}
+	sm.rpcMtx.Lock()
+	delete(sm.rpcCancels, pkt.ID())
+	cancel()
+	sm.rpcMtx.Unlock()
 
 	// no rpc found, return to call error, note that this error is not set to response error
 	err := fmt.Errorf("no such rpc: %s", method)
-- 
2.43.0


From d963ccb2a868d3278618cce9cbb12c89b58fc033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 23/46] fix: tell the peer when the context of an asynchronous
 call is canceled

---
 application/rpc.go | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/application/rpc.go b/application/rpc.go
index 16d9bc1..eb7e62f 100644
--- a/application/rpc.go
+++ b/application/rpc.go
@@ -123,16 +123,11 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 			// we don't deliver deadline exceeded since the pkt already has it
 			return nil, ctx.Err()
 		}
-		sm.mtx.RLock()
-		if !sm.streamOK {
-			sm.mtx.RUnlock()
-			return nil, io.EOF
-		}
 		// notify peer if context Canceled
-		cancelType := packet.RequestCancelTypeCanceled
-		cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(pkt.ID(), sm.dg.DialogueID(), cancelType)
-		sm.writeInCh <- cancelPkt
-		sm.mtx.RUnlock()
+		err := sm.cancelRequest(pkt.ID())
+		if err != nil {
+			return nil, err
+		}
 		return nil, ctx.Err()
 
 	case event := <-sync.C():
@@ -150,6 +145,19 @@ func (sm *stream) Call(ctx context.Context, method string, req geminio.Request,
 	}
 }
 
+// cancelRequest tells the peer that the request isn't waited for any longer.
+func (sm *stream) cancelRequest(id uint64) error {
+	sm.mtx.RLock()
+	defer sm.mtx.RUnlock()
+	if !sm.streamOK {
+		return io.EOF
+	}
+	cancelType := packet.RequestCancelTypeCanceled
+	cancelPkt := sm.pf.NewRequestCancelPacketWithIDAndSessionID(id, sm.dg.DialogueID(), cancelType)
+	sm.writeInCh <- cancelPkt
+	return nil
+}
+
 func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
 	if req.ClientID() != sm.cn.ClientID() {
 		return nil, ErrMismatchClientID
@@ -200,6 +208,10 @@ func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Requ
 			if event.Error != nil {
 				sm.log.Debugf("request packet err: %s, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 					event.Error, sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+				if event.Error == context.Canceled {
+					// notify peer if context Canceled
+					sm.cancelRequest(pkt.ID())
+				}
 				call.Error = event.Error
 				ch <- call
 				return
-- 
2.43.0


From 4e90e8b07700b223680914131357e65c5a67737c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 24/46] fix: close the receive channels of a stream where they
 are sent to, and keep its closed sync hub

---
 application/stream.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index 2da3363..ce6def4 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -77,6 +77,8 @@ type stream struct {
 	messageCh chan *packet.MessagePacket
 	streamCh  chan *packet.StreamPacket
 	failedCh  chan packet.Packet
+	// closed when the stream is finishing
+	finiCh chan struct{}
 
 	// deadline mtx protects SetDeadline, SetReadDeadline, SetWriteDeadline and all Read Write
 	dlMtx                       sync.RWMutex
@@ -106,6 +108,7 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		messageCh:         make(chan *packet.MessagePacket, 32),
 		streamCh:          make(chan *packet.StreamPacket, 32),
 		failedCh:          make(chan packet.Packet),
+		finiCh:            make(chan struct{}),
 		dlReadChList:      list.New(),
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
@@ -195,6 +198,10 @@ func (sm *stream) readPkt() {
 	}
 FINI:
 	sm.finiOnce.Do(sm.fini)
+	// only this goroutine sends to these channels
+	// the outside should care about message and stream channel status
+	close(sm.messageCh)
+	close(sm.streamCh)
 }
 
 func (sm *stream) handleIn(pkt packet.Packet) iodefine.IORet {
@@ -246,6 +253,8 @@ func (sm *stream) handleInMessagePacket(pkt *packet.MessagePacket) iodefine.IORe
 	// we don't want block here, and also we don't want discard immediately.
 	select {
 	case sm.messageCh <- pkt:
+	case <-sm.finiCh:
+		return iodefine.IOErr
 		/*
 			// TODO optimize it
 				default:
@@ -571,6 +580,9 @@ func (sm *stream) fini() {
 	sm.log.Debugf("stream finishing, clientID: %d, dialogueID: %d",
 		sm.cn.ClientID(), sm.dg.DialogueID())
 
+	// release the goroutine delivering messages
+	close(sm.finiCh)
+
 	sm.mtx.Lock()
 	defer sm.mtx.Unlock()
 	// collect shub, and all syncs will be close notified
@@ -583,11 +595,6 @@ func (sm *stream) fini() {
 	}
 	sm.writeInCh = nil
 	sm.shub.Close()
-	sm.shub = nil
-
-	// the outside should care about message and stream channel status
-	close(sm.messageCh)
-	close(sm.streamCh)
 
 	// collect timer
 	if sm.tmrOwner == sm {
-- 
2.43.0


From f59783bb5347122f113f498b06479e76bb9be78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 25/46] fix: leave the timer that all streams of an end share
 in place when one finishes

---
 application/end.go    | 1 -
 application/stream.go | 1 -
 2 files changed, 2 deletions(-)

diff --git a/application/end.go b/application/end.go
index e33df6a..fc2e94f 100644
--- a/application/end.go
+++ b/application/end.go
@@ -247,7 +247,6 @@ func (end *End) fini() {
 	if end.tmrOwner == end {
 		end.tmr.Close()
 	}
-	end.tmr = nil
 	end.log.Debugf("end finished, clientID: %d", end.cn.ClientID())
 }
 
diff --git a/application/stream.go b/application/stream.go
index ce6def4..6f99497 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -600,7 +600,6 @@ func (sm *stream) fini() {
 	if sm.tmrOwner == sm {
 		sm.tmr.Close()
 	}
-	sm.tmr = nil
 
 	if sm.dg.DialogueID() == 1 {
 		// the master stream
-- 
2.43.0


From 66d22b8257b4de88d7511c187c4c6e244584b4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 26/46] fix: serve one raw read at a time so that concurrent
 reads lose nothing

---
 application/raw.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 55930e9..2648216 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -23,14 +23,14 @@ func (sm *stream) Read(b []byte) (int, error) {
 	}
 	sm.mtx.RUnlock()
 
+	// one read at a time, or else a read overwrites what an other one left
 	sm.cacheMtx.Lock()
+	defer sm.cacheMtx.Unlock()
 	if sm.cache != nil && len(sm.cache) != 0 {
 		n := copy(b, sm.cache)
 		sm.cache = sm.cache[n:]
-		sm.cacheMtx.Unlock()
 		return n, nil
 	}
-	sm.cacheMtx.Unlock()
 
 	if sm.readDeadlineExceeded() {
 		select {
@@ -38,10 +38,8 @@ func (sm *stream) Read(b []byte) (int, error) {
 			if !ok {
 				return 0, io.EOF
 			}
-			sm.cacheMtx.Lock()
 			n := copy(b, pkt.Data)
 			sm.cache = pkt.Data[n:]
-			sm.cacheMtx.Unlock()
 			return n, nil
 		default:
 			return 0, os.ErrDeadlineExceeded
@@ -61,10 +59,8 @@ func (sm *stream) Read(b []byte) (int, error) {
 			sm.dlMtx.Unlock()
 			return 0, io.EOF
 		}
-		sm.cacheMtx.Lock()
 		n := copy(b, pkt.Data)
 		sm.cache = pkt.Data[n:]
-		sm.cacheMtx.Unlock()
 
 		// if we have't used the deadline channel, then release it
 		sm.dlMtx.Lock()
-- 
2.43.0


From d558208b0f5213a60ef7057baf096a33ce2bea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 27/46] fix: let raw reads return what arrived before the
 stream finished

---
 application/raw.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 2648216..d772017 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -16,13 +16,6 @@ const (
 
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
-	sm.mtx.RLock()
-	if !sm.streamOK {
-		sm.mtx.RUnlock()
-		return 0, io.EOF
-	}
-	sm.mtx.RUnlock()
-
 	// one read at a time, or else a read overwrites what an other one left
 	sm.cacheMtx.Lock()
 	defer sm.cacheMtx.Unlock()
-- 
2.43.0


From e61d89f58944bd5ceecc9851787d8832503cfc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 28/46] fix: apply deadlines to pending raw reads and writes,
 exactly once and without gaps

---
 application/raw.go    | 164 ++++++++++++++++++++++++------------------
 application/stream.go |   1 +
 2 files changed, 97 insertions(+), 68 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index d772017..2799372 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -1,6 +1,7 @@
 package application
 
 import (
+	"container/list"
 	"io"
 	"net"
 	"os"
@@ -14,6 +15,23 @@ const (
 	deadlineWriteSyncKey = "geminio:write_deadline"
 )
 
+type deadlineKey struct {
+	name string
+}
+
+// releaseWaiters releases all pending Read/Write of a direction, the dlMtx must be held
+func releaseWaiters(waiters *list.List) {
+	e := waiters.Front()
+	for e != nil {
+		ch, _ := e.Value.(chan struct{})
+		// deadline exceeds and notify all waiting Read/Write
+		close(ch)
+		olde := e
+		e = e.Next()
+		waiters.Remove(olde)
+	}
+}
+
 // geminio.Raw
 func (sm *stream) Read(b []byte) (int, error) {
 	// one read at a time, or else a read overwrites what an other one left
@@ -25,7 +43,9 @@ func (sm *stream) Read(b []byte) (int, error) {
 		return n, nil
 	}
 
-	if sm.readDeadlineExceeded() {
+	dlCh := make(chan struct{})
+	e, ok := sm.readWaitable(dlCh)
+	if !ok {
 		select {
 		case pkt, ok := <-sm.streamCh:
 			if !ok {
@@ -39,11 +59,6 @@ func (sm *stream) Read(b []byte) (int, error) {
 		}
 	}
 
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlReadChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
-
 	select {
 	case pkt, ok := <-sm.streamCh:
 		if !ok {
@@ -77,7 +92,9 @@ func (sm *stream) Write(b []byte) (int, error) {
 	copy(newb, b)
 	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)
 
-	if sm.writeDeadlineExceeded() {
+	dlCh := make(chan struct{})
+	e, ok := sm.writeWaitable(dlCh)
+	if !ok {
 		select {
 		case sm.writeInCh <- pkt:
 			return len(b), nil
@@ -86,11 +103,6 @@ func (sm *stream) Write(b []byte) (int, error) {
 		}
 	}
 
-	dlCh := make(chan struct{})
-	sm.dlMtx.Lock()
-	e := sm.dlWriteChList.PushBack(dlCh)
-	sm.dlMtx.Unlock()
-
 	select {
 	case sm.writeInCh <- pkt:
 		sm.dlMtx.Lock()
@@ -159,30 +171,36 @@ func (sm *stream) setReadDeadline(t time.Time) error {
 		sm.dlReadSync.Cancel(false)
 		sm.dlReadSync = nil
 	}
+	sm.dlRead = t
+	sm.dlReadFired = false
+	if t.IsZero() {
+		return nil
+	}
 	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlReadSync = sm.shub.Add(deadlineReadSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlReadChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlReadChList.Remove(olde)
-				}
-			}))
+	if duration <= 0 {
+		// the deadline applies to pending I/O too
+		releaseWaiters(sm.dlReadChList)
+		return nil
 	}
-	sm.dlRead = t
+	// a key of its own, a late timer of a replaced deadline doesn't match it
+	sm.dlReadSync = sm.shub.Add(&deadlineKey{deadlineReadSyncKey},
+		synchub.WithTimeout(duration),
+		synchub.WithCallback(func(event *synchub.Event) {
+			if event.Error != synchub.ErrSyncTimeout {
+				return
+			}
+			// deadline exceeds
+			sm.dlMtx.Lock()
+			defer sm.dlMtx.Unlock()
+
+			if !sm.dlRead.Equal(t) {
+				// replaced in the meantime
+				return
+			}
+			// the timer may be a bit earlier than the deadline
+			sm.dlReadFired = true
+			releaseWaiters(sm.dlReadChList)
+		}))
 	return nil
 }
 
@@ -202,49 +220,59 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 		sm.dlWriteSync.Cancel(false)
 		sm.dlWriteSync = nil
 	}
+	sm.dlWrite = t
+	sm.dlWriteFired = false
+	if t.IsZero() {
+		return nil
+	}
 	duration := t.Sub(time.Now())
-	if duration > 0 {
-		sm.dlWriteSync = sm.shub.Add(deadlineWriteSyncKey,
-			synchub.WithTimeout(duration),
-			synchub.WithCallback(func(event *synchub.Event) {
-				if event.Error != synchub.ErrSyncTimeout {
-					return
-				}
-				// deadline exceeds
-				sm.dlMtx.RLock()
-				defer sm.dlMtx.RUnlock()
-
-				e := sm.dlWriteChList.Front()
-				for e != nil {
-					ch, _ := e.Value.(chan struct{})
-					// deadline exceeds and notify all waiting Read/Write
-					close(ch)
-					olde := e
-					e = e.Next()
-					sm.dlWriteChList.Remove(olde)
-				}
-			}))
+	if duration <= 0 {
+		// the deadline applies to pending I/O too
+		releaseWaiters(sm.dlWriteChList)
+		return nil
 	}
-	sm.dlWrite = t
+	// a key of its own, a late timer of a replaced deadline doesn't match it
+	sm.dlWriteSync = sm.shub.Add(&deadlineKey{deadlineWriteSyncKey},
+		synchub.WithTimeout(duration),
+		synchub.WithCallback(func(event *synchub.Event) {
+			if event.Error != synchub.ErrSyncTimeout {
+				return
+			}
+			// deadline exceeds
+			sm.dlMtx.Lock()
+			defer sm.dlMtx.Unlock()
+
+			if !sm.dlWrite.Equal(t) {
+				// replaced in the meantime
+				return
+			}
+			// the timer may be a bit earlier than the deadline
+			sm.dlWriteFired = true
+			releaseWaiters(sm.dlWriteChList)
+		}))
 	return nil
 }
 
-func (sm *stream) readDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+// readWaitable enrolls a read to be released when the deadline exceeds, the return
+// is false if it's already exceeded.
+func (sm *stream) readWaitable(dlCh chan struct{}) (*list.Element, bool) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
 
-	if !sm.dlRead.IsZero() && time.Now().After(sm.dlRead) {
-		return true
+	if sm.dlReadFired || (!sm.dlRead.IsZero() && time.Now().After(sm.dlRead)) {
+		return nil, false
 	}
-	return false
+	return sm.dlReadChList.PushBack(dlCh), true
 }
 
-func (sm *stream) writeDeadlineExceeded() bool {
-	sm.dlMtx.RLock()
-	defer sm.dlMtx.RUnlock()
+// writeWaitable enrolls a write to be released when the deadline exceeds, the return
+// is false if it's already exceeded.
+func (sm *stream) writeWaitable(dlCh chan struct{}) (*list.Element, bool) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
 
-	if !sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite) {
-		return true
+	if sm.dlWriteFired || (!sm.dlWrite.IsZero() && time.Now().After(sm.dlWrite)) {
+		return nil, false
 	}
-	return false
+	return sm.dlWriteChList.PushBack(dlCh), true
 }
diff --git a/application/stream.go b/application/stream.go
index 6f99497..49fd69e 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -85,6 +85,7 @@ type stream struct {
 	dlReadSync, dlWriteSync     synchub.Sync
 	dlReadChList, dlWriteChList *list.List
 	dlRead, dlWrite             time.Time
+	dlReadFired, dlWriteFired   bool
 
 	// io
 	writeInCh chan packet.Packet // for multiple message types
-- 
2.43.0


From f558d22b248b0e51eb6e179324963cad88b638d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 29/46] fix: fail a registration that the peer refused

---
 application/stream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/application/stream.go b/application/stream.go
index 49fd69e..11a1160 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -430,6 +430,10 @@ func (sm *stream) handleInRegisterPacket(pkt *packet.RegisterPacket) iodefine.IO
 func (sm *stream) handleInRegisterAckPacket(pkt *packet.RegisterAckPacket) iodefine.IORet {
 	sm.log.Tracef("read register ack packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 		sm.cn.ClientID(), sm.dg.DialogueID(), pkt.ID(), pkt.Type().String())
+	if pkt.RegisterData != nil && pkt.RegisterData.Error != "" {
+		sm.shub.Error(pkt.ID(), errors.New(pkt.RegisterData.Error))
+		return iodefine.IOSuccess
+	}
 	sm.shub.Done(pkt.ID())
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From 67445b12aeb01518b49c5bc01c05217161caeb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 30/46] fix: list a stream before it can finish, or else it
 stays listed forever

---
 application/end.go    | 4 ----
 application/stream.go | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/application/end.go b/application/end.go
index fc2e94f..87500c6 100644
--- a/application/end.go
+++ b/application/end.go
@@ -143,7 +143,6 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 		goto ERR
 	}
 	end.stream = newStream(end, cn, dg, end.opts)
-	end.streams.Store(dg.DialogueID(), end.stream)
 
 	// RPCs
 	// pre register local RPCs
@@ -196,7 +195,6 @@ func (end *End) OpenStream(opts ...*options.OpenStreamOptions) (
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -210,7 +208,6 @@ func (end *End) AcceptStream() (geminio.Stream, error) {
 		return nil, err
 	}
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	return sm, nil
 }
 
@@ -254,7 +251,6 @@ func (end *End) fini() {
 // TODO optimize
 func (end *End) AcceptDialogue(dg multiplexer.Dialogue) {
 	sm := newStream(end, end.cn, dg, end.opts)
-	end.streams.Store(sm.StreamID(), sm)
 	if sm.acceptStreamFunc != nil {
 		sm.acceptStreamFunc(sm)
 	}
diff --git a/application/stream.go b/application/stream.go
index 11a1160..c867dfa 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -114,6 +114,8 @@ func newStream(end *End, cn conn.Conn, dg multiplexer.Dialogue, opts *opts) *str
 		dlWriteChList:     list.New(),
 		writeInCh:         make(chan packet.Packet, 32),
 	}
+	// the stream may finish at any time once it's rolling, so the end should know it before
+	end.streams.Store(sm.StreamID(), sm)
 	go sm.handlePkt()
 	go sm.readPkt()
 	return sm
-- 
2.43.0


From 0dc8841d10c1329429100a0cb16a47ec566ac780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 31/46] fix: a reconnect registered the remembered methods
 through itself, which deadlocks when the new connection ends meanwhile

---
 client/end_retry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index 87364a1..b5c0ccb 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -123,7 +123,7 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 	re.rpcMtx.RLock()
 	for method, rpc := range re.rpcs {
 		// TODO inconsistency for the context
-		err = re.register(context.TODO(), method, rpc, false)
+		err = new.Register(context.TODO(), method, rpc)
 		if err != nil {
 			re.rpcMtx.RUnlock()
 			return err
-- 
2.43.0


From 95ea957c64fb599ef59b07ad6daa02202b235f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:12 +0000
Subject: [PATCH 32/46] fix: closing an end while it reconnects left the new
 connection open

---
 client/end_retry.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client/end_retry.go b/client/end_retry.go
index b5c0ccb..14477c9 100644
--- a/client/end_retry.go
+++ b/client/end_retry.go
@@ -109,6 +109,11 @@ func (re *RetryEnd) reinit(old *clientEnd) error {
 		return err
 	}
 	atomic.StorePointer(&re.end, unsafe.Pointer(new))
+	if atomic.LoadInt32(re.ok) == 0 {
+		// closed meanwhile, Close may have seen the old end only
+		new.Close()
+		return io.EOF
+	}
 	// TODO optimize rests
 	time.Sleep(1 * time.Second)
 
@@ -561,9 +566,9 @@ func (re *RetryEnd) Write(b []byte) (int, error) {
 func (re *RetryEnd) Close() error {
 	var err error
 	re.onceClose.Do(func() {
-		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		// set re.ok false, no more reconnect
 		atomic.StoreInt32(re.ok, 0)
+		cur := (*clientEnd)(atomic.LoadPointer(&re.end))
 		err = cur.Close()
 		if re.opts.TimerOwner == re {
 			re.opts.Timer.Close()
-- 
2.43.0


From bf0ffd34bd23fab8087a44c8f03fc9d997e7f63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:46 +0000
Subject: [PATCH 33/46] fix: a stream opened before the server's end was made
 crashed the server

---
 server/end.go | 41 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/server/end.go b/server/end.go
index 36e1357..511caab 100644
--- a/server/end.go
+++ b/server/end.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"net"
+	"sync"
 
 	"github.com/jumboframes/armorigo/log"
 	"github.com/singchia/geminio"
@@ -44,6 +45,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		mpOpts   []multiplexer.MultiplexerOption
 		acceptfn func(multiplexer.Dialogue)
 		closedfn func(multiplexer.Dialogue)
+		early    earlyDialogues
 		// application
 		ep     geminio.End
 		epOpts []application.EndOption
@@ -68,12 +70,12 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	// multiplexer and application
 	if eo.AcceptStreamFunc != nil {
 		acceptfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).AcceptDialogue(dg)
+			early.do(func() { ep.(*application.End).AcceptDialogue(dg) })
 		}
 	}
 	if eo.ClosedStreamFunc != nil {
 		closedfn = func(dg multiplexer.Dialogue) {
-			ep.(*application.End).ClosedDialogue(dg)
+			early.do(func() { ep.(*application.End).ClosedDialogue(dg) })
 		}
 	}
 	// multiplexer
@@ -119,6 +121,7 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 		goto ERR
 	}
 	se.End = ep
+	early.ready()
 	return se, nil
 ERR:
 	if eo.TimerOwner == se {
@@ -127,6 +130,40 @@ ERR:
 	return nil, err
 }
 
+// The peer may open and close streams before the end is made, those wait here.
+type earlyDialogues struct {
+	mtx  sync.Mutex
+	made bool
+	fns  []func()
+}
+
+func (early *earlyDialogues) do(fn func()) {
+	early.mtx.Lock()
+	if !early.made {
+		early.fns = append(early.fns, fn)
+		early.mtx.Unlock()
+		return
+	}
+	early.mtx.Unlock()
+	fn()
+}
+
+func (early *earlyDialogues) ready() {
+	for {
+		early.mtx.Lock()
+		fns := early.fns
+		early.fns = nil
+		early.made = len(fns) == 0
+		early.mtx.Unlock()
+		if len(fns) == 0 {
+			return
+		}
+		for _, fn := range fns {
+			fn()
+		}
+	}
+}
+
 func initEndOptions(eo *EndOptions) {
 	if eo.Log == nil {
 		eo.Log = log.DefaultLog
-- 
2.43.0


From 4d4997eb7854db3b124cff4ef90185205c8ce044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:01 +0000
Subject: [PATCH 34/46] fix: an end that could not be made left its connection
 open

---
 client/end.go | 2 ++
 server/end.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/client/end.go b/client/end.go
index ec8d17e..b73257f 100644
--- a/client/end.go
+++ b/client/end.go
@@ -114,6 +114,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	ce.End = ep
 	return ce, nil
 ERR:
+	// let fini finish the layers already made
+	netcn.Close()
 	if eo.TimerOwner == ce {
 		eo.Timer.Close()
 	}
diff --git a/server/end.go b/server/end.go
index 511caab..7da9ef4 100644
--- a/server/end.go
+++ b/server/end.go
@@ -124,6 +124,8 @@ func new(netcn net.Conn, opts ...*EndOptions) (geminio.End, error) {
 	early.ready()
 	return se, nil
 ERR:
+	// let fini finish the layers already made
+	netcn.Close()
 	if eo.TimerOwner == se {
 		eo.Timer.Close()
 	}
-- 
2.43.0


From 2afd733855c00e7dc420a3aed0d4bec1242553e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 35/46] fix: a stream opened while its connection ends used ids
 and waits that were gone

---
 multiplexer/dialogue.go     | 4 ++--
 multiplexer/dialogue_mgr.go | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 1711c16..008bd31 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -301,14 +301,14 @@ func (dg *dialogue) open() error {
 
 	var pkt *packet.SessionPacket
 	pkt = dg.pf.NewSessionPacket(dg.negotiatingID, dg.dialogueIDPeersCall, dg.meta, dg.peer)
-	// sync must set before the packet send down, in case of the ack coming first
-	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 
 	dg.mtx.RLock()
 	if !dg.dialogueOK {
 		dg.mtx.RUnlock()
 		return io.EOF
 	}
+	// sync must set before the packet send down, in case of the ack coming first
+	sync := dg.shub.Add(pkt.PacketID, synchub.WithTimeout(30*time.Second))
 	dg.writeInCh <- pkt
 	dg.mtx.RUnlock()
 
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 19c029f..dde51c0 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -258,13 +258,12 @@ func (dm *dialogueMgr) getID() uint64 {
 
 // OpenDialogue blocks until succeed or failed
 func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error) {
-	dm.mtx.RLock()
+	// until the dialogue is among those that fini ends, fini must wait
+	dm.mtx.Lock()
 	if !dm.mgrOK {
-		dm.mtx.RUnlock()
+		dm.mtx.Unlock()
 		return nil, ErrOperationOnClosedMultiplexer
 	}
-	dm.mtx.RUnlock()
-
 	negotiatingID := dm.dialogueIDs.GetID()
 	dialogueIDPeersCall := dm.cn.Side() == geminio.InitiatorSide
 	dg, err := NewDialogue(dm.cn, dm.multiplexerOpts.opts,
@@ -275,10 +274,10 @@ func (dm *dialogueMgr) OpenDialogue(meta []byte, peer string) (Dialogue, error)
 		OptionDialogueMeta(meta),
 		OptionDialoguePeer(peer))
 	if err != nil {
+		dm.mtx.Unlock()
 		dm.log.Errorf("new dialogue err: %s, clientID: %d", err, dm.cn.ClientID())
 		return nil, err
 	}
-	dm.mtx.Lock()
 	dm.negotiatingDialogues[negotiatingID] = dg
 	dm.mtx.Unlock()
 	// Open take times, shouldn't be locked
-- 
2.43.0


From 8251c1a384d402d73aa500cdc6e6b9c5df79a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 36/46] fix: reading again from a connection that finished
 blocked for ever

---
 conn/conn_base.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/conn/conn_base.go b/conn/conn_base.go
index 8218a99..fc22e13 100644
--- a/conn/conn_base.go
+++ b/conn/conn_base.go
@@ -79,7 +79,6 @@ type baseConn struct {
 func (bc *baseConn) Read() (packet.Packet, error) {
 	pkt, ok := <-bc.readOutCh
 	if !ok {
-		bc.readOutCh = nil
 		return nil, io.EOF
 	}
 	return pkt, nil
-- 
2.43.0


From 3d68c9f53f056016775c2e6f070d42ef3d18b8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:20 +0000
Subject: [PATCH 37/46] fix: a goroutine starting as its stream or connection
 finished waited for ever on a channel taken away

---
 application/stream.go   | 1 -
 conn/conn_client.go     | 2 --
 conn/conn_server.go     | 2 --
 multiplexer/dialogue.go | 2 --
 4 files changed, 7 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index c867dfa..dcd9880 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -600,7 +600,6 @@ func (sm *stream) fini() {
 	for pkt := range sm.writeInCh {
 		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 	}
-	sm.writeInCh = nil
 	sm.shub.Close()
 
 	// collect timer
diff --git a/conn/conn_client.go b/conn/conn_client.go
index 6bb3bf8..3a15637 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -438,8 +438,6 @@ func (cc *ClientConn) fini() {
 	cc.fsm.EmitEvent(ET_FINI)
 	cc.fsm.Close()
 	cc.fsm = nil
-	// collect channels
-	cc.readInCh, cc.writeInCh, cc.writeOutCh = nil, nil, nil
 
 	cc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 472fde0..052aabe 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -471,8 +471,6 @@ func (sc *ServerConn) fini() {
 	sc.fsm = nil
 	// collect id
 	sc.clientIDs = nil
-	// collect channels
-	sc.readInCh, sc.writeInCh, sc.writeOutCh = nil, nil, nil
 
 	sc.log.Debugf("client finished, clientID: %d, remote: %s, meta: %s",
 		sc.clientID, sc.netconn.RemoteAddr(), string(sc.meta))
diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 008bd31..94aa31c 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -746,8 +746,6 @@ func (dg *dialogue) fini() {
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
 	close(dg.writeOutCh)
-	// collect channels
-	dg.writeInCh, dg.writeOutCh = nil, nil
 	// TODO we left the readInCh buffer at some edge cases which may cause peer msg timeout
 
 	// collect fsm
-- 
2.43.0


From c76d323bf6b1fccae686e9db1a4dc8a2334dbdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 38/46] fix: a connection ending while writers wait for room,
 or before the connect packet is made, hung or crashed

---
 conn/conn_client.go | 33 ++++++++++++++++++++++-----------
 conn/conn_server.go | 29 +++++++++++++++--------------
 2 files changed, 37 insertions(+), 25 deletions(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index 3a15637..bd3779b 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -2,6 +2,7 @@ package conn
 
 import (
 	"errors"
+	"io"
 	"net"
 	"sync"
 	"time"
@@ -199,9 +200,15 @@ func (cc *ClientConn) initFSM() {
 
 func (cc *ClientConn) connect() error {
 	pkt := cc.pf.NewConnPacket(cc.clientID, true, cc.heartbeat, cc.meta)
+	cc.connMtx.RLock()
+	if !cc.connOK {
+		cc.connMtx.RUnlock()
+		return io.EOF
+	}
 	// the wait must be in place before the packet can be answered
 	sync := cc.shub.New(pkt.PacketID, synchub.WithTimeout(10*time.Second))
 	cc.writeInCh <- pkt
+	cc.connMtx.RUnlock()
 	event := <-sync.C()
 
 	if event.Error != nil {
@@ -402,24 +409,28 @@ func (cc *ClientConn) fini() {
 	}
 	cc.log.Debugf("client finishing, clientID: %d, remote: %s, meta: %s",
 		cc.clientID, remote, string(cc.meta))
-	if cc.hbTick != nil {
-		cc.hbTick.Cancel()
-		cc.hbTick = nil
-	}
-	// collect shub
-	cc.shub.Close()
-	cc.shub = nil
 	// collect net.Conn
 	cc.netconn.Close()
-	cc.connMtx.Lock()
-	cc.connOK = false
-	close(cc.writeInCh)
-	cc.connMtx.Unlock()
+	// lock protect conn status and input resource, who holds the lock may wait for room in writeInCh
+	go func() {
+		cc.connMtx.Lock()
+		cc.connOK = false
+		close(cc.writeInCh)
+		cc.connMtx.Unlock()
+	}()
 	for pkt := range cc.writeInCh {
 		if cc.failedCh != nil && !packet.ConnLayer(pkt) {
 			cc.failedCh <- pkt
 		}
 	}
+	// the followings are only used by others while connOK
+	if cc.hbTick != nil {
+		cc.hbTick.Cancel()
+		cc.hbTick = nil
+	}
+	// collect shub
+	cc.shub.Close()
+	cc.shub = nil
 	// the outside should care about channel status
 	close(cc.readOutCh)
 
diff --git a/conn/conn_server.go b/conn/conn_server.go
index 052aabe..982aff7 100644
--- a/conn/conn_server.go
+++ b/conn/conn_server.go
@@ -429,28 +429,29 @@ func (sc *ServerConn) fini() {
 	// if we are in conn stage,
 	sc.shub.Error(sc.getSyncID(), errors.New("connection closed"))
 
-	// cancel the heartbeat
-	if sc.hbTick != nil {
-		sc.hbTick.Cancel()
-		sc.hbTick = nil
-	}
-
-	// collect shub
-	sc.shub.Close()
-	sc.shub = nil
 	// collect net.Conn
 	sc.netconn.Close()
-	// lock protect conn status and input resource
-	sc.connMtx.Lock()
-	sc.connOK = false
-	close(sc.writeInCh)
-	sc.connMtx.Unlock()
+	// lock protect conn status and input resource, who holds the lock may wait for room in writeInCh
+	go func() {
+		sc.connMtx.Lock()
+		sc.connOK = false
+		close(sc.writeInCh)
+		sc.connMtx.Unlock()
+	}()
 	// writeInCh must be cared since buffer might still has data
 	for pkt := range sc.writeInCh {
 		if sc.failedCh != nil && !packet.ConnLayer(pkt) {
 			sc.failedCh <- pkt
 		}
 	}
+	// cancel the heartbeat
+	if sc.hbTick != nil {
+		sc.hbTick.Cancel()
+		sc.hbTick = nil
+	}
+	// collect shub
+	sc.shub.Close()
+	sc.shub = nil
 	// the outside should care about channel status
 	close(sc.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From 70121edcf550851d91338bb74eca9fd2dd7df0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 39/46] fix: a stream of the multiplexer ending while writers
 wait for room hung

---
 multiplexer/dialogue.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index 94aa31c..f6a9081 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -727,21 +727,24 @@ func (dg *dialogue) fini() {
 	dg.log.Debugf("dialogue finishing, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
 
-	dg.mtx.Lock()
-	// TODO should we move dialogueOK=false to Close and CloseWait?
-	dg.dialogueOK = false
-	close(dg.writeInCh)
-	dg.mtx.Unlock()
-
-	// collect shub
-	dg.shub.Close()
-	dg.shub = nil
-
+	// who holds the lock may wait for room in writeInCh
+	go func() {
+		dg.mtx.Lock()
+		// TODO should we move dialogueOK=false to Close and CloseWait?
+		dg.dialogueOK = false
+		close(dg.writeInCh)
+		dg.mtx.Unlock()
+	}()
 	for pkt := range dg.writeInCh {
 		if dg.failedCh != nil && !packet.SessionLayer(pkt) {
 			dg.failedCh <- pkt
 		}
 	}
+
+	// collect shub
+	dg.shub.Close()
+	dg.shub = nil
+
 	// the outside should care about channel status
 	close(dg.readOutCh)
 	// writeOutCh must be cared since writhPkt might quit first
-- 
2.43.0


From c09a5659c24d81fe7588f9caa03ee3f0c4fb8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:07 +0000
Subject: [PATCH 40/46] fix: a stream finishing while operations wait for room
 hung

---
 application/stream.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/application/stream.go b/application/stream.go
index dcd9880..0306eff 100644
--- a/application/stream.go
+++ b/application/stream.go
@@ -590,16 +590,20 @@ func (sm *stream) fini() {
 	// release the goroutine delivering messages
 	close(sm.finiCh)
 
-	sm.mtx.Lock()
-	defer sm.mtx.Unlock()
-	// collect shub, and all syncs will be close notified
-
-	sm.streamOK = false
-	close(sm.writeInCh)
-
+	// who holds the lock may wait for room in writeInCh
+	go func() {
+		sm.mtx.Lock()
+		sm.streamOK = false
+		close(sm.writeInCh)
+		sm.mtx.Unlock()
+	}()
 	for pkt := range sm.writeInCh {
 		sm.shub.Error(pkt.ID(), io.ErrClosedPipe)
 	}
+
+	sm.mtx.Lock()
+	defer sm.mtx.Unlock()
+	// collect shub, and all syncs will be close notified
 	sm.shub.Close()
 
 	// collect timer
-- 
2.43.0


From a8aa43602ec1b629ab497371c60056eda3e1d920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 41/46] fix: closing a stream with unread packets crashed the
 process, one failing then blocked all others

---
 multiplexer/dialogue.go     | 42 ++++++++++++++++++++++++++++++++-----
 multiplexer/dialogue_mgr.go |  6 +++---
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/multiplexer/dialogue.go b/multiplexer/dialogue.go
index f6a9081..d36d5f2 100644
--- a/multiplexer/dialogue.go
+++ b/multiplexer/dialogue.go
@@ -73,6 +73,8 @@ type dialogue struct {
 	readInSize, writeOutSize int
 	readOutSize, writeInSize int
 	failedCh                 chan packet.Packet
+	// closed once no more packets are read in
+	closeIOCh chan struct{}
 
 	closeOnce   *gsync.Once
 	closeIOOnce *gsync.Once
@@ -162,6 +164,7 @@ func NewDialogue(cn conn.Conn, baseOpts *opts, opts ...DialogueOption) (*dialogu
 	dg.writeOutCh = make(chan packet.Packet, dg.writeOutSize)
 	dg.readOutCh = make(chan packet.Packet, dg.readOutSize)
 	dg.writeInCh = make(chan packet.Packet, dg.writeInSize)
+	dg.closeIOCh = make(chan struct{})
 
 	dg.shub = synchub.NewSyncHub(synchub.OptionTimer(dg.tmr))
 	// packet factory
@@ -375,10 +378,7 @@ func (dg *dialogue) handlePkt() {
 
 	for {
 		select {
-		case pkt, ok := <-readInCh:
-			if !ok {
-				goto FINI
-			}
+		case pkt := <-readInCh:
 			dg.log.Tracef("dialogue read in packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
 				dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
 			ret := dg.handleIn(pkt)
@@ -406,11 +406,17 @@ func (dg *dialogue) handlePkt() {
 			case iodefine.IOErr:
 				goto FINI
 			}
+		case <-dg.closeIOCh:
+			// what was read in before still counts
+			dg.handleRest()
+			goto FINI
 		}
 	}
 FINI:
 	dg.log.Debugf("dialogue handle pkt done, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
+	// who reads in a packet may wait for room, with the dialogue manager locked
+	dg.closeIO()
 
 	// only onlined Dialogue need to be notified
 	if dg.dlgt != nil && dg.onlined {
@@ -420,6 +426,21 @@ FINI:
 	dg.fini()
 }
 
+// handleRest handles the packets read in until now
+func (dg *dialogue) handleRest() {
+	for {
+		select {
+		case pkt := <-dg.readInCh:
+			ret := dg.handleIn(pkt)
+			if ret == iodefine.IOClosed || ret == iodefine.IOErr {
+				return
+			}
+		default:
+			return
+		}
+	}
+}
+
 func (dg *dialogue) handleIn(pkt packet.Packet) iodefine.IORet {
 	switch realPkt := pkt.(type) {
 	case *packet.SessionPacket:
@@ -712,10 +733,21 @@ func (dg *dialogue) CloseWait() {
 
 func (dg *dialogue) closeIO() {
 	dg.closeIOOnce.Do(func() {
-		close(dg.readInCh)
+		// readInCh itself stays open, the dialogue manager may be sending to it
+		close(dg.closeIOCh)
 	})
 }
 
+// readIn hands a packet to the dialogue unless it's closed
+func (dg *dialogue) readIn(pkt packet.Packet) {
+	select {
+	case dg.readInCh <- pkt:
+	case <-dg.closeIOCh:
+		dg.log.Tracef("dialogue closed, discard packet, clientID: %d, dialogueID: %d, packetID: %d, packetType: %s",
+			dg.cn.ClientID(), dg.dialogueID, pkt.ID(), pkt.Type().String())
+	}
+}
+
 func (dg *dialogue) closeWrapper(_ *yafsm.Event) {
 	dg.log.Infof("dialogue triggered close wrapper, clientID: %d, dialogueID: %d",
 		dg.cn.ClientID(), dg.dialogueID)
diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index dde51c0..b2073d4 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -396,7 +396,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.mtx.Lock()
 		dm.negotiatingDialogues[negotiatingID] = dg
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.Unlock()
 
 	case *packet.SessionAckPacket:
@@ -413,7 +413,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 			// route to the dialogue from now on, data or dismiss may follow at once
 			dm.dialogues[realPkt.SessionID()] = dg
 		}
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.Unlock()
 
 	default:
@@ -438,7 +438,7 @@ func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
 		}
 		dm.log.Tracef("read to dialogue, clientID: %d, dialogueID: %d, packetID: %d, packetType %s",
 			dm.cn.ClientID(), dialogueID, pkt.ID(), pkt.Type().String())
-		dg.readInCh <- pkt
+		dg.readIn(pkt)
 		dm.mtx.RUnlock()
 	}
 }
-- 
2.43.0


From 0db1d3f3ce1c8862bc76f743807edff3e1183215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 42/46] fix: closing an end whose peer keeps sending left its
 connection open

---
 multiplexer/dialogue_mgr.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index b2073d4..59ddd97 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -375,6 +375,15 @@ func (dm *dialogueMgr) readPkt() {
 FINI:
 	// if the dialogue manager got an error, all dialogue must be finished in time
 	dm.fini()
+	// the conn can only finish while its packets are taken
+	dm.discardPkt()
+}
+
+func (dm *dialogueMgr) discardPkt() {
+	for pkt := range dm.cn.ChannelRead() {
+		dm.log.Tracef("dialogue mgr finished, discard packet, clientID: %d, packetID: %d, packetType: %s",
+			dm.cn.ClientID(), pkt.ID(), pkt.Type().String())
+	}
 }
 
 func (dm *dialogueMgr) handlePkt(pkt packet.Packet) {
-- 
2.43.0


From 2eb86956315fff372c0042399a356c2de38a73f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:08 +0000
Subject: [PATCH 43/46] fix: a heartbeat's answer arriving while the client's
 connection closes no longer ends it

---
 conn/conn_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn/conn_client.go b/conn/conn_client.go
index bd3779b..04e262f 100644
--- a/conn/conn_client.go
+++ b/conn/conn_client.go
@@ -325,7 +325,7 @@ func (cc *ClientConn) handleInHeartbeatAckPacket(pkt *packet.HeartbeatAckPacket)
 	if !ok {
 		cc.log.Errorf("heartbeat at non-CONNED state, clientID: %d, PacketID: %d, remote: %s, meta: %s, state: %s",
 			cc.clientID, pkt.ID(), cc.netconn.RemoteAddr(), string(cc.meta), cc.fsm.State())
-		return iodefine.IOErr
+		return iodefine.IODiscard
 	}
 	return iodefine.IOSuccess
 }
-- 
2.43.0


From 642c9780230a087bdff7780fd1e640f2d9f9bb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 44/46] fix: a method registered while an end begins waiting
 for it is not missed

---
 application/end.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/application/end.go b/application/end.go
index 87500c6..0960067 100644
--- a/application/end.go
+++ b/application/end.go
@@ -156,22 +156,20 @@ func NewEnd(cn conn.Conn, multiplexer multiplexer.Multiplexer, options ...EndOpt
 	}
 	// wait for all remote RPCs registration
 	if end.opts.remoteMethods != nil && len(end.opts.remoteMethods) != 0 {
-		// check whether remote RPCs have been registered
-		tocheckMethods := []string{}
+		// a method may be registered at any time, so start waiting before checking
+		// whether remote RPCs have been registered
+		ifs := strings2interfaces(end.opts.remoteMethods...)
+		syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
+		sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
 		for _, method := range end.opts.remoteMethods {
-			if !end.stream.hasRemoteRPC(method) {
-				tocheckMethods = append(tocheckMethods, method)
+			if end.stream.hasRemoteRPC(method) {
+				end.stream.shub.DoneSub(syncID, method)
 			}
 		}
-		if len(tocheckMethods) != 0 {
-			ifs := strings2interfaces(tocheckMethods...)
-			syncID := fmt.Sprintf(registrationFormat, cn.ClientID(), dg.DialogueID())
-			sync := end.stream.shub.Add(syncID, synchub.WithSub(ifs...))
-			event := <-sync.C()
-			if event.Error != nil {
-				err = event.Error
-				goto ERR
-			}
+		event := <-sync.C()
+		if event.Error != nil {
+			err = event.Error
+			goto ERR
 		}
 	}
 	return end, nil
-- 
2.43.0


From 824a8343fc37ed685cc09d9889b3cb9a53631f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:31 +0000
Subject: [PATCH 45/46] fix: closing a dialogue manager again before it
 finished no longer panics

---
 multiplexer/dialogue_mgr.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/multiplexer/dialogue_mgr.go b/multiplexer/dialogue_mgr.go
index 59ddd97..403a0ec 100644
--- a/multiplexer/dialogue_mgr.go
+++ b/multiplexer/dialogue_mgr.go
@@ -51,7 +51,8 @@ type dialogueMgr struct {
 	cn conn.Conn
 
 	// close channel
-	closeCh chan struct{}
+	closeCh   chan struct{}
+	closeOnce sync.Once
 
 	// dialogues
 	dialogueIDs     id.IDFactory // set nil in client
@@ -479,7 +480,8 @@ func (dm *dialogueMgr) Close() {
 	dm.mtx.RUnlock()
 
 	wg.Wait()
-	close(dm.closeCh)
+	// may be called again before the dialogue manager finished
+	dm.closeOnce.Do(func() { close(dm.closeCh) })
 	dm.log.Debugf("dialogue manager closed, clientID: %d", dm.cn.ClientID())
 	return
 }
-- 
2.43.0


From 2c9ccac861611c07d82b9daa1c348d4745d63c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:01 +0000
Subject: [PATCH 46/46] fix: setting a deadline on a stream whose timer is
 closed no longer hangs

---
 application/raw.go | 56 ++++++++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/application/raw.go b/application/raw.go
index 2799372..acae618 100644
--- a/application/raw.go
+++ b/application/raw.go
@@ -189,17 +189,9 @@ func (sm *stream) setReadDeadline(t time.Time) error {
 			if event.Error != synchub.ErrSyncTimeout {
 				return
 			}
-			// deadline exceeds
-			sm.dlMtx.Lock()
-			defer sm.dlMtx.Unlock()
-
-			if !sm.dlRead.Equal(t) {
-				// replaced in the meantime
-				return
-			}
-			// the timer may be a bit earlier than the deadline
-			sm.dlReadFired = true
-			releaseWaiters(sm.dlReadChList)
+			// deadline exceeds, note that a closed timer calls back at once, while
+			// dlMtx is held
+			go sm.exceedReadDeadline(t)
 		}))
 	return nil
 }
@@ -238,21 +230,41 @@ func (sm *stream) setWriteDeadline(t time.Time) error {
 			if event.Error != synchub.ErrSyncTimeout {
 				return
 			}
-			// deadline exceeds
-			sm.dlMtx.Lock()
-			defer sm.dlMtx.Unlock()
-
-			if !sm.dlWrite.Equal(t) {
-				// replaced in the meantime
-				return
-			}
-			// the timer may be a bit earlier than the deadline
-			sm.dlWriteFired = true
-			releaseWaiters(sm.dlWriteChList)
+			// deadline exceeds, note that a closed timer calls back at once, while
+			// dlMtx is held
+			go sm.exceedWriteDeadline(t)
 		}))
 	return nil
 }
 
+// exceedReadDeadline releases all pending Reads, unless the deadline t is replaced
+func (sm *stream) exceedReadDeadline(t time.Time) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+
+	if !sm.dlRead.Equal(t) {
+		// replaced in the meantime
+		return
+	}
+	// the timer may be a bit earlier than the deadline
+	sm.dlReadFired = true
+	releaseWaiters(sm.dlReadChList)
+}
+
+// exceedWriteDeadline releases all pending Writes, unless the deadline t is replaced
+func (sm *stream) exceedWriteDeadline(t time.Time) {
+	sm.dlMtx.Lock()
+	defer sm.dlMtx.Unlock()
+
+	if !sm.dlWrite.Equal(t) {
+		// replaced in the meantime
+		return
+	}
+	// the timer may be a bit earlier than the deadline
+	sm.dlWriteFired = true
+	releaseWaiters(sm.dlWriteChList)
+}
+
 // readWaitable enrolls a read to be released when the deadline exceeds, the return
 // is false if it's already exceeded.
 func (sm *stream) readWaitable(dlCh chan struct{}) (*list.Element, bool) {
-- 
2.43.0

