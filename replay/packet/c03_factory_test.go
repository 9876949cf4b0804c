package packet

import (
	"bytes"
	"errors"
	"testing"
)

func TestVerifC03Factory(t *testing.T) {
	ids := &fixedIDs{1000}
	pf := &packetFactory{ids}
	k, v, m := []byte("key"), []byte("value"), []byte("meta")
	hdr := func(n string, h *PacketHeader, ty Type, id uint64) {
		t.Helper()
		if h == nil || h.Typ != ty || h.PacketID != id || h.Version != V01 {
			t.Errorf("%s: header %+v, want type %x id %d", n, h, byte(ty), id)
		}
	}
	next := func() uint64 { return ids.n + 3 }
	chk := func(n string, ok bool) {
		t.Helper()
		if !ok {
			t.Errorf("%s: wrong content", n)
		}
	}
	for _, err := range []error{nil, errors.New("boom"), errors.New("")} {
		es := ""
		if err != nil {
			es = err.Error()
		}
		before := ids.n
		a := pf.NewConnAckPacket(7, 8, err)
		hdr("connack", a.PacketHeader, TypeConnAckPacket, 7)
		chk("connack", a.ClientID == 8 && a.ConnData.Error == es && (err == nil) == (a.RetCode == RetCodeOK) && len(a.ConnData.Meta) == 0)
		b := pf.NewDisConnAckPacket(7, err)
		hdr("disconnack", b.PacketHeader, TypeDisConnAckPacket, 7)
		chk("disconnack", b.ConnData.Error == es && (err == nil) == (b.RetCode == RetCodeOK))
		c := pf.NewHeartbeatAckPacket(7)
		hdr("hback", c.PacketHeader, TypeHeartbeatAckPacket, 7)
		d := pf.NewSessionAckPacket(7, 8, 9, err)
		hdr("sessionack", d.PacketHeader, TypeSessionAckPacket, 7)
		chk("sessionack", d.negotiateID == 8 && d.sessionID == 9 && d.SessionData.Error == es)
		e := pf.NewDismissAckPacket(7, 8, err)
		hdr("dismissack", e.PacketHeader, TypeDismissAckPacket, 7)
		chk("dismissack", e.sessionID == 8 && e.SessionData.Error == es)
		f := pf.NewMessageAckPacket(7, err)
		hdr("msgack", f.PacketHeader, TypeMessageAckPacket, 7)
		chk("msgack", f.Data.Error == es)
		g := pf.NewMessageAckPacketWithSessionID(8, 7, err)
		hdr("msgack2", g.PacketHeader, TypeMessageAckPacket, 7)
		chk("msgack2", g.sessionID == 8 && g.Data.Error == es)
		h := pf.NewResponsePacket(7, k, v, err)
		hdr("response", h.PacketHeader, TypeResponsePacket, 7)
		chk("response", bytes.Equal(h.Data.Key, k) && bytes.Equal(h.Data.Value, v) && h.Data.Error == es)
		i := pf.NewRegisterAckPacket(7, err)
		hdr("regack", i.PacketHeader, TypeRegisterAckPacket, 7)
		chk("regack", i.RegisterData.Error == es)
		j := pf.NewRegisterAckPacketWithSessionID(8, 7, err)
		hdr("regack2", j.PacketHeader, TypeRegisterAckPacket, 7)
		chk("regack2", j.sessionID == 8 && j.RegisterData.Error == es)
		chk("acks draw no id", ids.n == before)
	}
	id := next()
	a := pf.NewConnPacket(5, true, Heartbeat80, m)
	hdr("conn", a.PacketHeader, TypeConnPacket, id)
	chk("conn", a.ClientID == 5 && a.ClientIDAcquire() && a.Heartbeat == Heartbeat80 && bytes.Equal(a.ConnData.Meta, m) && a.ConnData.Error == "" && !a.Retain && !a.Clear)
	a = pf.NewConnPacket(5, false, Heartbeat5, nil)
	chk("conn2", !a.ClientIDAcquire() && a.Heartbeat == Heartbeat5)
	id = next()
	hdr("disconn", pf.NewDisConnPacket().PacketHeader, TypeDisConnPacket, id)
	id = next()
	hdr("hb", pf.NewHeartbeatPacket().PacketHeader, TypeHeartbeatPacket, id)
	id = next()
	s := pf.NewSessionPacket(6, true, m, "peer")
	hdr("session", s.PacketHeader, TypeSessionPacket, id)
	chk("session", s.negotiateID == 6 && s.SessionIDAcquire() && bytes.Equal(s.SessionData.Meta, m) && s.SessionData.Peer == "peer" && s.SessionData.Error == "")
	chk("session2", !pf.NewSessionPacket(6, false, nil, "").SessionIDAcquire())
	id = next()
	d := pf.NewDismissPacket(6)
	hdr("dismiss", d.PacketHeader, TypeDismissPacket, id)
	chk("dismiss", d.sessionID == 6)
	id = next()
	msg := pf.NewMessagePacket(k, v)
	hdr("msg", msg.PacketHeader, TypeMessagePacket, id)
	chk("msg", bytes.Equal(msg.Data.Key, k) && bytes.Equal(msg.Data.Value, v))
	msg = pf.NewMessagePacketWithIDAndSessionID(3, 4, k, v)
	hdr("msg2", msg.PacketHeader, TypeMessagePacket, 3)
	chk("msg2", msg.sessionID == 4 && bytes.Equal(msg.Data.Key, k) && bytes.Equal(msg.Data.Value, v))
	id = next()
	msg = pf.NewMessagePacketWithSessionID(4, k, v, nil)
	hdr("msg3", msg.PacketHeader, TypeMessagePacket, id)
	chk("msg3", msg.sessionID == 4 && bytes.Equal(msg.Data.Key, k) && bytes.Equal(msg.Data.Value, v))
	id = next()
	rq := pf.NewRequestPacket(k, v)
	hdr("req", rq.PacketHeader, TypeRequestPacket, id)
	chk("req", bytes.Equal(rq.Data.Key, k) && bytes.Equal(rq.Data.Value, v))
	rq = pf.NewRequestPacketWithIDAndSessionID(3, 4, k, v)
	hdr("req2", rq.PacketHeader, TypeRequestPacket, 3)
	chk("req2", rq.sessionID == 4 && bytes.Equal(rq.Data.Key, k) && bytes.Equal(rq.Data.Value, v))
	rc := pf.NewRequestCancelPacketWithIDAndSessionID(3, 4, RequestCancelTypeCanceled)
	hdr("cancel", rc.PacketHeader, TypeRequestCancelPacket, 3)
	chk("cancel", rc.sessionID == 4 && rc.cancelType == RequestCancelTypeCanceled)
	id = next()
	st := pf.NewStreamPacket(v)
	hdr("stream", st.PacketHeader, TypeStreamPacket, id)
	chk("stream", bytes.Equal(st.Data, v))
	id = next()
	st = pf.NewStreamPacketWithSessionID(4, v)
	hdr("stream2", st.PacketHeader, TypeStreamPacket, id)
	chk("stream2", st.sessionID == 4 && bytes.Equal(st.Data, v))
	id = next()
	rg := pf.NewRegisterPacket(k)
	hdr("reg", rg.PacketHeader, TypeRegisterPacket, id)
	chk("reg", rg.Method() == "key")
	id = next()
	rg = pf.NewRegisterPacketWithSessionID(4, k)
	hdr("reg2", rg.PacketHeader, TypeRegisterPacket, id)
	chk("reg2", rg.sessionID == 4 && rg.Method() == "key")
}

func TestVerifC03Retag(t *testing.T) {
	r := vrand()
	for i := 0; i < 20; i++ {
		for _, p := range vpackets(r) {
			sa, ok := p.(SessionAbove)
			if !ok {
				continue
			}
			if _, ok := p.(*SessionPacket); ok {
				continue
			}
			e1, err := Encode(p)
			if err != nil {
				t.Fatal(err)
			}
			old := sa.SessionID()
			sa.SetSessionID(old ^ 0x5a5a5a5a5a5a5a5a)
			if sa.SessionID() != old^0x5a5a5a5a5a5a5a5a {
				t.Fatalf("%T: session id not set", p)
			}
			if p.ID() != func() uint64 { q, _, _ := Decode(e1); return q.ID() }() {
				t.Fatalf("%T: id changed", p)
			}
			sa.SetSessionID(old)
			e2, _ := Encode(p)
			if !bytes.Equal(e1, e2) {
				t.Fatalf("%T: retagging changed more than the tag", p)
			}
		}
	}
}
