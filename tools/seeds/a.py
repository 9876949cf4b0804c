RC="/verif/replay/"
SEEDS=[
dict(id="c01-register-partial-read",prop="C01",pkg="packet",
 edits=[("packet/packet_data.go","""	length := int(pkt.PacketLen)
	data := make([]byte, length)
	_, err := io.ReadFull(reader, data)
	if err != nil {
		return err
	}
	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
	// method""","""	length := int(pkt.PacketLen)
	data := make([]byte, length)
	_, err := reader.Read(data)
	if err != nil {
		return err
	}
	pkt.sessionID = binary.BigEndian.Uint64(data[:8])
	// method""")],
 needs="a register packet whose bytes arrive in more than one piece",
 breaks="a register packet split over two reads is cut short, and its rest is read as the next packets",
 test='''package packet

import (
	"bytes"
	"testing"
	"testing/iotest"

	"github.com/singchia/geminio/pkg/id"
)

func TestDemo(t *testing.T) {
	pf := NewPacketFactory(id.NewIDCounter(id.Odd))
	b := &bytes.Buffer{}
	if err := EncodeToWriter(pf.NewRegisterPacket([]byte("a-method-name")), b); err != nil {
		t.Fatal(err)
	}
	if err := EncodeToWriter(pf.NewStreamPacketWithSessionID(9, []byte("next")), b); err != nil {
		t.Fatal(err)
	}
	r := iotest.OneByteReader(b)
	p, err := DecodeFromReader(r)
	if err != nil {
		t.Fatal(err)
	}
	if g, ok := p.(*RegisterPacket); !ok || string(g.Method()) != "a-method-name" {
		t.Fatalf("came back as %T %q", p, p.(*RegisterPacket).Method())
	}
	p, err = DecodeFromReader(r)
	if err != nil {
		t.Fatal(err)
	}
	if s, ok := p.(*StreamPacket); !ok || string(s.Data) != "next" {
		t.Fatalf("next came back as %T", p)
	}
}
'''),
dict(id="c02-short-header",prop="C02",pkg="packet",
 edits=[("packet/packet.go","""	if len(data) < 14 {
		return 0, ErrIncompletePacket""","""	if len(data) <= 10 {
		return 0, ErrIncompletePacket""")],
 needs="a buffer that ends inside the last three bytes of the length field",
 breaks="decoding a buffer of 11 to 13 bytes indexes outside it and panics, or reads a length that is not there",
 test='''package packet

import "testing"

func TestDemo(t *testing.T) {
	for n := 0; n < 14; n++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("decoding %d bytes: %v", n, r)
				}
			}()
			p, _, err := Decode(append(make([]byte, 0, n), []byte{1, 2, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}[:n]...))
			if err == nil || p != nil {
				t.Errorf("%d bytes decoded to %v", n, p)
			}
		}()
	}
}
'''),
dict(id="c03-response-error-dropped",prop="C03",pkg="packet",
 edits=[("packet/factory.go","""	if err != nil {
		msgAckPkt.Data.Error = err.Error()
	}
	return &ResponsePacket{msgAckPkt}""","""	if err != nil && len(data) == 0 {
		msgAckPkt.Data.Error = err.Error()
	}
	return &ResponsePacket{msgAckPkt}""")],
 needs="a response that carries both data and an error",
 breaks="a response built with data and an error loses the error and reports success",
 test='''package packet

import (
	"errors"
	"testing"

	"github.com/singchia/geminio/pkg/id"
)

func TestDemo(t *testing.T) {
	pf := NewPacketFactory(id.NewIDCounter(id.Odd))
	for _, d := range [][]byte{nil, {}, []byte("partial")} {
		p := pf.NewResponsePacket(5, []byte("m"), d, errors.New("failed"))
		if p.Data.Error != "failed" || p.PacketID != 5 || string(p.Data.Value) != string(d) {
			t.Errorf("data %q: error %q", d, p.Data.Error)
		}
	}
}
'''),
dict(id="c04-unique-read-lock",prop="C04",pkg="pkg/id",
 edits=[("pkg/id/id.go","""		idCounter.mtx.Lock()
		for i := uint64(1); i < math.MaxUint64; i++ {
			_, ok := idCounter.ids[i]
			if !ok {
				idCounter.ids[i] = struct{}{}
				idCounter.mtx.Unlock()
				return i
			}
		}
		idCounter.mtx.Unlock()""","""		for i := uint64(1); i < math.MaxUint64; i++ {
			idCounter.mtx.RLock()
			_, ok := idCounter.ids[i]
			idCounter.mtx.RUnlock()
			if !ok {
				idCounter.mtx.Lock()
				idCounter.ids[i] = struct{}{}
				idCounter.mtx.Unlock()
				return i
			}
		}""")],
 needs="two goroutines drawing from one recycling allocator so that both find the same id free before either takes it",
 breaks="the test whether an id is free and the taking of it are no longer one step, so the same id is handed out twice",
 test='''package id

import (
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		c := NewIDCounter(Unique)
		var wg sync.WaitGroup
		var mtx sync.Mutex
		seen := map[uint64]int{}
		for g := 0; g < 16; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var l []uint64
				for i := 0; i < 30; i++ {
					l = append(l, c.GetID())
				}
				mtx.Lock()
				for _, x := range l {
					seen[x]++
				}
				mtx.Unlock()
			}()
		}
		wg.Wait()
		for x, n := range seen {
			if n > 1 {
				t.Fatalf("id %d was handed out %d times", x, n)
			}
		}
	}
}
'''),
dict(id="c05-refused-id-replaced",prop="C05",pkg="conn",common=[RC+"conn/common_conn_test.go"],
 edits=[("conn/conn_server.go","		if sc.clientID == 0 && err == nil {\n","		if sc.clientID == 0 {\n")],
 needs="a delegate that refuses to give an id by returning 0 and an error",
 breaks="the delegate's refusal is overwritten by the generated id, the client is accepted and reported online",
 test='''package conn

import (
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b := vsock(t)
	d := &vdlgt{iderr: errors.New("banned")}
	s, c := vserver(b, OptionServerConnDelegate(d)), vclient(a)
	if r := vwait(t, c); r.err == nil || r.err.Error() != "banned" {
		t.Errorf("a refused client connected: %v", r.err)
	}
	if d.online != 0 {
		t.Errorf("a refused client was reported online")
	}
	a.Close()
	<-s
}
'''),
dict(id="c06-data-before-ack",prop="C06",pkg="conn",common=[RC+"conn/common_conn_test.go"],
 edits=[("conn/conn_server.go","""	ok := sc.fsm.InStates(CONNED)
	if !ok {
		sc.log.Debugf("data at non CONNED""","""	ok := sc.fsm.InStates(CONN_RECV, CONNED)
	if !ok {
		sc.log.Debugf("data at non CONNED""")],
 needs="a peer that sends data right behind its connect packet, and a refused connection",
 breaks="packets of a client whose connection was refused are handed up",
 test='''package conn

import (
	"errors"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		a, b := vsock(t)
		p := newVpeer(t, a)
		sc := make(chan *ServerConn, 1)
		s := vserver(b, OptionServerConnDelegate(&vdlgt{onerr: errors.New("no")}), func(c *ServerConn) { sc <- c })
		c := <-sc
		p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
		for j := 0; j < 20; j++ {
			p.send(p.pf.NewMessagePacketWithSessionID(1, []byte("k"), []byte("v"), nil))
		}
		time.Sleep(20 * time.Millisecond)
		a.Close()
		for {
			k, err := c.Read()
			if err != nil {
				break
			}
			t.Fatalf("%T of a refused client was handed up", k)
		}
		<-s
	}
}
'''),
dict(id="c07-crossing-close-unacked",prop="C07",pkg="conn",common=[RC+"conn/common_conn_test.go"],
 edits=[("conn/conn_server.go","""	sc.fsm.AddEvent(ET_CLOSERECV, closehalf, closehalf)
""","""	sc.fsm.AddEvent(ET_CLOSERECV, closehalf, closed)
""")],
 needs="the server closes first, and the peer's own close request arrives after the peer's acknowledgement",
 breaks="the peer's close request moves the server straight to the end, and the acknowledgement it owes is illegal there and never sent",
 test='''package conn

import (
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func TestDemo(t *testing.T) {
	a, b := vsock(t)
	p := newVpeer(t, a)
	ch := vserver(b)
	p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
		t.Fatal("no acknowledgement")
	}
	r.sc.Close()
	k, ok := p.next(5 * time.Second).(*packet.DisConnPacket)
	if !ok {
		t.Fatal("no close request")
	}
	p.send(p.pf.NewDisConnAckPacket(k.PacketID, nil))
	time.Sleep(50 * time.Millisecond)
	q := p.pf.NewDisConnPacket()
	p.send(q)
	g, ok := p.next(5 * time.Second).(*packet.DisConnAckPacket)
	if !ok || g.PacketID != q.PacketID {
		t.Fatalf("the peer's close request was not acknowledged: %v", g)
	}
}
'''),
dict(id="c08-tag-kept",prop="C08",pkg="multiplexer",common=[RC+"multiplexer/common_mux_test.go"],
 edits=[("multiplexer/dialogue.go","""	pkt.(packet.SessionAbove).SetSessionID(dg.dialogueID)
	select {""","""	if above := pkt.(packet.SessionAbove); above.SessionID() == packet.SessionIDNull {
		above.SetSessionID(dg.dialogueID)
	}
	select {""")],
 needs="a packet that was created on one stream (and so carries its id) and is written on another",
 breaks="the packet keeps the tag of the stream that created it and arrives on the wrong stream",
 test='''package multiplexer

import (
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	ini, rec, _, _ := vlink(t)
	a, err := ini.OpenDialogue(nil, "")
	if err != nil {
		t.Fatal(err)
	}
	ra := vaccept(t, rec)
	b, err := ini.OpenDialogue(nil, "")
	if err != nil {
		t.Fatal(err)
	}
	rb := vaccept(t, rec)
	m := (&vpeer{pf: ini.pf}).msg(a.DialogueID(), "x")
	if err := b.Write(m); err != nil {
		t.Fatal(err)
	}
	if k, err := vread(rb, 2*time.Second); err != nil || vtext(k) != "x" {
		t.Errorf("the packet written on one stream did not arrive there: %v %v", k, err)
	}
	if _, err := vread(ra, 50*time.Millisecond); err != errNone {
		t.Errorf("the packet arrived on another stream")
	}
}
'''),
dict(id="c09-empty-meta",prop="C09",pkg="multiplexer",common=[RC+"multiplexer/common_mux_test.go"],
 edits=[("multiplexer/dialogue.go","""	return func(dg *dialogue) {
		dg.meta = meta
	}""","""	return func(dg *dialogue) {
		if len(meta) > 0 {
			dg.meta = meta
		}
	}""")],
 needs="a stream opened without metadata on a connection that has some",
 breaks="the stream reports the connection's metadata instead of the (empty) metadata it was opened with",
 test='''package multiplexer

import "testing"

func TestDemo(t *testing.T) {
	ini, rec, _, _ := vlink(t)
	for _, meta := range []string{"abc", ""} {
		a, err := ini.OpenDialogue([]byte(meta), "")
		if err != nil {
			t.Fatal(err)
		}
		b := vaccept(t, rec)
		if string(a.Meta()) != meta || string(b.Meta()) != meta {
			t.Errorf("opened with %q, opener reports %q, acceptor %q", meta, a.Meta(), b.Meta())
		}
	}
}
'''),
dict(id="c10-half-closed-data",prop="C10",pkg="multiplexer",common=[RC+"multiplexer/common_mux_test.go"],
 edits=[("multiplexer/dialogue.go","dg.fsm.InStates(SESSIONED, DISMISS_HALF, DISMISS_SENT, DISMISS_RECV)","dg.fsm.InStates(SESSIONED, DISMISS_SENT, DISMISS_RECV)")],
 needs="data that arrives after this side's close was acknowledged and before the other side closes",
 breaks="a half closed stream drops the data the peer still sends",
 test='''package multiplexer

import (
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

func TestDemo(t *testing.T) {
	p := newVpeer(t, geminio.RecipientSide)
	m := vmgr(t, p.c, nil)
	id, _ := p.open(7, true, "", "")
	d := vaccept(t, m)
	d.Close()
	k, ok := p.next(5 * time.Second).(*packet.DismissPacket)
	if !ok {
		t.Fatal("no close request")
	}
	p.send(p.msg(id, "a"))
	p.send(p.pf.NewDismissAckPacket(k.PacketID, id, nil))
	p.send(p.msg(id, "b"))
	for _, w := range []string{"a", "b"} {
		if k, err := vread(d, 2*time.Second); err != nil || vtext(k) != w {
			t.Fatalf("read %v %v, want %q", k, err, w)
		}
	}
}
'''),
dict(id="c20-topic-first-wins",prop="C20",pkg="options",
 edits=[("options/publish_options.go","""		if opt.Topic != nil {
			no.Topic = opt.Topic
		}
	}
	return no
}""","""		if opt.Topic != nil && no.Topic == nil {
			no.Topic = opt.Topic
		}
	}
	return no
}""")],
 needs="two option values that both set the topic of a new message",
 breaks="the first topic wins instead of the last",
 test='''package options

import "testing"

func TestDemo(t *testing.T) {
	a, b := NewMessage(), NewMessage()
	x, y := "x", "y"
	a.Topic, b.Topic = &x, &y
	if m := MergeNewMessageOptions(a, nil, b); m.Topic == nil || *m.Topic != "y" {
		t.Errorf("the last topic set does not win")
	}
}
'''),
dict(id="c24-panic-runs-again",prop="C24",pkg="pkg/sync",
 edits=[("pkg/sync/once.go","""		defer atomic.StoreUint32(&o.done, 1)
		f()""","""		f()
		atomic.StoreUint32(&o.done, 1)""")],
 needs="an action that panics and a caller that recovers",
 breaks="after an action that panicked a later use runs an action again",
 test='''package sync

import "testing"

func TestDemo(t *testing.T) {
	o := new(Once)
	n := 0
	func() {
		defer func() { recover() }()
		o.Do(func() { n++; panic("x") })
	}()
	o.Do(func() { n++ })
	if n != 1 {
		t.Errorf("%d actions ran", n)
	}
}
'''),
]
