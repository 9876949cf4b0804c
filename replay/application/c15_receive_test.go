package application

import (
	"context"
	"errors"
	"fmt"
	"io"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/packet"
)

func (r *vrig) message(data, topic, custom string) *packet.MessagePacket {
	k := r.pf.NewMessagePacketWithIDAndSessionID(r.pf.NewPacketID(), 9, nil, []byte(data))
	k.Data.Topic, k.Data.Custom = topic, []byte(custom)
	r.dg.send(r.t, k)
	return k
}

func TestVerifC15(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	const n = 300
	ids := []uint64{}
	go func() {
		for i := 0; i < 10; i++ {
			time.Sleep(time.Millisecond)
			r.dg.in <- r.pf.NewMessageAckPacketWithSessionID(9, uint64(900000+i), nil)
		}
	}()
	for i := 0; i < n; i++ {
		v := ""
		if i%7 != 0 {
			v = fmt.Sprint(i)
		}
		ids = append(ids, r.message("data"+v, "topic"+v, "custom"+v).ID())
	}
	msgs := []geminio.Message{}
	same := func(i int, m geminio.Message) {
		t.Helper()
		v := ""
		if i%7 != 0 {
			v = fmt.Sprint(i)
		}
		if string(m.Data()) != "data"+v || m.Topic() != "topic"+v || string(m.Custom()) != "custom"+v || m.ID() != ids[i] || m.ClientID() != vcid || m.StreamID() != 9 {
			t.Fatalf("message %d is %q %q %q %d %d %d", i, m.Data(), m.Topic(), m.Custom(), m.ID(), m.ClientID(), m.StreamID())
		}
	}
	for i := 0; i < n; i++ {
		var m geminio.Message
		var err error
		vwithin(t, "receiving", func() { m, err = r.sm.Receive(bg) })
		if err != nil {
			t.Fatal(err)
		}
		same(i, m)
		msgs = append(msgs, m)
	}
	// they stay what they are
	for i, m := range msgs {
		same(i, m)
	}
	for i := n - 1; i >= 0; i-- {
		want := ""
		var err error
		switch i % 3 {
		case 0:
			err = msgs[i].Done()
		case 1:
			want = fmt.Sprint("failed ", i)
			err = msgs[i].Error(errors.New(want))
		case 2:
			err = msgs[i].Error(nil)
		}
		if err != nil {
			t.Fatal(err)
		}
		k := vnext[*packet.MessageAckPacket](t, r.dg)
		if k.ID() != ids[i] || k.Data.Error != want {
			t.Errorf("acknowledgement %d %q for message %d, want %d %q", k.ID(), k.Data.Error, i, ids[i], want)
		}
	}
	r.dg.none(t, "after the acknowledgements")
	// a receive that gives up takes no message
	ctx, cancel := context.WithCancel(bg)
	cancel()
	if m, err := r.sm.Receive(ctx); err != context.Canceled || m != nil {
		t.Errorf("cancelled receive: %v %v", m, err)
	}
	r.message("last", "", "")
	if !vuntil(func() bool { return len(r.sm.messageCh) == 1 }) {
		t.Fatal("message is not handed up")
	}
	r.dg.end()
	r.finished()
	m, err := r.sm.Receive(bg)
	if err != nil || string(m.Data()) != "last" {
		t.Fatalf("%v %v", m, err)
	}
	vwithin(t, "receiving from a finished stream", func() {
		for i := 0; i < 3; i++ {
			if m, err := r.sm.Receive(bg); err != io.EOF || m != nil {
				t.Errorf("receive on a finished stream: %v %v", m, err)
			}
		}
	})
	w := r.dg.nwrites()
	for _, m := range []geminio.Message{m, msgs[0]} {
		vwithin(t, "acknowledging on a finished stream", func() {
			if err := m.Done(); err != io.EOF {
				t.Errorf("done on a finished stream: %v", err)
			}
			if err := m.Error(errV); err != io.EOF {
				t.Errorf("failing on a finished stream: %v", err)
			}
		})
	}
	r.dg.none(t, "finished")
	if r.dg.nwrites() != w {
		t.Error("a finished stream writes")
	}
}

// messages wait for a slow receiver, none is lost
func TestVerifC15Slow(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	for i := 0; i < 200; i++ {
		r.message(fmt.Sprint(i), "", "")
	}
	time.Sleep(50 * time.Millisecond)
	for i := 0; i < 200; i++ {
		vwithin(t, "receiving", func() {
			if m, err := r.sm.Receive(bg); err != nil || string(m.Data()) != fmt.Sprint(i) {
				t.Fatalf("message %d: %v %v", i, m, err)
			}
		})
	}
}
