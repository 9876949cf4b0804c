package conn

import (
	"bytes"
	"errors"
	"net"
	"testing"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func init() { log.SetLevel(log.LevelFatal) }

// vsock makes two ends of a loopback connection.
func vsock(t *testing.T) (net.Conn, net.Conn) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer ln.Close()
	ch := make(chan net.Conn, 1)
	go func() { c, _ := ln.Accept(); ch <- c }()
	a, err := net.Dial("tcp", ln.Addr().String())
	if err != nil {
		t.Skip(err)
	}
	return a, <-ch
}

// vpeer speaks the wire protocol by hand.
type vpeer struct {
	t  *testing.T
	c  net.Conn
	pf packet.PacketFactory
	in chan packet.Packet
}

func newVpeer(t *testing.T, c net.Conn) *vpeer {
	p := &vpeer{t, c, packet.NewPacketFactory(id.NewIDCounter(id.Odd)), make(chan packet.Packet, 4096)}
	go func() {
		defer close(p.in)
		for {
			k, err := packet.DecodeFromReader(c)
			if err != nil {
				return
			}
			p.in <- k
		}
	}()
	return p
}

func (p *vpeer) send(k packet.Packet) {
	if err := packet.EncodeToWriter(k, p.c); err != nil {
		p.t.Logf("send: %v", err)
	}
}

// next returns the next packet, nil at the end or after d.
func (p *vpeer) next(d time.Duration) packet.Packet {
	select {
	case k := <-p.in:
		return k
	case <-time.After(d):
		return nil
	}
}

// rest collects packets until the end or until d passed.
func (p *vpeer) rest(d time.Duration) (out []packet.Packet) {
	to := time.After(d)
	for {
		select {
		case k, ok := <-p.in:
			if !ok {
				return
			}
			out = append(out, k)
		case <-to:
			return
		}
	}
}

type vdlgt struct {
	id     uint64
	iderr  error
	onerr  error
	asked  int
	wanted uint64
	meta   []byte
	online int
}

func (d *vdlgt) ConnOnline(c delegate.ConnDescriber) error  { d.online++; return d.onerr }
func (d *vdlgt) ConnOffline(c delegate.ConnDescriber) error { return nil }
func (d *vdlgt) Heartbeat(c delegate.ConnDescriber) error   { return nil }
func (d *vdlgt) GetClientID(w uint64, meta []byte) (uint64, error) {
	d.asked++
	d.wanted, d.meta = w, append([]byte(nil), meta...)
	return d.id, d.iderr
}

type vres struct {
	sc  *ServerConn
	cc  *ClientConn
	err error
}

func vserver(c net.Conn, opts ...ServerConnOption) chan vres {
	ch := make(chan vres, 1)
	go func() { s, err := NewServerConn(c, opts...); ch <- vres{sc: s, err: err} }()
	return ch
}

func vclient(c net.Conn, opts ...ClientConnOption) chan vres {
	ch := make(chan vres, 1)
	go func() { s, err := NewClientConn(c, opts...); ch <- vres{cc: s, err: err} }()
	return ch
}

func vwait(t *testing.T, ch chan vres) vres {
	select {
	case r := <-ch:
		return r
	case <-time.After(15 * time.Second):
		t.Fatal("the handshake neither completed nor failed")
		return vres{}
	}
}

// vpair connects a client and a server.
func vpair(t *testing.T, copts []ClientConnOption, sopts []ServerConnOption) (*ClientConn, *ServerConn) {
	a, b := vsock(t)
	s, c := vserver(b, sopts...), vclient(a, copts...)
	rc, rs := vwait(t, c), vwait(t, s)
	if rc.err != nil || rs.err != nil {
		t.Fatal("handshake failed: ", rc.err, rs.err)
	}
	time.Sleep(20 * time.Millisecond)
	return rc.cc, rs.sc
}

// vreadAll reads until end-of-file.
func vreadAll(t *testing.T, c Conn, d time.Duration) (out []packet.Packet, eof bool) {
	type r struct {
		p packet.Packet
		e error
	}
	ch := make(chan r)
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			p, e := c.Read()
			select {
			case ch <- r{p, e}:
			case <-stop:
				return
			}
			if e != nil {
				return
			}
		}
	}()
	to := time.After(d)
	for {
		select {
		case x := <-ch:
			if x.e != nil {
				return out, true
			}
			out = append(out, x.p)
		case <-to:
			return out, false
		}
	}
}

// vdata is one packet of every kind of the layers above.
func vdata(pf packet.PacketFactory, i int) []packet.Packet {
	b := bytes.Repeat([]byte{byte(i)}, i%700)
	return []packet.Packet{
		pf.NewSessionPacket(uint64(i), false, b, "peer"),
		pf.NewSessionAckPacket(uint64(i), uint64(i), uint64(i+1), nil),
		pf.NewDismissPacket(uint64(i)),
		pf.NewDismissAckPacket(uint64(i), uint64(i), errors.New("x")),
		pf.NewMessagePacket(b, b),
		pf.NewMessageAckPacket(uint64(i), nil),
		pf.NewRequestPacket([]byte("m"), b),
		pf.NewResponsePacket(uint64(i), []byte("m"), b, nil),
		pf.NewRequestCancelPacketWithIDAndSessionID(uint64(i), 3, 1),
		pf.NewStreamPacket(b),
		pf.NewRegisterPacket([]byte("m")),
		pf.NewRegisterAckPacket(uint64(i), nil),
	}
}

// vestablish brings up one side against a hand-made peer.
func vestablish(t *testing.T, server bool, sopts ...ServerConnOption) (*vpeer, Conn) {
	a, b := vsock(t)
	p := newVpeer(t, a)
	if server {
		ch := vserver(b, sopts...)
		p.send(p.pf.NewConnPacket(1, true, packet.Heartbeat20, nil))
		r := vwait(t, ch)
		if r.err != nil {
			t.Fatal(r.err)
		}
		if _, ok := p.next(5 * time.Second).(*packet.ConnAckPacket); !ok {
			t.Fatal("no acknowledgement")
		}
		return p, r.sc
	}
	ch := vclient(b)
	k, ok := p.next(5 * time.Second).(*packet.ConnPacket)
	if !ok {
		t.Fatal("no connect packet")
	}
	p.send(p.pf.NewConnAckPacket(k.PacketID, 5, nil))
	r := vwait(t, ch)
	if r.err != nil {
		t.Fatal(r.err)
	}
	return p, r.cc
}

func vsplit(ks []packet.Packet) (dis []*packet.DisConnPacket, ack []*packet.DisConnAckPacket, data int) {
	for _, k := range ks {
		switch x := k.(type) {
		case *packet.DisConnPacket:
			dis = append(dis, x)
		case *packet.DisConnAckPacket:
			ack = append(ack, x)
		case *packet.HeartbeatPacket, *packet.HeartbeatAckPacket:
		default:
			data++
		}
	}
	return
}
