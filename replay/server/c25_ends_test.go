package server

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/go-timer/v2"
)

func init() { log.SetLevel(log.LevelFatal) }

const vto = 15 * time.Second

var bg = context.Background()

func vuntil(f func() bool) bool {
	for i := 0; i < 1000; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

// vconn records what is written to it.
type vconn struct {
	net.Conn
	mtx    sync.Mutex
	buf    bytes.Buffer
	closed int32
}

func (c *vconn) Write(b []byte) (int, error) {
	c.mtx.Lock()
	c.buf.Write(b)
	c.mtx.Unlock()
	return c.Conn.Write(b)
}
func (c *vconn) Close() error { atomic.AddInt32(&c.closed, 1); return c.Conn.Close() }
func (c *vconn) isclosed() bool {
	return vuntil(func() bool { return atomic.LoadInt32(&c.closed) > 0 })
}
func (c *vconn) sent() []packet.Packet {
	c.mtx.Lock()
	b := bytes.NewBuffer(append([]byte{}, c.buf.Bytes()...))
	c.mtx.Unlock()
	l := []packet.Packet{}
	for b.Len() > 0 {
		p, err := packet.DecodeFromReader(b)
		if err != nil {
			break
		}
		l = append(l, p)
	}
	return l
}

type vtimer struct {
	timer.Timer
	closed, used int32
}

func (v *vtimer) Close() { atomic.AddInt32(&v.closed, 1) }
func (v *vtimer) Add(d time.Duration, o ...timer.TickOption) timer.Tick {
	atomic.AddInt32(&v.used, 1)
	return v.Timer.Add(d, o...)
}

// vpf counts its packets.
type vpf struct {
	packet.PacketFactory
	n *int32
}

func (v *vpf) NewRegisterPacketWithSessionID(sid uint64, m []byte) *packet.RegisterPacket {
	atomic.AddInt32(v.n, 1)
	return v.PacketFactory.NewRegisterPacketWithSessionID(sid, m)
}

type vdlg struct {
	*delegate.UnimplementedDelegate
	mtx sync.Mutex
	ev  []string
	cid uint64
}

func (d *vdlg) add(s string) { d.mtx.Lock(); d.ev = append(d.ev, s); d.mtx.Unlock() }
func (d *vdlg) ConnOnline(c delegate.ConnDescriber) error {
	d.add(fmt.Sprintf("online %s", c.Meta()))
	return nil
}
func (d *vdlg) ConnOffline(c delegate.ConnDescriber) error { d.add("offline"); return nil }
func (d *vdlg) DialogueOnline(g delegate.DialogueDescriber) error {
	d.add(fmt.Sprintf("dialogue %s", g.Meta()))
	return nil
}
func (d *vdlg) RemoteRegistration(m string, c, s uint64) { d.add("method " + m) }
func (d *vdlg) GetClientID(w uint64, m []byte) (uint64, error) {
	if d.cid == 0 {
		return w, nil
	}
	return d.cid, nil
}
func (d *vdlg) has(s string) bool {
	return vuntil(func() bool {
		d.mtx.Lock()
		defer d.mtx.Unlock()
		for _, e := range d.ev {
			if e == s {
				return true
			}
		}
		return false
	})
}

func vpipe() (*vconn, *vconn) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer l.Close()
	b, err := net.Dial("tcp", l.Addr().String())
	if err != nil {
		panic(err)
	}
	a, err := l.Accept()
	if err != nil {
		panic(err)
	}
	return &vconn{Conn: a}, &vconn{Conn: b}
}

func vpair(t *testing.T, so []*EndOptions, co []*client.EndOptions) (s, c geminio.End, sc, cc *vconn) {
	t.Helper()
	sc, cc = vpipe()
	done := make(chan error, 1)
	go func() {
		var err error
		s, err = NewEndWithConn(sc, so...)
		done <- err
	}()
	cdone := make(chan error, 1)
	go func() {
		var err error
		c, err = client.NewEndWithDialer(func() (net.Conn, error) { return cc, nil }, co...)
		cdone <- err
	}()
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case err := <-cdone:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(vto):
			t.Fatal("no end is made")
		}
	}
	return
}

func vsays(s string) geminio.RPC {
	return func(_ context.Context, _ geminio.Request, p geminio.Response) { p.SetData([]byte(s)) }
}

func vcall(e geminio.Stream, m string) string {
	ctx, cancel := context.WithTimeout(bg, vto)
	defer cancel()
	p, err := e.Call(ctx, m, e.NewRequest(nil))
	if err != nil {
		return "!" + err.Error()
	}
	return string(p.Data())
}

// defaults: ids of opposite parity, own timers, closing closes
func TestVerifC25Plain(t *testing.T) {
	so, co := NewEndOptions(), client.NewEndOptions()
	type pair struct {
		s, c   geminio.End
		sc, cc *vconn
	}
	ps := []pair{}
	for i := 0; i < 3; i++ {
		s, c, sc, cc := vpair(t, []*EndOptions{so}, []*client.EndOptions{co})
		ps = append(ps, pair{s, c, sc, cc})
		if s.LocalAddr() != sc.LocalAddr() || s.RemoteAddr() != sc.RemoteAddr() || c.LocalAddr() != cc.LocalAddr() || c.RemoteAddr() != cc.RemoteAddr() {
			t.Error("addresses of another connection")
		}
		if s.ClientID() != c.ClientID() {
			t.Errorf("client ids %d %d", s.ClientID(), c.ClientID())
		}
	}
	if so.Timer != nil || co.Timer != nil || so.PacketFactory != nil || co.PacketFactory != nil || so.Log != nil || co.Log != nil {
		t.Error("the user's options are changed")
	}
	for i := range ps {
		p := ps[i]
		for _, e := range []geminio.End{p.s, p.c} {
			if err := e.Register(bg, "m", vsays(fmt.Sprint(i))); err != nil {
				t.Fatal(err)
			}
		}
		for _, e := range []geminio.End{p.s, p.c} {
			if got := vcall(e, "m"); got != fmt.Sprint(i) {
				t.Errorf("call answers %q", got)
			}
			s, err := e.OpenStream()
			if err != nil {
				t.Fatal(err)
			}
			s.Write([]byte("x"))
		}
		time.Sleep(20 * time.Millisecond)
		for k, l := range [][]packet.Packet{p.sc.sent(), p.cc.sent()} {
			n := 0
			for _, q := range l {
				switch q.(type) {
				case *packet.RegisterPacket, *packet.RequestPacket, *packet.SessionPacket, *packet.StreamPacket:
					n++
					if q.ID()%2 != uint64(k) {
						t.Errorf("side %d sends %T with id %d", k, q, q.ID())
					}
				}
			}
			if n < 4 {
				t.Errorf("side %d sent %d packets", k, n)
			}
		}
		p.s.Close()
		p.c.Close()
		if !p.sc.isclosed() || !p.cc.isclosed() {
			t.Error("the connection stays open")
		}
	}
}

// every option reaches its layer, the last one wins
func TestVerifC25Options(t *testing.T) {
	for _, which := range []string{"one", "last", "both"} {
		t.Run(which, func(t *testing.T) {
			sd, cd := &vdlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}, cid: 88}, &vdlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}}
			st, ct := &vtimer{Timer: timer.NewTimer()}, &vtimer{Timer: timer.NewTimer()}
			var sn, cn int32
			acc, end := make(chan geminio.Stream, 4), make(chan geminio.Stream, 4)
			so, co := NewEndOptions(), client.NewEndOptions()
			so.SetDelegate(sd)
			co.SetDelegate(cd)
			so.SetTimer(st)
			co.SetTimer(ct)
			so.SetPacketFactory(&vpf{packet.NewPacketFactory(id.NewIDCounter(id.Even)), &sn})
			co.SetPacketFactory(&vpf{packet.NewPacketFactory(id.NewIDCounter(id.Odd)), &cn})
			co.SetMeta([]byte("about me"))
			so.SetAcceptStreamFunc(func(s geminio.Stream) { acc <- s })
			so.SetClosedStreamFunc(func(s geminio.Stream) { end <- s })
			so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "s1", RPC: vsays("S1")}, &geminio.MethodRPC{Method: "s2", RPC: vsays("S2")})
			co.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "c1", RPC: vsays("C1")}, &geminio.MethodRPC{Method: "c2", RPC: vsays("C2")})
			so.SetWaitRemoteRPCs("c1", "c2")
			co.SetWaitRemoteRPCs("s2", "s1")
			so.SetRemoteRPCCheck()
			co.SetRemoteRPCCheck()
			sos, cos := []*EndOptions{so}, []*client.EndOptions{co}
			if which != "one" {
				so0, co0 := NewEndOptions(), client.NewEndOptions()
				so0.SetDelegate(&vdlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}, cid: 77})
				co0.SetDelegate(&vdlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}})
				so0.SetTimer(&vtimer{})
				co0.SetTimer(&vtimer{})
				co0.SetMeta([]byte("nothing"))
				so0.SetAcceptStreamFunc(func(s geminio.Stream) { t.Error("another function") })
				so0.SetClosedStreamFunc(func(s geminio.Stream) { t.Error("another function") })
				so0.SetWaitRemoteRPCs("never")
				co0.SetWaitRemoteRPCs("never")
				sos, cos = []*EndOptions{so0, nil, so}, []*client.EndOptions{co0, nil, co}
				if which == "both" {
					so9, co9 := NewEndOptions(), client.NewEndOptions()
					so9.SetRemoteRPCCheck()
					co9.SetRemoteRPCCheck()
					sos, cos = append(sos, so9), append(cos, co9)
				}
			}
			s, c, sc, cc := vpair(t, sos, cos)
			if s.ClientID() != 88 || c.ClientID() != 88 || string(s.Meta()) != "about me" || string(c.Meta()) != "about me" {
				t.Errorf("client %d %d %q %q", s.ClientID(), c.ClientID(), s.Meta(), c.Meta())
			}
			for _, m := range []string{"1", "2"} {
				if got := vcall(s, "c"+m); got != "C"+m {
					t.Errorf("c%s answers %q", m, got)
				}
				if got := vcall(c, "s"+m); got != "S"+m {
					t.Errorf("s%s answers %q", m, got)
				}
				if !sd.has("method c"+m) || !cd.has("method s"+m) {
					t.Error("a registration is not reported")
				}
			}
			for _, e := range []geminio.End{s, c} {
				if got := vcall(e, "other"); got != "!remote rpc unregistered" {
					t.Errorf("unregistered method: %q", got)
				}
			}
			if !sd.has("online about me") {
				t.Error("the connection is not reported")
			}
			sm, err := c.OpenStream()
			if err != nil {
				t.Fatal(err)
			}
			var as geminio.Stream
			select {
			case as = <-acc:
			case <-time.After(vto):
				t.Fatal("the stream is not announced")
			}
			sm.Close()
			select {
			case es := <-end:
				if es != as {
					t.Error("another stream is reported")
				}
			case <-time.After(vto):
				t.Fatal("the end of the stream is not reported")
			}
			if atomic.LoadInt32(&sn) != 2 || atomic.LoadInt32(&cn) != 2 || atomic.LoadInt32(&st.used) == 0 || atomic.LoadInt32(&ct.used) == 0 {
				t.Errorf("packet factories used %d %d, timers %d %d", sn, cn, st.used, ct.used)
			}
			c.Close()
			s.Close()
			if !sc.isclosed() || !cc.isclosed() {
				t.Error("the connection stays open")
			}
			if !sd.has("offline") || !cd.has("offline") {
				t.Error("the connection is not reported offline")
			}
			time.Sleep(50 * time.Millisecond)
			if atomic.LoadInt32(&st.closed) != 0 || atomic.LoadInt32(&ct.closed) != 0 {
				t.Error("the user's timer is closed")
			}
		})
	}
}

// the client id asked for reaches the server's delegate
func TestVerifC25ClientID(t *testing.T) {
	co, so := client.NewEndOptions(), NewEndOptions()
	co.SetClientID(4711)
	so.SetDelegate(&vdlg{UnimplementedDelegate: &delegate.UnimplementedDelegate{}})
	s, c, _, _ := vpair(t, []*EndOptions{so}, []*client.EndOptions{co})
	if s.ClientID() != 4711 || c.ClientID() != 4711 {
		t.Errorf("client ids %d %d", s.ClientID(), c.ClientID())
	}
	s.Close()
	c.Close()
}

// nothing is left when an end cannot be made
func TestVerifC25Fails(t *testing.T) {
	for _, own := range []bool{false, true} {
		tm := &vtimer{Timer: timer.NewTimer()}
		so, co := NewEndOptions(), client.NewEndOptions()
		if !own {
			so.SetTimer(tm)
			co.SetTimer(tm)
		}
		co.SetWaitRemoteRPCs("never")
		so.SetWaitRemoteRPCs("never")
		check := func(what string, e geminio.End, err error, c *vconn) {
			t.Helper()
			if e != nil || err == nil {
				t.Errorf("%s: %v %v", what, e, err)
			}
			if !c.isclosed() {
				t.Errorf("%s: the connection stays open", what)
			}
			if atomic.LoadInt32(&tm.closed) != 0 {
				t.Errorf("%s: the user's timer is closed", what)
			}
		}
		sc, cc := vpipe()
		cc.Conn.Close()
		e, err := NewEndWithConn(sc, so)
		check("gone client", e, err, sc)
		sc, cc = vpipe()
		sc.Conn.Close()
		e, err = client.NewEndWithConn(cc, co)
		check("gone server", e, err, cc)
		// while waiting for methods
		sc, cc = vpipe()
		type res struct {
			e   geminio.End
			err error
		}
		done, cdone := make(chan res, 1), make(chan res, 1)
		go func() { e, err := NewEndWithConn(sc, so); done <- res{e, err} }()
		go func() { e, err := client.NewEndWithConn(cc, co); cdone <- res{e, err} }()
		time.Sleep(200 * time.Millisecond)
		select {
		case <-done:
			t.Fatal("does not wait")
		case <-cdone:
			t.Fatal("does not wait")
		default:
		}
		sc.Conn.Close()
		for i := 0; i < 2; i++ {
			select {
			case r := <-done:
				check("server waiting for methods", r.e, r.err, sc)
			case r := <-cdone:
				check("client waiting for methods", r.e, r.err, cc)
			case <-time.After(vto):
				t.Fatal("waits for ever")
			}
		}
		// a dialer's error
		errD := errors.New("no way")
		e, err = client.NewEndWithDialer(func() (net.Conn, error) { return nil, errD }, co)
		if e != nil || err != errD {
			t.Errorf("failed dialer: %v %v", e, err)
		}
		if e, err := client.NewEnd("tcp", "127.0.0.1:1", co); e != nil || err == nil {
			t.Errorf("failed dial: %v %v", e, err)
		}
	}
}

// each connection gets one end, each outcome one caller
func TestVerifC25Listener(t *testing.T) {
	so := NewEndOptions()
	so.SetRegisterLocalRPCs(&geminio.MethodRPC{Method: "m", RPC: vsays("M")})
	ln, err := Listen("tcp", "127.0.0.1:0", so)
	if err != nil {
		t.Fatal(err)
	}
	const n = 12
	var mtx sync.Mutex
	metas := map[string]int{}
	failed := 0
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var e geminio.End
			var err error
			if i%2 == 0 {
				e, err = ln.AcceptEnd()
			} else {
				c, err1 := ln.Accept()
				if err = err1; err == nil {
					e = c.(geminio.End)
				}
			}
			mtx.Lock()
			defer mtx.Unlock()
			if err != nil {
				failed++
				return
			}
			metas[string(e.Meta())]++
		}(i)
	}
	for i := 0; i < n; i++ {
		if i%4 == 3 {
			c, err := net.Dial("tcp", ln.Addr().String())
			if err != nil {
				t.Fatal(err)
			}
			c.Write(make([]byte, 14))
			c.Close()
			continue
		}
		co := client.NewEndOptions()
		co.SetMeta([]byte(fmt.Sprint("client", i)))
		co.SetWaitRemoteRPCs("m")
		c, err := client.NewEnd("tcp", ln.Addr().String(), co)
		if err != nil {
			t.Fatal(err)
		}
		if got := vcall(c, "m"); got != "M" {
			t.Errorf("m answers %q", got)
		}
		defer c.Close()
	}
	done := make(chan int)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(vto):
		t.Fatal("a caller waits for ever")
	}
	if failed != 3 || len(metas) != 9 {
		t.Errorf("%d failed, clients %v", failed, metas)
	}
	ln.Close()
	if e, err := ln.AcceptEnd(); e != nil || err == nil {
		t.Errorf("closed listener: %v %v", e, err)
	}
}

// streams opened and ended while the end is being made
func TestVerifC25Early(t *testing.T) {
	sc, cc := vpipe()
	var made, early int32
	acc, end := make(chan geminio.Stream, 64), make(chan geminio.Stream, 64)
	done := make(chan error, 1)
	go func() {
		o := NewEndOptions()
		o.SetWaitRemoteRPCs("foo")
		o.SetAcceptStreamFunc(func(s geminio.Stream) { acc <- s })
		o.SetClosedStreamFunc(func(s geminio.Stream) { end <- s })
		e, err := NewEndWithConn(sc, o)
		if err == nil && e != nil {
			atomic.StoreInt32(&made, 1)
		}
		done <- err
	}()
	c, err := client.NewEndWithConn(cc)
	if err != nil {
		t.Fatal(err)
	}
	ids := map[uint64]bool{}
	for i := 0; i < 6; i++ {
		s, err := c.OpenStream()
		if err != nil {
			t.Fatal(err)
		}
		ids[s.StreamID()] = true
		if i%2 == 0 {
			s.Close()
		}
	}
	time.Sleep(100 * time.Millisecond)
	early = int32(len(acc) + len(end))
	if early != 0 {
		t.Errorf("%d announced before the end is made", early)
	}
	if err = c.Register(bg, "foo", vsays("x")); err != nil {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		s, err := c.OpenStream()
		if err != nil {
			t.Fatal(err)
		}
		ids[s.StreamID()] = true
	}
	for i := 0; i < 9; i++ {
		select {
		case s := <-acc:
			if !ids[s.StreamID()] {
				t.Errorf("stream %d is announced", s.StreamID())
			}
			delete(ids, s.StreamID())
		case <-time.After(vto):
			t.Fatalf("streams %v are not announced", ids)
		}
	}
	for i := 0; i < 3; i++ {
		select {
		case <-end:
		case <-time.After(vto):
			t.Fatal("the end of a stream is not announced")
		}
	}
	time.Sleep(50 * time.Millisecond)
	if len(acc)+len(end) != 0 {
		t.Error("announced twice")
	}
	c.Close()
}
