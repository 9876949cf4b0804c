RC="/verif/replay/"
APP=[RC+"application/common_app_test.go"]
HEAD='''package application

import (
	"context"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
)

var (
	_ context.Context
	_ geminio.Request
	_ = time.Second
	_ = options.NewMessage
	_ packet.Packet
)
'''
def app(test): return HEAD+test
SEEDS=[
dict(id="c11-hijack-unmatched",prop="C11",pkg="application",common=APP,
 edits=[("application/stream.go","if (sm.hijackRPC.match && matched) || (!sm.hijackRPC.match && !matched) {","if sm.hijackRPC.match || !matched {")],
 needs="a hijack with a pattern to match and a request for a registered method that does not match it",
 breaks="a hijack handler installed for a pattern takes requests for all methods",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	o := options.Hijack()
	o.SetMatch(true, "^foo")
	if err := r.sm.Hijack(func(_ context.Context, m string, q geminio.Request, p geminio.Response) { p.SetData([]byte("hijack")) }, o); err != nil {
		t.Fatal(err)
	}
	go r.sm.Register(bg, "bar", vsays("bar"))
	reg := vnext[*packet.RegisterPacket](t, r.dg)
	r.dg.send(t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
	for m, w := range map[string]string{"foobar": "hijack", "bar": "bar"} {
		r.dg.send(t, r.pf.NewRequestPacket([]byte(m), nil))
		if k := vnext[*packet.ResponsePacket](t, r.dg); string(k.Data.Value) != w {
			t.Errorf("%s was served by %q", m, k.Data.Value)
		}
	}
}
''')),
dict(id="c11-serve-inline",prop="C11",pkg="application",common=APP,
 edits=[("application/stream.go","""		// do RPC and cancel the context
		sm.doRPC(pkt, wrapperRPC, method, ctx, req, rsp, true)""","""		// do RPC and cancel the context
		sm.doRPC(pkt, wrapperRPC, method, ctx, req, rsp, false)""")],
 needs="a handler that calls back over the stream its request came from",
 breaks="handlers run on the goroutine that reads the stream, so a handler waiting for the peer is never answered and never answers",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	go r.sm.Register(bg, "m", func(_ context.Context, q geminio.Request, p geminio.Response) {
		a, err := r.sm.Call(bg, "back", r.sm.NewRequest(nil))
		if err != nil {
			p.SetError(err)
			return
		}
		p.SetData(a.Data())
	})
	reg := vnext[*packet.RegisterPacket](t, r.dg)
	r.dg.send(t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
	q := r.pf.NewRequestPacket([]byte("m"), nil)
	r.dg.send(t, q)
	back := vnext[*packet.RequestPacket](t, r.dg)
	r.dg.send(t, r.pf.NewResponsePacket(back.ID(), nil, []byte("x"), nil))
	if k := vnext[*packet.ResponsePacket](t, r.dg); k.ID() != q.ID() || string(k.Data.Value) != "x" {
		t.Errorf("answered %v", k)
	}
}
''')),
dict(id="c12-async-custom",prop="C12",pkg="application",common=APP,
 edits=[("application/rpc.go","""	pkt.Data.Custom = req.Custom()

	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = deadline
	}
	if ch == nil {""","""	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = deadline
	}
	if ch == nil {""")],
 needs="an asynchronous call of a request with custom data",
 breaks="asynchronous calls lose the request's custom data",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	q := r.sm.NewRequest([]byte("d"))
	q.SetCustom([]byte("c"))
	if _, err := r.sm.CallAsync(bg, "m", q, nil); err != nil {
		t.Fatal(err)
	}
	if k := vnext[*packet.RequestPacket](t, r.dg); string(k.Data.Custom) != "c" || string(k.Data.Value) != "d" {
		t.Errorf("sent %q %q", k.Data.Custom, k.Data.Value)
	}
}
''')),
dict(id="c12-foreign-stream",prop="C12",pkg="application",common=APP,
 edits=[("application/rpc.go","""func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
	if req.ClientID() != sm.cn.ClientID() {
		return nil, ErrMismatchClientID
	}
	if req.StreamID() != sm.dg.DialogueID() {""","""func (sm *stream) CallAsync(ctx context.Context, method string, req geminio.Request, ch chan *geminio.Call, opts ...*options.CallOptions) (*geminio.Call, error) {
	if req.ClientID() != sm.cn.ClientID() {
		return nil, ErrMismatchClientID
	}
	if req.StreamID() != sm.dg.NegotiatingID() {""")],
 needs="a stream whose id differs from the id it was proposed under, and a request made for it",
 breaks="asynchronous calls compare the request's stream with the proposed id: good requests are refused and those made for another stream are sent",
 test=app('''
type odd struct{ *vdg }

func (o odd) NegotiatingID() uint64 { return 77 }

func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	d := newVdg(vcid, 12)
	s := newStream(r.end, r.end.cn, odd{d}, r.end.opts)
	if _, err := s.CallAsync(bg, "m", s.NewRequest(nil), nil); err != nil {
		t.Errorf("a request of this stream is refused: %v", err)
	}
	vnext[*packet.RequestPacket](t, d)
	d7 := newVdg(vcid, 77)
	s7 := newStream(r.end, r.end.cn, d7, r.end.opts)
	if _, err := s.CallAsync(bg, "m", s7.NewRequest(nil), nil); err == nil {
		t.Errorf("a request of another stream is taken")
	}
	d.none(t, "a foreign request")
}
''')),
dict(id="c13-later-deadline",prop="C13",pkg="application",common=APP,
 edits=[("application/stream.go","pkt.Data.Context.Deadline.Before(deadline)) {","deadline.Before(pkt.Data.Context.Deadline)) {")],
 needs="a request with both a timeout and a context deadline",
 breaks="the handler runs until the later of the two deadlines",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	got := make(chan time.Time, 1)
	r.sm.Hijack(func(c context.Context, m string, q geminio.Request, p geminio.Response) {
		d, _ := c.Deadline()
		got <- d
	})
	near, far := time.Now().Add(time.Hour), time.Now().Add(2*time.Hour)
	for i := 0; i < 2; i++ {
		q := r.pf.NewRequestPacket([]byte("m"), nil)
		q.Data.Deadline, q.Data.Context.Deadline = near, far
		if i == 1 {
			q.Data.Deadline, q.Data.Context.Deadline = far, near
		}
		r.dg.send(t, q)
		select {
		case d := <-got:
			if !d.Equal(near) {
				t.Errorf("runs until %v", d)
			}
		case <-time.After(vto):
			t.Fatal("not served")
		}
	}
}
''')),
dict(id="c13-deadline-cancels",prop="C13",pkg="application",common=APP,
 edits=[("application/rpc.go","""		if ctx.Err() == context.DeadlineExceeded {
			// we don't deliver deadline exceeded since the pkt already has it
			return nil, ctx.Err()
		}
		// notify peer if context Canceled
""","""		// notify peer that nobody waits any longer
""")],
 needs="a call whose context deadline passes before the answer",
 breaks="a deadline that passes sends a cancel of a request the peer has already given up",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	c, f := context.WithTimeout(bg, 50*time.Millisecond)
	defer f()
	if _, err := r.sm.Call(c, "m", r.sm.NewRequest(nil)); err != context.DeadlineExceeded {
		t.Errorf("%v", err)
	}
	vnext[*packet.RequestPacket](t, r.dg)
	r.dg.none(t, "a passed deadline")
}
''')),
dict(id="c13-context-kept",prop="C13",pkg="application",common=APP,
 edits=[("application/stream.go","""		if ok {
			delete(sm.rpcCancels, pkt.ID())
			cancel()
		}
		sm.rpcMtx.Unlock()

		rspPkt""","""		if ok && rsp.err == nil {
			delete(sm.rpcCancels, pkt.ID())
			cancel()
		}
		sm.rpcMtx.Unlock()

		rspPkt""")],
 needs="a handler that answers with an error, and a look at what it leaves behind",
 breaks="the context of a request whose handler failed is never released",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	got := make(chan context.Context, 1)
	r.sm.Hijack(func(c context.Context, m string, q geminio.Request, p geminio.Response) {
		p.SetError(errV)
		got <- c
	})
	r.dg.send(t, r.pf.NewRequestPacket([]byte("m"), nil))
	vnext[*packet.ResponsePacket](t, r.dg)
	select {
	case <-(<-got).Done():
	case <-time.After(time.Second):
		t.Error("the context of a finished request is still live")
	}
}
''')),
dict(id="c14-topic-once",prop="C14",pkg="application",common=APP,
 edits=[("application/message.go","""	pkt.Data.Topic = msg.Topic()
	pkt.Data.Custom = msg.Custom()

	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = deadline
	}

	if msg.Cnss() == options.CnssAtMostOnce {
		// if consistency is set to be AtMostOnce, we don't care about context or timeout
		sm.writeInCh <- pkt
		sm.mtx.RUnlock()
		return nil
	}
""","""	pkt.Data.Topic = msg.Topic()

	deadline, ok := ctx.Deadline()
	if ok {
		pkt.Data.Context.Deadline = deadline
	}

	if msg.Cnss() == options.CnssAtMostOnce {
		// if consistency is set to be AtMostOnce, we don't care about context or timeout
		sm.writeInCh <- pkt
		sm.mtx.RUnlock()
		return nil
	}
	pkt.Data.Custom = msg.Custom()
""")],
 needs="an at-most-once message with custom data",
 breaks="at-most-once messages lose their custom data",
 test=app('''
func TestDemo(t *testing.T) {
	for _, c := range []options.Cnss{options.CnssAtMostOnce, options.CnssAtLeastOnce} {
		r := vnew(t)
		defer r.dg.end()
		o := options.NewMessage()
		o.SetCnss(c)
		o.SetTopic("t")
		o.SetCustom([]byte("c"))
		go r.sm.Publish(bg, r.sm.NewMessage([]byte("d"), o))
		if k := vnext[*packet.MessagePacket](t, r.dg); string(k.Data.Custom) != "c" || k.Data.Topic != "t" {
			t.Errorf("sent %q %q", k.Data.Custom, k.Data.Topic)
		}
	}
}
''')),
dict(id="c14-async-timeout",prop="C14",pkg="application",common=APP,
 edits=[("application/message.go","""	if msg.Timeout() != 0 {
		// the sync may has timeout
		syncOpts = append(syncOpts, synchub.WithTimeout(msg.Timeout()))
	}
	// Add a new sync for the async publish
""","""	// Add a new sync for the async publish
""")],
 needs="an asynchronous publish with a timeout that the peer never acknowledges",
 breaks="it never completes",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	o := options.Publish()
	o.SetTimeout(100 * time.Millisecond)
	p, err := r.sm.PublishAsync(bg, r.sm.NewMessage([]byte("d")), nil, o)
	if err != nil {
		t.Fatal(err)
	}
	select {
	case x := <-p.Done:
		if x.Error == nil {
			t.Error("reported as done")
		}
	case <-time.After(3 * time.Second):
		t.Error("a publish with a timeout never completes")
	}
}
''')),
dict(id="c15-ack-after-end",prop="C15",pkg="application",common=APP,
 edits=[("application/message.go","""func (sm *stream) ackMessage(pktID uint64, err error) error {
	sm.mtx.RLock()
	if !sm.streamOK {
		sm.mtx.RUnlock()
		return io.EOF
	}
""","""func (sm *stream) ackMessage(pktID uint64, err error) error {
	sm.mtx.RLock()
""")],
 needs="a message received before the stream finished and acknowledged after",
 breaks="acknowledging panics on the closed queue instead of reporting end-of-file",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	r.dg.send(t, r.pf.NewMessagePacket(nil, []byte("m")))
	m, err := r.sm.Receive(bg)
	if err != nil {
		t.Fatal(err)
	}
	r.dg.end()
	r.finished()
	defer func() {
		if x := recover(); x != nil {
			t.Error(x)
		}
	}()
	if m.Done() == nil || m.Error(errV) == nil {
		t.Error("acknowledged on a finished stream")
	}
}
''')),
dict(id="c15-topic-of-bytes",prop="C15",pkg="application",common=APP,
 edits=[("application/message.go","""			data:     pkt.Data.Value,
			topic:    pkt.Data.Topic,
			custom:   pkt.Data.Custom,
			id:       pkt.PacketID,""","""			data:     pkt.Data.Value,
			topic:    pkt.Data.Topic,
			custom:   sm.cache,
			id:       pkt.PacketID,"""),("application/message.go","""		msg := &message{
			timeout: ""","""		if pkt.Data.Custom != nil {
			sm.cache = append(sm.cache[:0], pkt.Data.Custom...)
		}
		msg := &message{
			timeout: """)],
 needs="two messages with custom data, the first kept while the second arrives",
 breaks="a received message's custom data changes when the next message arrives",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	for _, c := range []string{"one", "two"} {
		k := r.pf.NewMessagePacket(nil, []byte("m"))
		k.Data.Custom = []byte(c)
		r.dg.send(t, k)
	}
	a, err := r.sm.Receive(bg)
	b, err2 := r.sm.Receive(bg)
	if err != nil || err2 != nil || string(a.Custom()) != "one" || string(b.Custom()) != "two" {
		t.Errorf("received %q %q", a.Custom(), b.Custom())
	}
}
''')),
dict(id="c16-shared-buffer",prop="C16",pkg="application",common=APP,
 edits=[("application/raw.go","""	newb := make([]byte, len(b))
	copy(newb, b)
	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), newb)""","""	pkt := sm.pf.NewStreamPacketWithSessionID(sm.dg.DialogueID(), b)""")],
 needs="a writer that reuses its buffer while the packet is still queued",
 breaks="bytes written to the buffer after Write returned are sent",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	hold := make(chan int)
	r.dg.mtx.Lock()
	r.dg.hold = hold
	r.dg.mtx.Unlock()
	b := []byte("first")
	if n, err := r.sm.Write(b); n != 5 || err != nil {
		t.Fatal(n, err)
	}
	copy(b, "other")
	close(hold)
	if k := vnext[*packet.StreamPacket](t, r.dg); string(k.Data) != "first" {
		t.Errorf("sent %q", k.Data)
	}
}
''')),
dict(id="c16-rest-after-deadline",prop="C16",pkg="application",common=APP,
 edits=[("application/raw.go","""			n := copy(b, pkt.Data)
			sm.cache = pkt.Data[n:]
			return n, nil
		default:""","""			return copy(b, pkt.Data), nil
		default:""")],
 needs="a read with a short buffer after the read deadline passed, while bytes are waiting",
 breaks="the bytes that did not fit are lost",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	r.dg.send(t, r.pf.NewStreamPacket([]byte("abcdef")))
	if !vuntil(func() bool { return len(r.sm.streamCh) == 1 }) {
		t.Fatal("not arrived")
	}
	r.sm.SetReadDeadline(time.Now().Add(-time.Second))
	b := make([]byte, 4)
	n, err := r.sm.Read(b)
	if err != nil {
		t.Fatal(err)
	}
	r.sm.SetReadDeadline(time.Time{})
	r.dg.send(t, r.pf.NewStreamPacket([]byte("xyz")))
	got := string(b[:n])
	for len(got) < 6 {
		if n, err = r.sm.Read(b); err != nil {
			t.Fatal(err)
		}
		got += string(b[:n])
	}
	if got[:6] != "abcdef" {
		t.Errorf("read %q", got)
	}
}
''')),
dict(id="c17-both",prop="C17",pkg="application",common=APP,
 edits=[("application/raw.go","""	err := sm.setReadDeadline(t)
	if err != nil {
		return err
	}
	err = sm.setWriteDeadline(t)
	if err != nil {
		return err
	}
	return nil
""","""	if !t.Equal(sm.dlRead) {
		err := sm.setReadDeadline(t)
		if err != nil {
			return err
		}
		err = sm.setWriteDeadline(t)
		if err != nil {
			return err
		}
	}
	return nil
""")],
 needs="setting both deadlines to what the read deadline is already",
 breaks="the write deadline is not set, and writes wait for ever",
 test=app('''
func TestDemo(t *testing.T) {
	r, hold := vblocked(t)
	defer close(hold)
	d := time.Now().Add(300 * time.Millisecond)
	r.sm.SetReadDeadline(d)
	r.sm.SetDeadline(d)
	c := make(chan vop, 1)
	r.write(c)
	released(t, c, 1, "write")
}
''')),
dict(id="c18-kept-after-cancel",prop="C18",pkg="application",common=APP,
 edits=[("application/rpc.go","""	case <-ctx.Done():
		sm.delLocalRPC(method)
		return ctx.Err()
	}
	return nil
}
""","""	case <-ctx.Done():
		return ctx.Err()
	}
	return nil
}
""")],
 needs="a registration whose context ends before the acknowledgement",
 breaks="a method whose registration failed is still served",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	c, f := context.WithCancel(bg)
	go func() { vuntil(func() bool { return r.dg.nwrites() > 0 }); f() }()
	if err := r.sm.Register(c, "m", vsays("x")); err == nil {
		t.Fatal("registered")
	}
	vnext[*packet.RegisterPacket](t, r.dg)
	r.dg.send(t, r.pf.NewRequestPacket([]byte("m"), nil))
	if k := vnext[*packet.ResponsePacket](t, r.dg); k.Data.Error == "" {
		t.Errorf("a withdrawn method was served")
	}
}
''')),
dict(id="c19-queue-after-end",prop="C19",pkg="application",common=APP,
 edits=[("application/message.go","""		return nil, ErrMismatchStreamID
	}
	sm.mtx.RLock()
	if !sm.streamOK {
		sm.mtx.RUnlock()
		return nil, io.EOF
	}

	// TODO optimize
	opt :=""","""		return nil, ErrMismatchStreamID
	}
	sm.mtx.RLock()
	if !sm.streamOK && ctx.Err() != nil {
		sm.mtx.RUnlock()
		return nil, io.EOF
	}

	// TODO optimize
	opt :=""")],
 needs="an asynchronous publish on a stream that finished",
 breaks="it panics on the closed queue",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	r.dg.end()
	r.finished()
	defer func() {
		if x := recover(); x != nil {
			t.Error(x)
		}
	}()
	if _, err := r.sm.PublishAsync(bg, r.sm.NewMessage(nil), nil); err == nil {
		t.Error("published on a finished stream")
	}
}
''')),
dict(id="c19-master-listed",prop="C19",pkg="application",common=APP,
 edits=[("application/stream.go","""		// the master stream
		sm.end.fini()
	}
""","""		// the master stream
		sm.end.fini()
		return
	}
""")],
 needs="the default stream of an end finishing",
 breaks="the finished default stream stays in the end's list",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	r.mux.def.end()
	if !vuntil(func() bool { return !r.listed(1) }) {
		t.Error("the finished default stream is still listed")
	}
	if !r.listed(9) {
		t.Error("another stream is not listed any longer")
	}
}
''')),
dict(id="c21-hijack-options",prop="C21",pkg="client",
 edits=[("client/end_retry.go","err = new.Hijack(re.hijackRPC, re.hijackRPCOpts)","err = new.Hijack(re.hijackRPC)")],
 needs="a hijack with a pattern, and a reconnect after it",
 breaks="after a reconnect the hijack handler takes all methods",
 test='''package client

import (
	"context"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer ln.Close()
	ends := make(chan geminio.End, 4)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			e, err := server.NewEndWithConn(c)
			if err == nil {
				ends <- e
			}
		}
	}()
	var mtx sync.Mutex
	var last net.Conn
	re, err := NewRetryEndWithDialer(func() (net.Conn, error) {
		c, err := net.Dial("tcp", ln.Addr().String())
		mtx.Lock()
		last = c
		mtx.Unlock()
		return c, err
	})
	if err != nil {
		t.Fatal(err)
	}
	defer re.Close()
	s := <-ends
	o := options.Hijack()
	o.SetMatch(true, "^foo")
	re.Hijack(func(_ context.Context, m string, q geminio.Request, p geminio.Response) { p.SetData([]byte("hijack")) }, o)
	if err := re.Register(context.Background(), "bar", func(_ context.Context, q geminio.Request, p geminio.Response) { p.SetData([]byte("bar")) }); err != nil {
		t.Fatal(err)
	}
	check := func(s geminio.End) {
		c, f := context.WithTimeout(context.Background(), 5*time.Second)
		defer f()
		for m, w := range map[string]string{"foo": "hijack", "bar": "bar"} {
			p, err := s.Call(c, m, s.NewRequest(nil))
			if err != nil || string(p.Data()) != w {
				t.Errorf("%s: %v %v", m, p, err)
			}
		}
	}
	check(s)
	mtx.Lock()
	last.Close()
	mtx.Unlock()
	select {
	case s = <-ends:
	case <-time.After(20 * time.Second):
		t.Fatal("no reconnect")
	}
	time.Sleep(2500 * time.Millisecond)
	check(s)
}
'''),
dict(id="c21-forgets-after-retry",prop="C21",pkg="client",
 edits=[("client/end_retry.go","""	if memorize {
		// memorize the rpc in case of retry
		re.rpcMtx.Lock()
		re.rpcs[method] = rpc
		re.rpcMtx.Unlock()
	}
	return nil
}
""","""	if _, ok := re.rpcs[method]; memorize && !ok {
		// memorize the rpc in case of retry
		re.rpcMtx.Lock()
		re.rpcs[method] = rpc
		re.rpcMtx.Unlock()
	}
	return nil
}
""")],
 needs="a method registered again with another handler, and a reconnect after it",
 breaks="after a reconnect the replaced handler is back",
 test='''package client

import (
	"context"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/server"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer ln.Close()
	ends := make(chan geminio.End, 4)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			e, err := server.NewEndWithConn(c)
			if err == nil {
				ends <- e
			}
		}
	}()
	var mtx sync.Mutex
	var last net.Conn
	re, err := NewRetryEndWithDialer(func() (net.Conn, error) {
		c, err := net.Dial("tcp", ln.Addr().String())
		mtx.Lock()
		last = c
		mtx.Unlock()
		return c, err
	})
	if err != nil {
		t.Fatal(err)
	}
	defer re.Close()
	s := <-ends
	for _, w := range []string{"old", "new"} {
		w := w
		if err := re.Register(context.Background(), "m", func(_ context.Context, q geminio.Request, p geminio.Response) { p.SetData([]byte(w)) }); err != nil {
			t.Fatal(err)
		}
	}
	check := func(s geminio.End) {
		c, f := context.WithTimeout(context.Background(), 5*time.Second)
		defer f()
		p, err := s.Call(c, "m", s.NewRequest(nil))
		if err != nil || string(p.Data()) != "new" {
			t.Errorf("%v %v", p, err)
		}
	}
	check(s)
	mtx.Lock()
	last.Close()
	mtx.Unlock()
	select {
	case s = <-ends:
	case <-time.After(20 * time.Second):
		t.Fatal("no reconnect")
	}
	time.Sleep(2500 * time.Millisecond)
	check(s)
}
'''),
dict(id="c22-closed-by-proposal",prop="C22",pkg="application",common=APP,
 edits=[("application/end.go","sm, ok := end.streams.Load(dg.DialogueID())","sm, ok := end.streams.Load(dg.NegotiatingID())")],
 needs="a closed dialogue whose id differs from the one it was proposed under",
 breaks="the closed function is told of no stream, or of another one",
 test=app('''
type odd struct{ *vdg }

func (o odd) NegotiatingID() uint64 { return 9 }

func TestDemo(t *testing.T) {
	got := []uint64{}
	r := vnew(t, OptionClosedStreamFunc(func(s geminio.Stream) { got = append(got, s.StreamID()) }))
	defer r.dg.end()
	d := odd{newVdg(vcid, 14)}
	r.end.AcceptDialogue(d)
	r.end.ClosedDialogue(d)
	if len(got) != 1 || got[0] != 14 {
		t.Errorf("closed streams announced: %v, 14 closed", got)
	}
}
''')),
dict(id="c23-publish-once",prop="C23",pkg="application",common=APP,
 edits=[("application/message.go","""		// if consistency is set to be AtMostOnce, we don't care about context or timeout or async
		sm.writeInCh <- pkt
		sm.mtx.RUnlock()
		return nil, nil""","""		// if consistency is set to be AtMostOnce, we don't care about context or timeout or async
		sm.writeInCh <- pkt
		return nil, nil""")],
 needs="an asynchronous at-most-once publish, and the stream finishing later",
 breaks="the stream's lock stays held, so the stream can never finish",
 test=app('''
func TestDemo(t *testing.T) {
	r := vnew(t)
	o := options.NewMessage()
	o.SetCnss(options.CnssAtMostOnce)
	if _, err := r.sm.PublishAsync(bg, r.sm.NewMessage([]byte("d"), o), nil); err != nil {
		t.Fatal(err)
	}
	vnext[*packet.MessagePacket](t, r.dg)
	r.dg.end()
	if !vuntil(func() bool { return !r.listed(9) }) {
		t.Error("the stream cannot finish")
	}
}
''')),
dict(id="c23-reconnect-fails",prop="C23",pkg="client",
 edits=[("client/end_retry.go","""		if err != nil {
			re.rpcMtx.RUnlock()
			return err
		}
	}
	re.rpcMtx.RUnlock()
""","""		if err != nil {
			return err
		}
	}
	re.rpcMtx.RUnlock()
""")],
 needs="a reconnect during which registering the remembered methods fails",
 breaks="the lock of the remembered methods stays held, so no method can be registered ever again",
 test='''package client

import (
	"context"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/server"
)

func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer ln.Close()
	ends := make(chan geminio.End, 16)
	go func() {
		for i := 0; ; i++ {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			e, err := server.NewEndWithConn(c)
			if err != nil {
				continue
			}
			if i == 1 {
				// before the remembered methods are registered
				time.Sleep(300 * time.Millisecond)
				c.Close()
			}
			ends <- e
		}
	}()
	var mtx sync.Mutex
	var last net.Conn
	re, err := NewRetryEndWithDialer(func() (net.Conn, error) {
		c, err := net.Dial("tcp", ln.Addr().String())
		mtx.Lock()
		last = c
		mtx.Unlock()
		return c, err
	})
	if err != nil {
		t.Fatal(err)
	}
	<-ends
	rpc := func(_ context.Context, q geminio.Request, p geminio.Response) {}
	if err := re.Register(context.Background(), "m", rpc); err != nil {
		t.Fatal(err)
	}
	mtx.Lock()
	last.Close()
	mtx.Unlock()
	for i := 0; i < 2; i++ {
		select {
		case <-ends:
		case <-time.After(20 * time.Second):
			t.Fatal("no reconnect")
		}
	}
	done := make(chan error, 1)
	go func() {
		for {
			if err := re.Register(context.Background(), "n", rpc); err == nil {
				done <- err
				return
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(25 * time.Second):
		t.Fatal("registering blocks for ever")
	}
	re.Close()
}
'''),
dict(id="c25-user-timer-closed",prop="C25",pkg="client",
 edits=[("client/end.go","""	if ce.opts.TimerOwner == ce {
		// TODO""","""	if ce.opts.Timer != nil {
		// TODO""")],
 needs="an end with a timer of the user, shared with something else, and closing the end",
 breaks="closing an end closes the user's timer",
 test='''package client

import (
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/singchia/geminio/server"
	"github.com/singchia/go-timer/v2"
)

type counting struct {
	timer.Timer
	closed int32
}

func (c *counting) Close() { atomic.AddInt32(&c.closed, 1) }

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	go server.NewEndWithConn(b)
	tm := &counting{Timer: timer.NewTimer()}
	o := NewEndOptions()
	o.SetTimer(tm)
	e, err := NewEndWithConn(a, o)
	if err != nil {
		t.Fatal(err)
	}
	e.Close()
	time.Sleep(100 * time.Millisecond)
	if atomic.LoadInt32(&tm.closed) != 0 {
		t.Error("the user's timer was closed")
	}
}
'''),
dict(id="c25-buffer-swap",prop="C25",pkg="server",
 edits=[("server/end.go","multiplexer.OptionBufferSize(eo.ReadBufferSize, eo.WriteBufferSize),","multiplexer.OptionBufferSize(eo.WriteBufferSize, eo.ReadBufferSize),")],
 needs="an end with different buffer sizes for reading and writing",
 breaks="the streams of a server's end get the read buffer size for writing and the other way round",
 test='''package server

import (
	"net"
	"reflect"
	"testing"
	"unsafe"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
)

// field walks to an unexported field.
func field(v reflect.Value, names ...string) reflect.Value {
	for _, n := range names {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			v = v.Elem()
		}
		if !v.CanAddr() {
			c := reflect.New(v.Type()).Elem()
			c.Set(v)
			v = c
		}
		v = v.FieldByName(n)
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	ch := make(chan geminio.End, 1)
	o := NewEndOptions()
	o.SetBufferSize(17, 3)
	go func() { e, _ := NewEndWithConn(b, o); ch <- e }()
	c, err := client.NewEndWithConn(a)
	if err != nil {
		t.Fatal(err)
	}
	defer c.Close()
	e := <-ch
	if e == nil {
		t.Fatal("no end")
	}
	dg := field(reflect.ValueOf(e), "End", "stream", "dg")
	if r, w := field(dg, "readOutCh").Cap(), field(dg, "writeInCh").Cap(); r != 17 || w != 3 {
		t.Errorf("streams read through a buffer of %d and write through one of %d", r, w)
	}
}
'''),
]
