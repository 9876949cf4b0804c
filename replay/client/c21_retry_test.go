package client

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/server"
)

func init() { log.SetLevel(log.LevelFatal) }

const vto = 20 * time.Second

var bg = context.Background()
var errV = errors.New("an error")

// vend is an end that records what is asked of it.
type vend struct {
	geminio.End // nil
	calls       []string
	args        [][]interface{}
	err         error
}

type vaddr string

func (a vaddr) Network() string { return "v" }
func (a vaddr) String() string  { return string(a) }

type vreq struct{ geminio.Request }
type vrsp struct{ geminio.Response }
type vms struct{ geminio.Message }
type vsm struct{ geminio.Stream }

var (
	aReq  = &vreq{}
	aRsp  = &vrsp{}
	aMsg  = &vms{}
	aSm   = &vsm{}
	aSms  = []geminio.Stream{aSm, &vsm{}}
	aCall = &geminio.Call{Method: "q"}
	aPub  = &geminio.Publish{Error: errV}
)

func (f *vend) do(n string, a ...interface{}) {
	f.calls = append(f.calls, n)
	f.args = append(f.args, a)
}

func (f *vend) OpenStream(o ...*options.OpenStreamOptions) (geminio.Stream, error) {
	f.do("OpenStream", o)
	if f.err != nil {
		return nil, f.err
	}
	return aSm, nil
}
func (f *vend) AcceptStream() (geminio.Stream, error) {
	f.do("AcceptStream")
	if f.err != nil {
		return nil, f.err
	}
	return aSm, nil
}
func (f *vend) ListStreams() []geminio.Stream { f.do("ListStreams"); return aSms }
func (f *vend) NewRequest(d []byte, o ...*options.NewRequestOptions) geminio.Request {
	f.do("NewRequest", d, o)
	return aReq
}
func (f *vend) Call(c context.Context, m string, q geminio.Request, o ...*options.CallOptions) (geminio.Response, error) {
	f.do("Call", c, m, q, o)
	if f.err != nil {
		return nil, f.err
	}
	return aRsp, nil
}
func (f *vend) CallAsync(c context.Context, m string, q geminio.Request, ch chan *geminio.Call, o ...*options.CallOptions) (*geminio.Call, error) {
	f.do("CallAsync", c, m, q, ch, o)
	if f.err != nil {
		return nil, f.err
	}
	return aCall, nil
}
func (f *vend) Register(c context.Context, m string, r geminio.RPC) error {
	f.do("Register", c, m, r)
	return f.err
}
func (f *vend) Hijack(r geminio.HijackRPC, o ...*options.HijackOptions) error {
	f.do("Hijack", r, o)
	return f.err
}
func (f *vend) NewMessage(d []byte, o ...*options.NewMessageOptions) geminio.Message {
	f.do("NewMessage", d, o)
	return aMsg
}
func (f *vend) Publish(c context.Context, m geminio.Message, o ...*options.PublishOptions) error {
	f.do("Publish", c, m, o)
	return f.err
}
func (f *vend) PublishAsync(c context.Context, m geminio.Message, ch chan *geminio.Publish, o ...*options.PublishOptions) (*geminio.Publish, error) {
	f.do("PublishAsync", c, m, ch, o)
	if f.err != nil {
		return nil, f.err
	}
	return aPub, nil
}
func (f *vend) Receive(c context.Context) (geminio.Message, error) {
	f.do("Receive", c)
	if f.err != nil {
		return nil, f.err
	}
	return aMsg, nil
}
func (f *vend) Read(b []byte) (int, error) {
	f.do("Read", b)
	if f.err != nil {
		return 0, f.err
	}
	return 7, nil
}
func (f *vend) Write(b []byte) (int, error) {
	f.do("Write", b)
	if f.err != nil {
		return 0, f.err
	}
	return 8, nil
}
func (f *vend) LocalAddr() net.Addr                { f.do("LocalAddr"); return vaddr("local") }
func (f *vend) RemoteAddr() net.Addr               { f.do("RemoteAddr"); return vaddr("remote") }
func (f *vend) SetDeadline(t time.Time) error      { f.do("SetDeadline", t); return f.err }
func (f *vend) SetReadDeadline(t time.Time) error  { f.do("SetReadDeadline", t); return f.err }
func (f *vend) SetWriteDeadline(t time.Time) error { f.do("SetWriteDeadline", t); return f.err }
func (f *vend) StreamID() uint64                   { f.do("StreamID"); return 31 }
func (f *vend) ClientID() uint64                   { f.do("ClientID"); return 37 }
func (f *vend) Meta() []byte                       { f.do("Meta"); return []byte("meta") }
func (f *vend) Side() geminio.Side                 { f.do("Side"); return geminio.RecipientSide }
func (f *vend) Peer() string                       { f.do("Peer"); return "peer" }
func (f *vend) Close() error                       { f.do("Close"); return f.err }

func vretry(f *vend, dials *int) *RetryEnd {
	ok := int32(1)
	eo := NewEndOptions()
	initEndOptions(eo)
	return &RetryEnd{opts: eo, UnimplementedDelegate: &delegate.UnimplementedDelegate{}, ok: &ok, onceClose: &sync.Once{}, rpcs: map[string]geminio.RPC{},
		dialer: func() (net.Conn, error) { *dials++; return nil, errV },
		end:    unsafe.Pointer(&clientEnd{opts: eo, End: f})}
}

func varg(t reflect.Type, i int) reflect.Value {
	switch x := reflect.New(t).Interface().(type) {
	case *context.Context:
		*x = context.WithValue(bg, vaddr("k"), i)
		return reflect.ValueOf(x).Elem()
	case *time.Time:
		return reflect.ValueOf(time.Unix(int64(i), 3))
	case *geminio.Request:
		*x = &vreq{}
		return reflect.ValueOf(x).Elem()
	case *geminio.Message:
		*x = &vms{}
		return reflect.ValueOf(x).Elem()
	case *geminio.RPC:
		return reflect.ValueOf(geminio.RPC(func(context.Context, geminio.Request, geminio.Response) {}))
	case *geminio.HijackRPC:
		return reflect.ValueOf(geminio.HijackRPC(func(context.Context, string, geminio.Request, geminio.Response) {}))
	case *string:
		return reflect.ValueOf(fmt.Sprint("method", i))
	case *[]byte:
		return reflect.ValueOf([]byte(fmt.Sprint("data", i)))
	}
	switch t.Kind() {
	case reflect.Chan:
		return reflect.MakeChan(t, 1)
	case reflect.Ptr:
		return reflect.New(t.Elem())
	case reflect.Slice: // options
		s := reflect.MakeSlice(t, 2, 2)
		s.Index(0).Set(reflect.New(t.Elem().Elem()))
		s.Index(1).Set(reflect.New(t.Elem().Elem()))
		return s
	}
	panic(t.String())
}

func same(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if !x.IsValid() || !y.IsValid() {
		return x.IsValid() == y.IsValid()
	}
	switch x.Kind() {
	case reflect.Func:
		return x.Pointer() == y.Pointer()
	case reflect.Slice:
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if !same(x.Index(i).Interface(), y.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return a == b
}

func TestVerifC21Delegates(t *testing.T) {
	it := reflect.TypeOf((*geminio.End)(nil)).Elem()
	for _, err := range []error{nil, errV} {
		for i := 0; i < it.NumMethod(); i++ {
			m := it.Method(i)
			to := m.Name
			switch to {
			case "Accept":
				to = "AcceptStream"
			case "Addr":
				to = "LocalAddr"
			}
			t.Run(fmt.Sprint(m.Name, err), func(t *testing.T) {
				f := &vend{err: err}
				dials := 0
				re := vretry(f, &dials)
				in := []reflect.Value{}
				for j := 0; j < m.Type.NumIn(); j++ {
					in = append(in, varg(m.Type.In(j), 10*i+j))
				}
				call := func(name string, x interface{}) []reflect.Value {
					v := reflect.ValueOf(x).MethodByName(name)
					if m.Type.IsVariadic() {
						return v.CallSlice(in)
					}
					return v.Call(in)
				}
				got := call(m.Name, re)
				if len(f.calls) != 1 || f.calls[0] != to {
					t.Fatalf("the end is asked for %v", f.calls)
				}
				for j := range in {
					if !same(in[j].Interface(), f.args[0][j]) {
						t.Errorf("argument %d is %v, want %v", j, f.args[0][j], in[j])
					}
				}
				want := call(to, &vend{err: err})
				for j := range want {
					if !same(got[j].Interface(), want[j].Interface()) {
						t.Errorf("result %d is %v, want %v", j, got[j], want[j])
					}
				}
				if dials != 0 {
					t.Errorf("%d reconnects", dials)
				}
				// remembered only if it went well
				if n := len(re.rpcs); n != 0 && (m.Name != "Register" || err != nil) || n != 1 && m.Name == "Register" && err == nil {
					t.Errorf("%d methods are remembered", n)
				}
				if (re.hijackRPC != nil) != (m.Name == "Hijack" && err == nil) {
					t.Error("hijack handler remembered")
				}
			})
		}
	}
}

func TestVerifC21Closed(t *testing.T) {
	it := reflect.TypeOf((*geminio.End)(nil)).Elem()
	f := &vend{}
	dials := 0
	re := vretry(f, &dials)
	re.Close()
	re.Close()
	if fmt.Sprint(f.calls) != "[Close]" {
		t.Errorf("the end is asked for %v", f.calls)
	}
	f.err = io.EOF
	for i := 0; i < it.NumMethod(); i++ {
		m := it.Method(i)
		in := []reflect.Value{}
		for j := 0; j < m.Type.NumIn(); j++ {
			in = append(in, varg(m.Type.In(j), 10*i+j))
		}
		f.calls = nil
		var out []reflect.Value
		v := reflect.ValueOf(re).MethodByName(m.Name)
		if m.Type.IsVariadic() {
			out = v.CallSlice(in)
		} else {
			out = v.Call(in)
		}
		if k := len(out) - 1; m.Name != "Close" && m.Type.Out(k).String() == "error" {
			if out[k].Interface() != io.EOF {
				t.Errorf("%s on a closed end: %v", m.Name, out[k])
			}
		}
	}
	re.ConnOffline(nil)
	if err := re.reinit((*clientEnd)(re.end)); err != io.EOF {
		t.Errorf("reconnecting a closed end: %v", err)
	}
	if dials != 0 {
		t.Errorf("%d reconnects after the end was closed", dials)
	}
}

type vconn struct {
	net.Conn
	once sync.Once
	done chan int
}

func (c *vconn) Close() error { c.once.Do(func() { close(c.done) }); return c.Conn.Close() }
func (c *vconn) closed() bool {
	select {
	case <-c.done:
		return true
	default:
		return false
	}
}

// vnet is a server reached by a dialer.
type vnet struct {
	mtx   sync.Mutex
	conns []net.Conn // the server's
	peers []net.Conn // the client's
	ends  chan geminio.End
	hold  chan int
	dials int
}

func (n *vnet) dial() (net.Conn, error) {
	n.mtx.Lock()
	h := n.hold
	n.dials++
	n.mtx.Unlock()
	if h != nil {
		<-h
	}
	a, c := net.Pipe()
	b := &vconn{Conn: c, done: make(chan int)}
	n.mtx.Lock()
	n.conns, n.peers = append(n.conns, a), append(n.peers, b)
	n.mtx.Unlock()
	go func() {
		e, err := server.NewEndWithConn(a)
		if err == nil {
			n.ends <- e
		}
	}()
	return b, nil
}
func (n *vnet) count() int { n.mtx.Lock(); defer n.mtx.Unlock(); return n.dials }

type vdlg struct {
	*delegate.UnimplementedDelegate
	on chan uint64
}

func (d *vdlg) EndReOnline(c delegate.ClientDescriber) { d.on <- c.ClientID() }

func vend1(t *testing.T, n *vnet) geminio.End {
	t.Helper()
	select {
	case e := <-n.ends:
		return e
	case <-time.After(vto):
		t.Fatal("no connection")
		return nil
	}
}

func TestVerifC21Reconnect(t *testing.T) {
	t.Parallel()
	n := &vnet{ends: make(chan geminio.End, 9)}
	o := NewEndOptions()
	d := &vdlg{&delegate.UnimplementedDelegate{}, make(chan uint64, 9)}
	o.SetDelegate(d)
	o.SetMeta([]byte("a client"))
	re, err := NewRetryEndWithDialer(n.dial, o)
	if err != nil {
		t.Fatal(err)
	}
	s := vend1(t, n)
	says := func(x string) geminio.RPC {
		return func(_ context.Context, q geminio.Request, p geminio.Response) {
			p.SetData([]byte(x + string(q.Data())))
		}
	}
	for _, m := range [][2]string{{"foo", "old:"}, {"bar", "bar:"}, {"foo", "foo:"}} {
		if err := re.Register(bg, m[0], says(m[1])); err != nil {
			t.Fatal(err)
		}
	}
	h := options.Hijack()
	h.SetMatch(true, "^h")
	if err := re.Hijack(func(_ context.Context, m string, q geminio.Request, p geminio.Response) {
		p.SetData([]byte("hijack:" + m))
	}, h); err != nil {
		t.Fatal(err)
	}
	ctx, cancel := context.WithCancel(bg)
	cancel()
	if err := re.Register(ctx, "bad", says("bad")); err == nil {
		// it may have been acknowledged first
		t.Log("registered")
	} else if _, ok := re.(*RetryEnd).rpcs["bad"]; ok {
		t.Error("a failed registration is remembered")
	}
	check := func(s geminio.End) {
		t.Helper()
		for m, want := range map[string]string{"foo": "foo:x", "bar": "bar:x", "hello": "hijack:hello", "nothing": ""} {
			c, cancel := context.WithTimeout(bg, vto)
			p, err := s.Call(c, m, s.NewRequest([]byte("x")))
			cancel()
			if want == "" {
				if err == nil || !strings.Contains(err.Error(), "no such rpc") {
					t.Errorf("calling %s: %v", m, err)
				}
			} else if err != nil || string(p.Data()) != want {
				t.Errorf("calling %s: %v %v", m, p, err)
			}
		}
		if re.ClientID() != s.ClientID() || string(s.Meta()) != "a client" || string(re.Meta()) != "a client" || re.StreamID() != 1 {
			t.Errorf("ids %d %d, metas %q %q", re.ClientID(), s.ClientID(), re.Meta(), s.Meta())
		}
		n.mtx.Lock()
		cur := n.peers[len(n.peers)-1]
		n.mtx.Unlock()
		if re.LocalAddr() != cur.LocalAddr() || re.RemoteAddr() != cur.RemoteAddr() {
			t.Error("addresses of another connection")
		}
	}
	check(s)
	for i := 0; i < 2; i++ {
		n.mtx.Lock()
		c := n.conns[len(n.conns)-1]
		n.mtx.Unlock()
		c.Close()
		s = vend1(t, n)
		select {
		case <-d.on:
		case <-time.After(vto):
			t.Fatal("the end is not online again")
		}
		check(s)
	}
	if n.count() != 3 {
		t.Errorf("%d connections for 2 failures", n.count())
	}
	re.Close()
	if _, err := re.Call(bg, "x", re.NewRequest(nil)); err != io.EOF {
		t.Errorf("calling on a closed end: %v", err)
	}
	time.Sleep(4 * time.Second)
	if n.count() != 3 {
		t.Error("reconnects after the end was closed")
	}
}

// the user closes while a connection is being made
func TestVerifC21CloseMeanwhile(t *testing.T) {
	for _, when := range []string{"waiting", "dialling"} {
		when := when
		t.Run(when, func(t *testing.T) {
			t.Parallel()
			n := &vnet{ends: make(chan geminio.End, 9)}
			re, err := NewRetryEndWithDialer(n.dial)
			if err != nil {
				t.Fatal(err)
			}
			vend1(t, n)
			hold := make(chan int)
			n.mtx.Lock()
			n.hold = hold
			c := n.conns[0]
			n.mtx.Unlock()
			c.Close()
			if when == "dialling" {
				for i := 0; n.count() < 2; i++ {
					if i > 2000 {
						t.Fatal("no reconnect")
					}
					time.Sleep(10 * time.Millisecond)
				}
			} else {
				time.Sleep(300 * time.Millisecond)
			}
			re.Close()
			close(hold)
			if when == "waiting" {
				time.Sleep(4 * time.Second)
				if n.count() != 1 {
					t.Error("reconnects after the end was closed")
				}
				return
			}
			gone := func() bool {
				n.mtx.Lock()
				defer n.mtx.Unlock()
				return len(n.peers) == 2 && n.peers[1].(*vconn).closed()
			}
			for i := 0; !gone(); i++ {
				if i > 2000 {
					t.Fatal("the connection made meanwhile stays open")
				}
				time.Sleep(10 * time.Millisecond)
			}
			time.Sleep(4 * time.Second)
			if n.count() != 2 {
				t.Error("reconnects after the end was closed")
			}
		})
	}
}
