package application

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/multiplexer"
	"github.com/singchia/geminio/options"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"github.com/singchia/go-timer/v2"
)

func init() { log.SetLevel(log.LevelFatal) }

const vto = 8 * time.Second

// vcopy sends a packet through the codec.
func vcopy(p packet.Packet) (packet.Packet, error) {
	b := &bytes.Buffer{}
	if err := packet.EncodeToWriter(p, b); err != nil {
		return nil, err
	}
	return packet.DecodeFromReader(b)
}

type vconn struct{ cid uint64 }

func (c *vconn) Read() (packet.Packet, error)      { select {} }
func (c *vconn) ChannelRead() <-chan packet.Packet { return nil }
func (c *vconn) Write(packet.Packet) error         { return nil }
func (c *vconn) Close()                            {}
func (c *vconn) ClientID() uint64                  { return c.cid }
func (c *vconn) Meta() []byte                      { return []byte("conn meta") }
func (c *vconn) LocalAddr() net.Addr               { return nil }
func (c *vconn) RemoteAddr() net.Addr              { return nil }
func (c *vconn) Side() geminio.Side                { return geminio.InitiatorSide }

// vdg is a dialogue played by hand: what the stream writes is copied through the codec to out.
type vdg struct {
	cid, id uint64
	in      chan packet.Packet
	out     chan packet.Packet
	mtx     sync.Mutex
	werr    error
	hold    chan int // writes wait for it
	onw     func(packet.Packet)
	writes  int
	closed  int
	once    sync.Once
	imtx    sync.Mutex
	ended   bool
}

func newVdg(cid, id uint64) *vdg {
	return &vdg{cid: cid, id: id, in: make(chan packet.Packet, 4096), out: make(chan packet.Packet, 4096)}
}
func (d *vdg) Read() (packet.Packet, error) {
	p, ok := <-d.in
	if !ok {
		return nil, io.EOF
	}
	return p, nil
}
func (d *vdg) ReadC() <-chan packet.Packet { return d.in }
func (d *vdg) Write(p packet.Packet) error {
	d.mtx.Lock()
	h, err, f := d.hold, d.werr, d.onw
	d.writes++
	d.mtx.Unlock()
	if h != nil {
		<-h
		d.mtx.Lock()
		err = d.werr
		d.mtx.Unlock()
	}
	if err != nil {
		return err
	}
	p.(packet.SessionAbove).SetSessionID(d.id)
	k, err := vcopy(p)
	if err != nil {
		return err
	}
	if f != nil {
		f(k)
	}
	d.out <- k
	return nil
}
func (d *vdg) WriteWait(p packet.Packet) error { return d.Write(p) }
func (d *vdg) Close()                          { d.mtx.Lock(); d.closed++; d.mtx.Unlock(); d.end() }
func (d *vdg) end() {
	d.once.Do(func() { d.imtx.Lock(); d.ended = true; close(d.in); d.imtx.Unlock() })
}

// put delivers a packet unless the dialogue ended.
func (d *vdg) put(k packet.Packet) {
	d.imtx.Lock()
	defer d.imtx.Unlock()
	if !d.ended {
		d.in <- k
	}
}
func (d *vdg) fail(err error)        { d.mtx.Lock(); d.werr = err; d.mtx.Unlock() }
func (d *vdg) NegotiatingID() uint64 { return d.id + 1000 }
func (d *vdg) ClientID() uint64      { return d.cid }
func (d *vdg) DialogueID() uint64    { return d.id }
func (d *vdg) Meta() []byte          { return []byte("meta") }
func (d *vdg) Side() geminio.Side    { return geminio.InitiatorSide }
func (d *vdg) Peer() string          { return "peer" }
func (d *vdg) nwrites() int          { d.mtx.Lock(); defer d.mtx.Unlock(); return d.writes }

func (d *vdg) next(to time.Duration) packet.Packet {
	select {
	case k := <-d.out:
		return k
	case <-time.After(to):
		return nil
	}
}

// send delivers a packet of the peer.
func (d *vdg) send(t *testing.T, p packet.Packet) {
	p.(packet.SessionAbove).SetSessionID(d.id)
	k, err := vcopy(p)
	if err != nil {
		t.Fatal(err)
	}
	d.in <- k
}

type vmux struct {
	mtx    sync.Mutex
	def    *vdg
	accept chan *vdg
	next   *vdg
	err    error
	opened [][]byte
	peers  []string
	closed int
}

func (m *vmux) OpenDialogue(meta []byte, peer string) (multiplexer.Dialogue, error) {
	m.mtx.Lock()
	defer m.mtx.Unlock()
	m.opened = append(m.opened, meta)
	m.peers = append(m.peers, peer)
	if m.err != nil {
		return nil, m.err
	}
	return m.next, nil
}
func (m *vmux) AcceptDialogue() (multiplexer.Dialogue, error) {
	d, ok := <-m.accept
	if !ok {
		return nil, io.EOF
	}
	return d, nil
}
func (m *vmux) ClosedDialogue() (multiplexer.Dialogue, error) { return nil, io.EOF }
func (m *vmux) ListDialogues() []multiplexer.Dialogue         { return nil }
func (m *vmux) GetDialogue(c, i uint64) (multiplexer.Dialogue, error) {
	if m.err != nil {
		return nil, m.err
	}
	return m.def, nil
}
func (m *vmux) Close() { m.mtx.Lock(); m.closed++; m.mtx.Unlock() }

const vcid = 4242

type vregs struct {
	mtx  sync.Mutex
	regs []string
}

func (r *vregs) RemoteRegistration(m string, c, s uint64) {
	r.mtx.Lock()
	r.regs = append(r.regs, m)
	r.mtx.Unlock()
}

type vrig struct {
	t   *testing.T
	end *End
	mux *vmux
	dg  *vdg // of the stream under test
	sm  *stream
	pf  packet.PacketFactory // the peer's
	reg *vregs
}

// vnew makes an end and one more stream on it.
func vnew(t *testing.T, opts ...EndOption) *vrig {
	m := &vmux{def: newVdg(vcid, 1), accept: make(chan *vdg, 16)}
	r := &vrig{t: t, mux: m, pf: packet.NewPacketFactory(id.NewIDCounter(id.Even)), reg: &vregs{}}
	opts = append([]EndOption{OptionTimer(vtmr()), OptionPacketFactory(packet.NewPacketFactory(id.NewIDCounter(id.Odd))), OptionDelegate(r.reg)}, opts...)
	e, err := NewEnd(&vconn{vcid}, m, opts...)
	if err != nil {
		t.Fatal(err)
	}
	r.end = e
	r.sm, r.dg = r.stream(9)
	return r
}

var (
	vtmrOnce sync.Once
	vtmrs    timer.Timer
)

func vtmr() timer.Timer {
	vtmrOnce.Do(func() { vtmrs = timer.NewTimer() })
	return vtmrs
}

func (r *vrig) stream(id uint64) (*stream, *vdg) {
	d := newVdg(vcid, id)
	r.mux.accept <- d
	s, err := r.end.AcceptStream()
	if err != nil {
		r.t.Fatal(err)
	}
	return s.(*stream), d
}

func vnext[T packet.Packet](t *testing.T, d *vdg) T {
	t.Helper()
	k := d.next(vto)
	x, ok := k.(T)
	if !ok {
		t.Fatalf("%T was sent, %T is due", k, x)
	}
	return x
}

func (d *vdg) none(t *testing.T, what string) {
	t.Helper()
	if k := d.next(150 * time.Millisecond); k != nil {
		t.Errorf("%s: %T was sent", what, k)
	}
}

// vwithin fails the test when f blocks.
func vwithin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan int)
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(vto):
		t.Fatalf("%s blocks", what)
	}
}

func vuntil(f func() bool) bool {
	for i := 0; i < 800; i++ {
		if f() {
			return true
		}
		time.Sleep(10 * time.Millisecond)
	}
	return false
}

var bg = context.Background()

var errV = errors.New("the peer's error")

func (r *vrig) listed(id uint64) bool {
	for _, s := range r.end.ListStreams() {
		if s.StreamID() == id {
			return true
		}
	}
	return false
}

// finished waits for the stream to be gone.
func (r *vrig) finished() {
	r.t.Helper()
	if !vuntil(func() bool { r.sm.mtx.RLock(); defer r.sm.mtx.RUnlock(); return !r.sm.streamOK }) {
		r.t.Fatal("the stream does not finish")
	}
	if !vuntil(func() bool { return !r.listed(9) }) {
		r.t.Fatal("the finished stream is still listed")
	}
}

func vthrough(async bool, s *stream, ctx context.Context, m string, q geminio.Request, ch chan *geminio.Call, o ...*options.CallOptions) (geminio.Response, error) {
	if !async {
		return s.Call(ctx, m, q, o...)
	}
	c, err := s.CallAsync(ctx, m, q, ch, o...)
	if err != nil {
		return nil, err
	}
	if c.Method != m || c.Request != q {
		return nil, errors.New("the call doesn't carry what was asked for")
	}
	if ch != nil && c.Done != ch {
		return nil, errors.New("the call has another channel")
	}
	d, ok := <-c.Done
	if !ok || d != c {
		return nil, errors.New("another call was signalled")
	}
	select {
	case <-c.Done:
		return nil, errors.New("signalled twice")
	case <-time.After(20 * time.Millisecond):
	}
	if c.Error == nil && c.Response == nil {
		return nil, errors.New("neither an error nor a response")
	}
	return c.Response, c.Error
}

func vsays(s string) geminio.RPC {
	return func(_ context.Context, _ geminio.Request, p geminio.Response) { p.SetData([]byte(s)) }
}

func vdl(err error) bool { return errors.Is(err, os.ErrDeadlineExceeded) }

type vop struct {
	n   int
	err error
}

// blocked has writes that cannot proceed.
func vblocked(t *testing.T) (*vrig, chan int) {
	r := vnew(t)
	hold := make(chan int)
	r.dg.mtx.Lock()
	r.dg.hold = hold
	r.dg.mtx.Unlock()
	vwithin(t, "filling", func() {
		for i := 0; i < cap(r.sm.writeInCh)+1; i++ {
			if _, err := r.sm.Write([]byte{byte(i)}); err != nil {
				t.Fatal(err)
			}
			if i == 0 && !vuntil(func() bool { return len(r.sm.writeInCh) == 0 }) {
				t.Fatal("not taken")
			}
		}
	})
	return r, hold
}

func (r *vrig) read(c chan vop) {
	go func() { n, err := r.sm.Read(make([]byte, 5)); c <- vop{n, err} }()
}
func (r *vrig) write(c chan vop) {
	go func() { n, err := r.sm.Write([]byte("zz")); c <- vop{n, err} }()
}

func (r *vrig) waiting(w, n int) bool {
	return vuntil(func() bool {
		r.sm.dlMtx.Lock()
		defer r.sm.dlMtx.Unlock()
		if w == 1 {
			return r.sm.dlWriteChList.Len() == n
		}
		return r.sm.dlReadChList.Len() == n
	})
}

func released(t *testing.T, c chan vop, n int, what string) {
	t.Helper()
	for i := 0; i < n; i++ {
		select {
		case o := <-c:
			if o.n != 0 || !vdl(o.err) {
				t.Errorf("%s: %d %v", what, o.n, o.err)
			}
		case <-time.After(vto):
			t.Fatalf("%s: an operation is not released", what)
		}
	}
}

func (r *vrig) register(m string, f geminio.RPC) {
	done := make(chan error, 1)
	go func() { done <- r.sm.Register(bg, m, f) }()
	reg := vnext[*packet.RegisterPacket](r.t, r.dg)
	r.dg.send(r.t, r.pf.NewRegisterAckPacket(reg.ID(), nil))
	if err := <-done; err != nil {
		r.t.Fatal(err)
	}
}
