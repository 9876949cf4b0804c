package multiplexer

import (
	"bytes"
	"errors"
	"io"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/jumboframes/armorigo/log"
	"github.com/singchia/geminio"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

func init() { log.SetLevel(log.LevelFatal) }

// vconn is a connection in memory: what is written is encoded, decoded and shown to out.
type vconn struct {
	side geminio.Side
	in   chan packet.Packet
	mtx  sync.Mutex
	out  func(packet.Packet)
	werr error
	once sync.Once
}

func newVconn(side geminio.Side) *vconn {
	return &vconn{side: side, in: make(chan packet.Packet, 4096)}
}

func (c *vconn) Read() (packet.Packet, error) {
	p, ok := <-c.in
	if !ok {
		return nil, io.EOF
	}
	return p, nil
}
func (c *vconn) ChannelRead() <-chan packet.Packet { return c.in }
func (c *vconn) Write(p packet.Packet) error {
	c.mtx.Lock()
	defer c.mtx.Unlock()
	if c.werr != nil {
		return c.werr
	}
	k, err := vcopy(p)
	if err != nil {
		return err
	}
	if c.out != nil {
		c.out(k)
	}
	return nil
}
func (c *vconn) fail(err error)       { c.mtx.Lock(); c.werr = err; c.mtx.Unlock() }
func (c *vconn) Close()               { c.once.Do(func() { close(c.in) }) }
func (c *vconn) ClientID() uint64     { return 77 }
func (c *vconn) Meta() []byte         { return []byte("conn meta") }
func (c *vconn) LocalAddr() net.Addr  { return nil }
func (c *vconn) RemoteAddr() net.Addr { return nil }
func (c *vconn) Side() geminio.Side   { return c.side }

// vcopy sends a packet through the codec.
func vcopy(p packet.Packet) (packet.Packet, error) {
	b := &bytes.Buffer{}
	if err := packet.EncodeToWriter(p, b); err != nil {
		return nil, err
	}
	return packet.DecodeFromReader(b)
}

// vpeer plays the other end of the connection by hand.
type vpeer struct {
	t   *testing.T
	c   *vconn
	pf  packet.PacketFactory
	out chan packet.Packet
}

func newVpeer(t *testing.T, side geminio.Side) *vpeer {
	p := &vpeer{t, newVconn(side), packet.NewPacketFactory(id.NewIDCounter(id.Odd)), make(chan packet.Packet, 4096)}
	p.c.out = func(k packet.Packet) { p.out <- k }
	return p
}

func (p *vpeer) send(k packet.Packet) {
	c, err := vcopy(k)
	if err != nil {
		p.t.Fatal(err)
	}
	p.c.in <- c
}

func (p *vpeer) next(d time.Duration) packet.Packet {
	select {
	case k := <-p.out:
		return k
	case <-time.After(d):
		return nil
	}
}

func (p *vpeer) rest(d time.Duration) (out []packet.Packet) {
	for {
		k := p.next(d)
		if k == nil {
			return
		}
		out = append(out, k)
	}
}

func (p *vpeer) msg(sid uint64, v string) packet.Packet {
	m := p.pf.NewMessagePacketWithSessionID(sid, []byte("k"), []byte(v), nil)
	m.SetSessionID(sid)
	return m
}

// open lets the peer open a stream; it returns the id the other side answered with.
func (p *vpeer) open(nid uint64, acquire bool, meta, peer string) (uint64, *packet.SessionAckPacket) {
	s := p.pf.NewSessionPacket(nid, acquire, []byte(meta), peer)
	p.send(s)
	k := p.next(5 * time.Second)
	a, ok := k.(*packet.SessionAckPacket)
	if !ok {
		p.t.Fatalf("open was answered by %T", k)
	}
	if a.PacketID != s.PacketID {
		p.t.Errorf("open %d was answered with id %d", s.PacketID, a.PacketID)
	}
	return a.SessionID(), a
}

type vdlgt struct {
	mtx     sync.Mutex
	on, off []uint64
}

func (d *vdlgt) DialogueOnline(x delegate.DialogueDescriber) error {
	d.mtx.Lock()
	d.on = append(d.on, x.DialogueID())
	d.mtx.Unlock()
	return nil
}
func (d *vdlgt) DialogueOffline(x delegate.DialogueDescriber) error {
	d.mtx.Lock()
	d.off = append(d.off, x.DialogueID())
	d.mtx.Unlock()
	return nil
}
func (d *vdlgt) counts(id uint64) (on, off int) {
	d.mtx.Lock()
	defer d.mtx.Unlock()
	for _, x := range d.on {
		if x == id {
			on++
		}
	}
	for _, x := range d.off {
		if x == id {
			off++
		}
	}
	return
}

func vmgr(t *testing.T, c *vconn, d *vdlgt, opts ...MultiplexerOption) *dialogueMgr {
	odd := id.Odd
	if c.side == geminio.RecipientSide {
		odd = id.Even
	}
	opts = append([]MultiplexerOption{OptionPacketFactory(packet.NewPacketFactory(id.NewIDCounter(odd))),
		OptionMultiplexerAcceptDialogue(), OptionMultiplexerClosedDialogue()}, opts...)
	if d != nil {
		opts = append(opts, OptionDelegate(d))
	}
	m, err := NewDialogueMgr(c, opts...)
	if err != nil {
		t.Fatal(err)
	}
	return m.(*dialogueMgr)
}

// vlink connects two managers.
func vlink(t *testing.T) (ini, rec *dialogueMgr, ci, cr *vconn) {
	ci, cr = newVconn(geminio.InitiatorSide), newVconn(geminio.RecipientSide)
	ci.out = func(k packet.Packet) { cr.in <- k }
	cr.out = func(k packet.Packet) { ci.in <- k }
	return vmgr(t, ci, nil), vmgr(t, cr, nil), ci, cr
}

var errNone = errors.New("nothing arrived")

func vread(d Dialogue, to time.Duration) (packet.Packet, error) {
	select {
	case k, ok := <-d.ReadC():
		if !ok {
			return nil, io.EOF
		}
		return k, nil
	case <-time.After(to):
		return nil, errNone
	}
}

func vtext(k packet.Packet) string {
	if m, ok := k.(*packet.MessagePacket); ok {
		return string(m.Data.Value)
	}
	return "?"
}

func vaccept(t *testing.T, m *dialogueMgr) Dialogue {
	select {
	case d, ok := <-m.dialogueAcceptCh:
		if !ok {
			t.Fatal("accepting ended")
		}
		return d
	case <-time.After(5 * time.Second):
		t.Fatal("no dialogue to accept")
		return nil
	}
}

func vdone(t *testing.T, what string, f func()) {
	done := make(chan int)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(8 * time.Second):
		t.Errorf("%s blocks", what)
	}
}

func vroutes(m *dialogueMgr) (a, n int) {
	m.mtx.RLock()
	defer m.mtx.RUnlock()
	return len(m.dialogues), len(m.negotiatingDialogues)
}

var vsides = []geminio.Side{geminio.InitiatorSide, geminio.RecipientSide}

func vopened(t *testing.T, side geminio.Side) (*vpeer, *dialogueMgr, *dialogue, *vdlgt) {
	dl := &vdlgt{}
	p := newVpeer(t, side)
	m := vmgr(t, p.c, dl)
	id, _ := p.open(7, true, "", "")
	d := vaccept(t, m).(*dialogue)
	if d.DialogueID() != id {
		t.Fatal("ids")
	}
	return p, m, d, dl
}
