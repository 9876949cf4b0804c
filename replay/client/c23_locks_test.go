package client

import (
	"context"
	"errors"
	"net"
	"sync"
	"testing"
	"time"
	"unsafe"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/delegate"
	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
)

var errL = errors.New("an error")

// lend is an end whose registrations go as told.
type lend struct {
	geminio.End // nil
	err         error
}

func (f *lend) Register(c context.Context, m string, r geminio.RPC) error { return f.err }
func (f *lend) Close() error                                              { return nil }

func lretry(f geminio.End, dial func() (net.Conn, error)) *RetryEnd {
	ok := int32(1)
	eo := NewEndOptions()
	initEndOptions(eo)
	re := &RetryEnd{opts: eo, UnimplementedDelegate: &delegate.UnimplementedDelegate{}, ok: &ok, onceClose: &sync.Once{}, rpcs: map[string]geminio.RPC{},
		dialer: dial, end: unsafe.Pointer(&clientEnd{opts: eo, End: f})}
	return re
}

func lfree(t *testing.T, re *RetryEnd, what string) {
	t.Helper()
	for n, l := range map[string]interface {
		TryLock() bool
		Unlock()
	}{"retry": &re.retry, "rpcMtx": &re.rpcMtx} {
		if !l.TryLock() {
			t.Fatalf("%s: %s stays taken", what, n)
		}
		l.Unlock()
	}
}

func lin(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan int)
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("%s blocks", what)
	}
}

// lpeer is a server by hand, which answers registrations with rerr.
func lpeer(c net.Conn, rerr error) {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Even))
	for {
		k, err := packet.DecodeFromReader(c)
		if err != nil {
			return
		}
		switch p := k.(type) {
		case *packet.ConnPacket:
			packet.EncodeToWriter(pf.NewConnAckPacket(p.PacketID, 5, nil), c)
		case *packet.RegisterPacket:
			if rerr == errGone {
				c.Close()
				return
			}
			a := pf.NewRegisterAckPacket(p.PacketID, rerr)
			a.SetSessionID(p.SessionID())
			packet.EncodeToWriter(a, c)
		}
	}
}

var errGone = errors.New("gone")

func TestVerifC23Locks(t *testing.T) {
	rpc := func(context.Context, geminio.Request, geminio.Response) {}
	bg := context.Background()
	t.Run("register", func(t *testing.T) {
		t.Parallel()
		f := &lend{}
		re := lretry(f, func() (net.Conn, error) { return nil, errL })
		for _, e := range []error{nil, errL, nil} {
			f.err = e
			lin(t, "registering", func() { re.Register(bg, "m", rpc) })
			lfree(t, re, "registering")
		}
		re.Close()
		lin(t, "registering", func() { re.Register(bg, "m", rpc) })
		lfree(t, re, "registering when closed")
	})
	for _, how := range []string{"no connection", "fine", "registration refused", "gone", "other end", "closed"} {
		how := how
		t.Run(how, func(t *testing.T) {
			t.Parallel()
			re := lretry(&lend{}, func() (net.Conn, error) {
				if how == "no connection" {
					return nil, errL
				}
				a, b := net.Pipe()
				e := map[string]error{"registration refused": errL, "gone": errGone}[how]
				go lpeer(a, e)
				return b, nil
			})
			lin(t, "registering", func() { re.Register(bg, "m", rpc); re.Register(bg, "n", rpc) })
			old := (*clientEnd)(re.end)
			if how == "other end" {
				old = &clientEnd{}
			}
			if how == "closed" {
				re.Close()
			}
			lin(t, "making another connection", func() {
				err := re.reinit(old)
				if (err == nil) != (how == "fine" || how == "other end") {
					t.Errorf("%s: %v", how, err)
				}
			})
			if how == "gone" {
				// its own reconnecting begins
				return
			}
			lfree(t, re, how)
		})
	}
}
