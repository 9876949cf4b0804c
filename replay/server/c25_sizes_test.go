package server

import (
	"fmt"
	"net"
	"sync/atomic"
	"testing"
	"time"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/client"
)

// vheld is a connection whose writes wait once hold is set, and which counts what is read from it.
type vheld struct {
	net.Conn
	hold  int32
	leave chan int
	read  int64
}

func (c *vheld) Write(b []byte) (int, error) {
	if atomic.LoadInt32(&c.hold) == 1 {
		<-c.leave
	}
	return c.Conn.Write(b)
}
func (c *vheld) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	atomic.AddInt64(&c.read, int64(n))
	return n, err
}

// vcapacity tells how many writes an end takes while its connection takes none, and how many packets of the
// peer it takes while nobody reads them.
func vcapacity(t *testing.T, side string, r, w int) (int, int) {
	return vcapacity1(t, side, r, w, true), vcapacity1(t, side, r, w, false)
}

func vcapacity1(t *testing.T, side string, r, w int, writes bool) int {
	sc, cc := vpipe()
	so, co := NewEndOptions(), client.NewEndOptions()
	h := &vheld{leave: make(chan int)}
	var a, b net.Conn
	if side == "server" {
		so.SetBufferSize(r, w)
		h.Conn = sc
		a, b = h, cc
	} else {
		co.SetBufferSize(r, w)
		h.Conn = cc
		a, b = sc, h
	}
	done := make(chan geminio.End, 1)
	go func() {
		s, err := NewEndWithConn(a, so)
		if err != nil {
			t.Error(err)
		}
		done <- s
	}()
	c, err := client.NewEndWithDialer(func() (net.Conn, error) { return b, nil }, co)
	if err != nil {
		t.Fatal(err)
	}
	s := <-done
	me, peer := s, c
	if side == "client" {
		me, peer = c, s
	}
	const size = 1000
	settle := func(f func() int64) int {
		last, since := int64(-1), time.Now()
		for time.Since(since) < 500*time.Millisecond {
			if n := f(); n != last {
				last, since = n, time.Now()
			}
			time.Sleep(5 * time.Millisecond)
		}
		return int(last)
	}
	var got int
	if writes {
		atomic.StoreInt32(&h.hold, 1)
		var wrote int64
		go func() {
			for {
				if _, err := me.Write([]byte("x")); err != nil {
					return
				}
				atomic.AddInt64(&wrote, 1)
			}
		}()
		got = settle(func() int64 { return atomic.LoadInt64(&wrote) })
	} else {
		base := atomic.LoadInt64(&h.read)
		go func() {
			for {
				// messages are handed up one by one, and wait for a receiver
				if _, err := peer.PublishAsync(bg, peer.NewMessage(make([]byte, size)), nil); err != nil {
					return
				}
			}
		}()
		got = settle(func() int64 { return atomic.LoadInt64(&h.read) - base }) / size
	}
	close(h.leave)
	// nobody reads: closing the ends would take its time
	sc.Close()
	cc.Close()
	return got
}

// the sizes asked for reach every layer, each for its direction
func TestVerifC25Sizes(t *testing.T) {
	const n = 700
	for _, side := range []string{"server", "client"} {
		o0, i0 := vcapacity(t, side, 1, 1)
		or, ir := vcapacity(t, side, n, 1)
		ow, iw := vcapacity(t, side, 1, n)
		t.Log(side, o0, i0, or, ir, ow, iw)
		what := fmt.Sprintf("%s: %d/%d with buffers of 1 and 1, %d/%d with %d and 1, %d/%d with 1 and %d (writes taken/packets taken)", side, o0, i0, or, ir, n, ow, iw, n)
		if or-o0 > n/2 || iw-i0 > n/2 {
			t.Errorf("a size reaches the other direction: %s", what)
		}
		if ow-o0 < n*3/2 || ir-i0 < n*3/2 {
			t.Errorf("a size doesn't reach every layer: %s", what)
		}
	}
}
