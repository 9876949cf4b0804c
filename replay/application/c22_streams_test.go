package application

import (
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/singchia/geminio"
	"github.com/singchia/geminio/options"
)

func TestVerifC22(t *testing.T) {
	var mtx sync.Mutex
	accepted, ended := []geminio.Stream{}, []geminio.Stream{}
	var r *vrig
	r = vnew(t, OptionAcceptStreamFunc(func(s geminio.Stream) { mtx.Lock(); accepted = append(accepted, s); mtx.Unlock() }),
		OptionClosedStreamFunc(func(s geminio.Stream) { mtx.Lock(); ended = append(ended, s); mtx.Unlock() }))
	defer r.dg.end()
	defer r.mux.def.end()
	ids := func() string {
		l := []string{}
		for _, s := range r.end.ListStreams() {
			l = append(l, fmt.Sprint(s.StreamID()))
		}
		sort.Strings(l)
		return strings.Join(l, " ")
	}
	want := func(s string) {
		t.Helper()
		if !vuntil(func() bool { return ids() == s }) {
			t.Fatalf("streams %q are listed, want %q", ids(), s)
		}
	}
	want("1 9")
	live := func(s geminio.Stream, d *vdg, meta string) {
		t.Helper()
		if s.StreamID() != d.id || s.ClientID() != vcid || string(s.Meta()) != string(d.Meta()) || s.Peer() != d.Peer() {
			t.Errorf("stream %d for dialogue %d", s.StreamID(), d.id)
		}
		vwithin(t, "write", func() {
			if _, err := s.Write([]byte(meta)); err != nil {
				t.Error(err)
			}
		})
		k := d.next(vto)
		if k == nil {
			t.Fatalf("stream %d doesn't write to its dialogue", d.id)
		}
		d.send(t, r.pf.NewStreamPacketWithSessionID(d.id, []byte("in"+meta)))
		b := make([]byte, 20)
		vwithin(t, "read", func() {
			if n, err := s.Read(b); err != nil || string(b[:n]) != "in"+meta {
				t.Errorf("read %q %v", b[:n], err)
			}
		})
	}
	// opened
	d21, d23 := newVdg(vcid, 21), newVdg(vcid, 23)
	r.mux.next = d21
	o := options.OpenStream()
	o.SetMeta([]byte("some meta"))
	o.SetPeer("some peer")
	s21, err := r.end.OpenStream(o)
	if err != nil {
		t.Fatal(err)
	}
	want("1 21 9")
	r.mux.next = d23
	s23, err := r.end.OpenStream()
	if err != nil {
		t.Fatal(err)
	}
	want("1 21 23 9")
	if string(r.mux.opened[0]) != "some meta" || r.mux.peers[0] != "some peer" || len(r.mux.opened[1]) != 0 || r.mux.peers[1] != "" {
		t.Errorf("opened with %q %q", r.mux.opened, r.mux.peers)
	}
	live(s21, d21, "a")
	live(s23, d23, "b")
	if s21 == s23 {
		t.Error("one stream for two")
	}
	// accepted
	d25 := newVdg(vcid, 25)
	r.mux.accept <- d25
	c, err := r.end.Accept()
	if err != nil {
		t.Fatal(err)
	}
	want("1 21 23 25 9")
	live(c.(geminio.Stream), d25, "c")
	if len(accepted) != 0 {
		t.Errorf("%d streams were announced", len(accepted))
	}
	// announced by the multiplexer
	d27, d29 := newVdg(vcid, 27), newVdg(vcid, 29)
	r.end.AcceptDialogue(d27)
	want("1 21 23 25 27 9")
	r.end.AcceptDialogue(d29)
	want("1 21 23 25 27 29 9")
	mtx.Lock()
	if len(accepted) != 2 {
		t.Fatalf("%d streams were announced", len(accepted))
	}
	mtx.Unlock()
	live(accepted[0], d27, "d")
	live(accepted[1], d29, "e")
	// the very streams listed
	for _, s := range r.end.ListStreams() {
		for _, k := range []geminio.Stream{s21, s23, accepted[0], accepted[1]} {
			if s.StreamID() == k.StreamID() && s != k {
				t.Errorf("another stream %d is listed", k.StreamID())
			}
		}
	}
	// closed
	r.end.ClosedDialogue(newVdg(vcid, 77))
	r.end.ClosedDialogue(d23)
	r.end.ClosedDialogue(d29)
	mtx.Lock()
	if len(ended) != 2 || ended[0] != s23 || ended[1] != accepted[1] {
		t.Errorf("%v were reported", ended)
	}
	mtx.Unlock()
	d23.end()
	want("1 21 25 27 29 9")
	d29.end()
	want("1 21 25 27 9")
	r.end.ClosedDialogue(d23)
	if len(ended) != 2 {
		t.Error("an unknown stream was reported")
	}
	live(s21, d21, "f")
	// failures
	r.mux.err = errV
	if s, err := r.end.OpenStream(); s != nil || err != errV {
		t.Errorf("failed open: %v %v", s, err)
	}
	want("1 21 25 27 9")
	close(r.mux.accept)
	if s, err := r.end.AcceptStream(); s != nil || err != io.EOF {
		t.Errorf("failed accept: %v %v", s, err)
	}
	want("1 21 25 27 9")
	d21.end()
	d25.end()
	d27.end()
	want("1 9")
}

// no function configured
func TestVerifC22Plain(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	d := newVdg(vcid, 27)
	r.end.AcceptDialogue(d)
	if !r.listed(27) {
		t.Error("not listed")
	}
	r.end.ClosedDialogue(d)
	d.end()
	if !vuntil(func() bool { return !r.listed(27) }) {
		t.Error("still listed")
	}
}

// a stream that ends at once is not left behind
func TestVerifC22Brief(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	for i := 0; i < 500; i++ {
		d := newVdg(vcid, uint64(100+i))
		d.end()
		r.mux.next = d
		if i%2 == 0 {
			r.end.AcceptDialogue(d)
		} else if _, err := r.end.OpenStream(); err != nil {
			t.Fatal(err)
		}
	}
	if !vuntil(func() bool { return len(r.end.ListStreams()) == 2 }) {
		t.Errorf("%d streams are left", len(r.end.ListStreams()))
	}
}
