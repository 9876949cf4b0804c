package application

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/singchia/geminio/packet"
)

func TestVerifC16Write(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	hold := make(chan int)
	r.dg.hold = hold
	buf := make([]byte, 300)
	want := [][]byte{}
	for i := 0; i < 25; i++ {
		n := rand.Intn(300)
		if i == 7 {
			n = 0
		}
		for j := 0; j < n; j++ {
			buf[j] = byte(rand.Int())
		}
		want = append(want, append([]byte{}, buf[:n]...))
		var m int
		var err error
		vwithin(t, "writing", func() { m, err = r.sm.Write(buf[:n]) })
		if m != n || err != nil {
			t.Fatalf("write of %d: %d %v", n, m, err)
		}
		// the caller's buffer is his own again
		for j := range buf {
			buf[j] = 'x'
		}
	}
	close(hold)
	for i, w := range want {
		k := vnext[*packet.StreamPacket](t, r.dg)
		if !bytes.Equal(k.Data, w) {
			t.Fatalf("write %d sent %q, want %q", i, k.Data, w)
		}
	}
	r.dg.none(t, "after the writes")
	r.dg.end()
	r.finished()
	vwithin(t, "write", func() {
		for i := 0; i < 2; i++ {
			if n, err := r.sm.Write([]byte("x")); n != 0 || err != io.EOF {
				t.Errorf("write on a finished stream: %d %v", n, err)
			}
		}
	})
	r.dg.none(t, "finished")
}

func TestVerifC16Read(t *testing.T) {
	for _, deadline := range []time.Time{{}, time.Now().Add(time.Hour), time.Now().Add(-time.Hour)} {
		for _, max := range []int{1, 3, 50, 400} {
			for _, end := range []bool{false, true} {
				t.Run(fmt.Sprint(deadline.Unix(), max, end), func(t *testing.T) {
					r := vnew(t)
					defer r.dg.end()
					r.sm.SetReadDeadline(deadline)
					all := []byte{}
					for i := 0; i < 20; i++ {
						b := make([]byte, rand.Intn(40))
						if i%5 == 0 {
							b = b[:0]
						}
						for j := range b {
							b[j] = byte(rand.Int())
						}
						all = append(all, b...)
						r.dg.send(t, r.pf.NewStreamPacketWithSessionID(9, b))
					}
					if !vuntil(func() bool { return len(r.sm.streamCh) == 20 }) {
						t.Fatal("packets are not handed up")
					}
					if end {
						r.dg.end()
						r.finished()
						time.Sleep(10 * time.Millisecond)
					}
					got := []byte{}
					for len(got) < len(all) {
						b := make([]byte, max, max+20)
						if rand.Intn(6) == 0 {
							b = b[:rand.Intn(max+1)]
						}
						over := b[len(b):cap(b)]
						var n int
						var err error
						vwithin(t, "reading", func() { n, err = r.sm.Read(b) })
						if err != nil || n > len(b) || n < 0 {
							t.Fatalf("read into %d: %d %v", len(b), n, err)
						}
						got = append(got, b[:n]...)
						for _, x := range over {
							if x != 0 {
								t.Fatal("read writes behind the buffer")
							}
						}
						if !bytes.Equal(got, all[:len(got)]) {
							t.Fatalf("read %d bytes, not the next ones", n)
						}
					}
					if end {
						vwithin(t, "reading a finished stream", func() {
							eof := 0
							for i := 0; i < 30 && eof < 3; i++ {
								n, err := r.sm.Read(make([]byte, 4))
								if n != 0 || err != nil && err != io.EOF {
									t.Errorf("read at the end: %d %v", n, err)
									return
								}
								if err == io.EOF {
									eof++
								}
							}
							if eof != 3 {
								t.Error("no end-of-file")
							}
						})
					}
				})
			}
		}
	}
}

// several readers get the bytes apart
func TestVerifC16Readers(t *testing.T) {
	r := vnew(t)
	defer r.dg.end()
	var wg sync.WaitGroup
	var mtx sync.Mutex
	count := map[byte]int{}
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 3)
			for {
				n, err := r.sm.Read(b)
				if err != nil {
					if err != io.EOF {
						t.Error(err)
					}
					return
				}
				mtx.Lock()
				for _, x := range b[:n] {
					count[x]++
				}
				mtx.Unlock()
			}
		}()
	}
	for i := 0; i < 250; i++ {
		r.dg.send(t, r.pf.NewStreamPacketWithSessionID(9, []byte{byte(i), byte(i), byte(i), byte(i), byte(i), byte(i), byte(i)}))
		if !vuntil(func() bool { return len(r.sm.streamCh) < 8 && len(r.dg.in) == 0 }) {
			t.Fatal("bytes are not read")
		}
	}
	if !vuntil(func() bool {
		mtx.Lock()
		defer mtx.Unlock()
		s := 0
		for _, c := range count {
			s += c
		}
		return s >= 250*7
	}) {
		t.Error("bytes are lost")
	}
	r.dg.end()
	vwithin(t, "readers of a finished stream", wg.Wait)
	for i := 0; i < 250; i++ {
		if count[byte(i)] != 7 {
			t.Errorf("byte %d was read %d times of 7", i, count[byte(i)])
		}
	}
}

// a reader waiting while the stream ends gets end-of-file
func TestVerifC16Wait(t *testing.T) {
	for _, d := range []time.Time{{}, time.Now().Add(time.Hour)} {
		r := vnew(t)
		r.sm.SetDeadline(d)
		done := make(chan error, 1)
		go func() { _, err := r.sm.Read(make([]byte, 3)); done <- err }()
		time.Sleep(20 * time.Millisecond)
		r.dg.end()
		select {
		case err := <-done:
			if err != io.EOF {
				t.Error(err)
			}
		case <-time.After(vto):
			t.Fatal("reader is not released")
		}
	}
}
