package id

import (
	"sync"
	"testing"
)

func TestVerifC04Parity(t *testing.T) {
	for i := 0; i < 400; i++ {
		for _, m := range []struct {
			mode Mode
			bit  uint64
		}{{Even, 0}, {Odd, 1}} {
			c := NewIDCounter(m.mode)
			for j := 0; j < 5; j++ {
				v := c.GetID()
				if v&1 != m.bit {
					t.Fatalf("%s allocator gave %d", m.mode, v)
				}
				if v <= 1 {
					t.Fatalf("reserved id %d", v)
				}
				if w, err := c.GetIDByMeta(nil); err != nil || w&1 != m.bit || w == v {
					t.Fatalf("by meta %d %v", w, err)
				}
			}
		}
	}
}

func TestVerifC04Distinct(t *testing.T) {
	for _, m := range []Mode{Even, Odd, Inc, Unique} {
		for round := 0; round < 20; round++ {
			c := NewIDCounter(m)
			var mu sync.Mutex
			seen := map[uint64]bool{}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					var mine []uint64
					n := 500
					if m == Unique {
						n = 60
					}
					for i := 0; i < n; i++ {
						mine = append(mine, c.GetID())
					}
					mu.Lock()
					defer mu.Unlock()
					for _, v := range mine {
						if seen[v] {
							t.Errorf("%s: id %d twice", m, v)
							return
						}
						seen[v] = true
						if (m == Odd || m == Even) && (v&1 == 1) != (m == Odd) {
							t.Errorf("%s: id %d", m, v)
							return
						}
					}
				}()
			}
			close(start)
			wg.Wait()
		}
	}
}

func TestVerifC04Wrap(t *testing.T) {
	for _, m := range []Mode{Even, Odd, Inc} {
		c := NewIDCounter(m)
		c.GetID()
		c.counter = 0xffffffff - 5
		if m != Odd {
			c.counter--
			if m == Even {
				c.counter &^= 1
			}
		} else {
			c.counter |= 1
		}
		seen := map[uint64]bool{}
		for i := 0; i < 20; i++ {
			v := c.GetID()
			if v>>32 == 0 || seen[v] || (m == Odd || m == Even) && (v&1 == 1) != (m == Odd) {
				t.Fatalf("%s: %x", m, v)
			}
			seen[v] = true
		}
	}
}

func TestVerifC04Recycle(t *testing.T) {
	c := NewIDCounter(Unique)
	c.ReserveID(2)
	c.ReserveID(4)
	live := map[uint64]bool{2: true, 4: true}
	for i := 0; i < 50; i++ {
		v := c.GetID()
		if live[v] {
			t.Fatalf("id %d handed out while in use", v)
		}
		live[v] = true
		if i%3 == 0 {
			for w := range live {
				c.DelID(w)
				delete(live, w)
				break
			}
		}
	}
	for _, d := range []uint64{7, 9} {
		if !live[d] {
			continue
		}
		c.DelID(d)
		delete(live, d)
		got := false
		for i := 0; i < 60 && !got; i++ {
			v := c.GetID()
			if live[v] {
				t.Fatalf("id %d twice", v)
			}
			live[v] = true
			got = v == d
		}
		if !got {
			t.Fatalf("id %d never available again", d)
		}
	}
	for _, m := range []Mode{Even, Odd, Inc} {
		c := NewIDCounter(m)
		a := c.GetID()
		c.DelID(a)
		if c.GetID() == a {
			t.Fatal("counting mode repeated an id")
		}
	}
}
