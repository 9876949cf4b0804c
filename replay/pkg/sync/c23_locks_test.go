package sync

import "testing"

func TestVerifC23Locks(t *testing.T) {
	o := new(Once)
	for i := 0; i < 3; i++ {
		func() {
			defer func() { recover() }()
			o.Do(func() {
				if i == 0 {
					panic("x")
				}
			})
		}()
		if !o.m.TryLock() {
			t.Fatal("the lock stays taken")
		}
		o.m.Unlock()
	}
}
