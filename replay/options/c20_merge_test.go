package options

import (
	"reflect"
	"testing"
	"time"
)

// every subset of set fields in sequences of up to three options
func TestVerifC20(t *testing.T) {
	dur := []*time.Duration{nil, pd(1), pd(2), pd(0)}
	str := []*string{nil, ps("a"), ps(""), ps("b")}
	bs := [][]byte{nil, []byte("x"), []byte("yy")}
	cn := []*Cnss{nil, pc(CnssAtMostOnce), pc(CnssAtLeastOnce)}
	bo := []*bool{nil, pb(true), pb(false)}
	lastD := func(xs ...*time.Duration) *time.Duration {
		var r *time.Duration
		for _, x := range xs {
			if x != nil {
				r = x
			}
		}
		return r
	}
	for _, a := range dur {
		for _, b := range dur {
			for _, c := range dur {
				o := []*CallOptions{{Timeout: a}, nil, {Timeout: b}, {Timeout: c}}
				if !reflect.DeepEqual(MergeCallOptions(o...).Timeout, lastD(a, b, c)) {
					t.Fatal("call options")
				}
				p := []*PublishOptions{{Timeout: a}, {Timeout: b}, nil, {Timeout: c}}
				if !reflect.DeepEqual(MergePublishOptions(p...).Timeout, lastD(a, b, c)) {
					t.Fatal("publish options")
				}
				if o[0].Timeout != a || o[2].Timeout != b || o[3].Timeout != c || p[0].Timeout != a {
					t.Fatal("arguments changed")
				}
			}
		}
	}
	for _, a := range str {
		for _, b := range str {
			for _, x := range bs {
				for _, y := range bs {
					r := MergeOpenStreamOptions(&OpenStreamOptions{Peer: a, Meta: x}, &OpenStreamOptions{Peer: b, Meta: y})
					wp, wm := a, x
					if b != nil {
						wp = b
					}
					if y != nil {
						wm = y
					}
					if !reflect.DeepEqual(r.Peer, wp) || !reflect.DeepEqual(r.Meta, wm) {
						t.Fatal("open options")
					}
					for _, c := range cn {
						for _, d := range cn {
							m := MergeNewMessageOptions(&NewMessageOptions{Custom: x, Cnss: c, Topic: a}, &NewMessageOptions{Custom: y, Cnss: d, Topic: b})
							wc := c
							if d != nil {
								wc = d
							}
							if !reflect.DeepEqual(m.Topic, wp) || !reflect.DeepEqual(m.Custom, wm) || !reflect.DeepEqual(m.Cnss, wc) {
								t.Fatal("message options")
							}
						}
					}
					q := MergeNewRequestOptions(&NewRequestOptions{Custom: x}, &NewRequestOptions{Custom: y})
					if !reflect.DeepEqual(q.Custom, wm) {
						t.Fatal("request options")
					}
				}
			}
			for _, c := range bo {
				for _, d := range bo {
					h := MergeHijackOptions(&HijackOptions{Pattern: a, Match: c}, &HijackOptions{Pattern: b, Match: d})
					wp, wm := a, c
					if b != nil {
						wp = b
					}
					if d != nil {
						wm = d
					}
					if !reflect.DeepEqual(h.Pattern, wp) || !reflect.DeepEqual(h.Match, wm) {
						t.Fatal("hijack options")
					}
				}
			}
		}
	}
}

func pd(d time.Duration) *time.Duration { return &d }
func ps(s string) *string               { return &s }
func pc(c Cnss) *Cnss                   { return &c }
func pb(b bool) *bool                   { return &b }
