package packet

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"time"
)

type fixedIDs struct{ n uint64 }

func (f *fixedIDs) ReserveID(id uint64)                        {}
func (f *fixedIDs) GetID() uint64                              { f.n += 3; return f.n }
func (f *fixedIDs) GetIDByMeta(meta []byte) (uint64, error)    { return f.GetID(), nil }
func (f *fixedIDs) DelID(uint64)                               {}
func (f *fixedIDs) Close()                                     {}

func vrand() *rand.Rand {
	s, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(s + 77))
}

func vbytes(r *rand.Rand) []byte {
	var n int
	switch r.Intn(5) {
	case 0:
		n = 0
	case 1:
		n = 1 + r.Intn(3)
	case 2:
		n = 256 + r.Intn(600)
	case 3:
		n = 65530 + r.Intn(12)
	default:
		n = r.Intn(40)
	}
	b := make([]byte, n)
	r.Read(b)
	return b
}

func vtext(r *rand.Rand) string {
	return []string{"", "x", "peer-1", "错误 é \"quoted\" <&>\n", fmt.Sprint(r.Uint64())}[r.Intn(5)]
}

// vpackets builds one packet of every kind.
func vpackets(r *rand.Rand) []Packet {
	pf := &packetFactory{&fixedIDs{r.Uint64()}}
	var err error
	if r.Intn(2) == 0 {
		err = errors.New("e" + vtext(r))
	}
	hb := []Heartbeat{Heartbeat5, Heartbeat20, Heartbeat80, Heartbeat320}[r.Intn(4)]
	cp := pf.NewConnPacket(r.Uint64(), r.Intn(2) == 0, hb, vbytes(r))
	cp.Retain, cp.Clear, cp.packetIDAcquire = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
	cp.ConnData.Error = vtext(r)
	sp := pf.NewSessionPacket(r.Uint64(), r.Intn(2) == 0, vbytes(r), vtext(r))
	sp.Priority = uint8(r.Intn(256))
	sp.Qos = int8(r.Intn(16))
	msg := pf.NewMessagePacketWithSessionID(r.Uint64(), vbytes(r), vbytes(r), nil)
	vdata(r, msg.Data)
	mack := pf.NewMessageAckPacketWithSessionID(r.Uint64(), r.Uint64(), err)
	req := pf.NewRequestPacketWithIDAndSessionID(r.Uint64(), r.Uint64(), vbytes(r), vbytes(r))
	vdata(r, req.Data)
	rsp := pf.NewResponsePacket(r.Uint64(), vbytes(r), vbytes(r), err)
	rsp.SetSessionID(r.Uint64())
	return []Packet{cp, pf.NewConnAckPacket(r.Uint64(), r.Uint64(), err), pf.NewDisConnPacket(), pf.NewDisConnAckPacket(r.Uint64(), err),
		pf.NewHeartbeatPacket(), pf.NewHeartbeatAckPacket(r.Uint64()), sp, pf.NewSessionAckPacket(r.Uint64(), r.Uint64(), r.Uint64(), err),
		pf.NewDismissPacket(r.Uint64()), pf.NewDismissAckPacket(r.Uint64(), r.Uint64(), err), msg, mack,
		pf.NewStreamPacketWithSessionID(r.Uint64(), vbytes(r)), req, rsp,
		pf.NewRequestCancelPacketWithIDAndSessionID(r.Uint64(), r.Uint64(), RequestCancelType(r.Intn(3))),
		pf.NewRegisterPacketWithSessionID(r.Uint64(), vbytes(r)), pf.NewRegisterAckPacketWithSessionID(r.Uint64(), r.Uint64(), err)}
}

func vdata(r *rand.Rand, d *MessageData) {
	d.Custom = vbytes(r)
	d.Topic = vtext(r)
	d.Error = vtext(r)
	if r.Intn(2) == 0 {
		d.Deadline = time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()
	}
	if r.Intn(2) == 0 {
		d.Context.Deadline = time.Unix(r.Int63n(1<<33), r.Int63n(1e9)).UTC()
	}
}

// vsame compares the transmitted fields of two packets.
func vsame(a, b Packet) string {
	if reflect.TypeOf(a) != reflect.TypeOf(b) {
		return fmt.Sprintf("kind %T became %T", a, b)
	}
	return vdiff(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

func vdiff(a, b reflect.Value, path string) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + ": nil-ness differs"
		}
		if a.IsNil() {
			return ""
		}
		return vdiff(a.Elem(), b.Elem(), path)
	case reflect.Struct:
		if t, ok := tryTime(a); ok {
			u, _ := tryTime(b)
			if !t.Equal(u) {
				return fmt.Sprintf("%s: %v became %v", path, t, u)
			}
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			n := a.Type().Field(i).Name
			switch n {
			case "PacketLen", "Cnss", "basePacket", "Timeout":
				continue // not transmitted
			}
			if n == "SessionFlags" && a.Type().Name() == "SessionAckPacket" {
				continue
			}
			if d := vdiff(a.Field(i), b.Field(i), path+"."+n); d != "" {
				return d
			}
		}
		return ""
	case reflect.Slice:
		if !bytes.Equal(a.Bytes(), b.Bytes()) {
			return fmt.Sprintf("%s: %d bytes became %d or differ", path, a.Len(), b.Len())
		}
		return ""
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q became %q", path, a.String(), b.String())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return path + " differs"
		}
	case reflect.Int, reflect.Int8, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d became %d", path, a.Int(), b.Int())
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d became %d", path, a.Uint(), b.Uint())
		}
	}
	return ""
}

func tryTime(v reflect.Value) (time.Time, bool) {
	if v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		return v.Interface().(time.Time), true
	}
	return time.Time{}, false
}
