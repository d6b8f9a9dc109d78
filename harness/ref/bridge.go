package ref

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"

	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
)

// New returns a zero packet value of the named type; ctor uses the library's
// constructor.
func New(name string, ctor bool) packet.ArtNetPacket {
	if ctor {
		switch name {
		case "ArtPoll":
			return packet.NewArtPollPacket()
		case "ArtPollReply":
			return packet.NewArtPollReplyPacket()
		case "ArtDiagData":
			return packet.NewArtDiagDataPacket()
		case "ArtCommand":
			return packet.NewArtCommandPacket()
		case "ArtDMX":
			return packet.NewArtDMXPacket()
		case "ArtNzs":
			return packet.NewArtNzsPacket()
		case "ArtSync":
			return packet.NewArtSyncPacket()
		case "ArtAddress":
			return packet.NewArtAddressPacket()
		case "ArtTimeCode":
			return packet.NewArtTimeCodePacket()
		case "ArtTrigger":
			return packet.NewArtTriggerPacket()
		case "ArtIPProg":
			return packet.NewArtIPProgPacket()
		case "ArtIPProgReply":
			return packet.NewArtIPProgReplyPacket()
		}
	}
	switch name {
	case "ArtPoll":
		return &packet.ArtPollPacket{}
	case "ArtPollReply":
		return &packet.ArtPollReplyPacket{}
	case "ArtDiagData":
		return &packet.ArtDiagDataPacket{}
	case "ArtCommand":
		return &packet.ArtCommandPacket{}
	case "ArtDMX":
		return &packet.ArtDMXPacket{}
	case "ArtNzs":
		return &packet.ArtNzsPacket{}
	case "ArtSync":
		return &packet.ArtSyncPacket{}
	case "ArtAddress":
		return &packet.ArtAddressPacket{}
	case "ArtTimeCode":
		return &packet.ArtTimeCodePacket{}
	case "ArtTrigger":
		return &packet.ArtTriggerPacket{}
	case "ArtIPProg":
		return &packet.ArtIPProgPacket{}
	case "ArtIPProgReply":
		return &packet.ArtIPProgReplyPacket{}
	}
	panic("harness: unknown packet type " + name)
}

// TypeName names the packet's type, as in Layouts.
func TypeName(p packet.ArtNetPacket) string {
	if p == nil {
		return "nil"
	}
	n := reflect.TypeOf(p).Elem().Name()
	if len(n) > 6 && n[len(n)-6:] == "Packet" {
		n = n[:len(n)-6]
	}
	return n
}

func fieldOf(p packet.ArtNetPacket, name string) reflect.Value {
	v := reflect.ValueOf(p).Elem().FieldByName(name)
	if !v.IsValid() {
		panic(fmt.Sprintf("harness: %T has no field %s", p, name))
	}
	return v
}

func setBytes(v reflect.Value, b []byte) {
	switch v.Kind() {
	case reflect.Uint8:
		v.SetUint(uint64(b[0]))
	case reflect.Uint16:
		v.SetUint(uint64(binary.BigEndian.Uint16(b)))
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			v.Index(i).SetUint(uint64(b[i]))
		}
	default:
		panic("harness: field kind " + v.Kind().String())
	}
}

func getBytes(v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Uint8:
		return []byte{byte(v.Uint())}
	case reflect.Uint16:
		return binary.BigEndian.AppendUint16(nil, uint16(v.Uint()))
	case reflect.Array:
		b := make([]byte, v.Len())
		for i := range b {
			b[i] = byte(v.Index(i).Uint())
		}
		return b
	default:
		panic("harness: field kind " + v.Kind().String())
	}
}

// Set stores canonical values into the packet's exported fields.
func Set(p packet.ArtNetPacket, v Values) {
	for k, b := range v {
		setBytes(fieldOf(p, k), b)
	}
}

// Get reads the layout's fields from a packet.
func Get(p packet.ArtNetPacket, l *Layout) Values {
	v := Values{}
	for i := range l.Fields {
		v[l.Fields[i].Name] = getBytes(fieldOf(p, l.Fields[i].Name))
	}
	return v
}

// Header is the header content of a packet value.
type Header struct {
	ID      []byte
	OpCode  uint16
	Version []byte
}

// SetHeader stores header fields.
func SetHeader(p packet.ArtNetPacket, h Header) {
	setBytes(fieldOf(p, "ID"), h.ID)
	fieldOf(p, "OpCode").SetUint(uint64(h.OpCode))
	if v := reflect.ValueOf(p).Elem().FieldByName("Version"); v.IsValid() {
		setBytes(v, h.Version)
	}
}

// GetHeader reads header fields.
func GetHeader(p packet.ArtNetPacket) Header {
	h := Header{ID: getBytes(fieldOf(p, "ID")), OpCode: uint16(fieldOf(p, "OpCode").Uint())}
	if v := reflect.ValueOf(p).Elem().FieldByName("Version"); v.IsValid() {
		h.Version = getBytes(v)
	}
	return h
}

// Diff compares the packet with expected values; "" if equal.
func Diff(p packet.ArtNetPacket, l *Layout, want Values) string {
	if TypeName(p) != l.Name {
		return fmt.Sprintf("packet type %s, want %s", TypeName(p), l.Name)
	}
	got := Get(p, l)
	for i := range l.Fields {
		n := l.Fields[i].Name
		w := want[n]
		if w == nil {
			w = make([]byte, l.Fields[i].Size)
		}
		if !bytes.Equal(got[n], w) {
			return fmt.Sprintf("%s.%s = %x, want %x", l.Name, n, got[n], w)
		}
	}
	return ""
}

// SameOp checks the packet's reported opcode.
func SameOp(p packet.ArtNetPacket, l *Layout) string {
	if p.GetOpCode() != code.OpCode(l.OpCode) {
		return fmt.Sprintf("%s reports opcode %#x, want %#x", l.Name, uint16(p.GetOpCode()), l.OpCode)
	}
	return ""
}
