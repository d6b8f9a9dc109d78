// Package ref is an independent description of the Art-Net frames, written
// from the protocol's byte offsets, with a reference encoder and decoder. It
// shares nothing with the library; bridge.go maps it to the library's types.
package ref

import (
	"bytes"
	"encoding/binary"
)

// Kind of a field on the wire.
type Kind int

const (
	Raw  Kind = iota // bytes in order
	U16B             // 16 bit, high byte first
	U16L             // 16 bit, low byte first
)

// Field of a frame.
type Field struct {
	Name  string // exported field name in the library's packet type
	Off   int
	Size  int
	Kind  Kind
	Fixed []byte // protocol- or library-fixed value (canonical, high byte first)
}

// Layout of a packet type.
type Layout struct {
	Name   string
	OpCode uint16
	Size   int
	NoVer  bool
	Fields []Field
}

// ID is the Art-Net identifier.
var ID = []byte("Art-Net\x00")

func f(name string, off, size int) Field { return Field{Name: name, Off: off, Size: size} }
func w(name string, off int) Field       { return Field{Name: name, Off: off, Size: 2, Kind: U16B} }
func fix(x Field, v ...byte) Field       { x.Fixed = v; return x }

// Layouts of all implemented packet types.
var Layouts = []Layout{
	{Name: "ArtPoll", OpCode: 0x2000, Size: 14, Fields: []Field{f("TalkToMe", 12, 1), f("Priority", 13, 1)}},
	{Name: "ArtPollReply", OpCode: 0x2100, Size: 239, NoVer: true, Fields: []Field{
		f("IPAddress", 10, 4), {Name: "Port", Off: 14, Size: 2, Kind: U16L, Fixed: []byte{0x19, 0x36}},
		w("VersionInfo", 16), f("NetSwitch", 18, 1), f("SubSwitch", 19, 1), w("Oem", 20), f("UBEAVersion", 22, 1),
		f("Status1", 23, 1), f("ESTAmanufacturer", 24, 2), f("ShortName", 26, 18), f("LongName", 44, 64),
		f("NodeReport", 108, 64), w("NumPorts", 172), f("PortTypes", 174, 4), f("GoodInput", 178, 4),
		f("GoodOutput", 182, 4), f("SwIn", 186, 4), f("SwOut", 190, 4), f("SwVideo", 194, 1), f("SwMacro", 195, 1),
		f("SwRemote", 196, 1), f("Style", 200, 1), f("Macaddress", 201, 6), f("BindIP", 207, 4), f("BindIndex", 211, 1),
		f("Status2", 212, 1)}},
	{Name: "ArtDiagData", OpCode: 0x2300, Size: 530, Fields: []Field{f("Priority", 13, 1), w("Length", 16), f("Data", 18, 512)}},
	{Name: "ArtCommand", OpCode: 0x2400, Size: 528, Fields: []Field{
		fix(f("ESTAmanufacturer", 12, 2), 0xff, 0xff), w("Length", 14), f("Data", 16, 512)}},
	{Name: "ArtDMX", OpCode: 0x5000, Size: 530, Fields: []Field{f("Sequence", 12, 1), f("Physical", 13, 1), f("SubUni", 14, 1),
		f("Net", 15, 1), fix(w("Length", 16), 0x02, 0x00), f("Data", 18, 512)}},
	{Name: "ArtNzs", OpCode: 0x5100, Size: 530, Fields: []Field{f("Sequence", 12, 1), f("StartCode", 13, 1), f("SubUni", 14, 1),
		f("Net", 15, 1), w("Length", 16), f("Data", 18, 512)}},
	{Name: "ArtSync", OpCode: 0x5200, Size: 14},
	{Name: "ArtAddress", OpCode: 0x6000, Size: 107, Fields: []Field{f("NetSwitch", 12, 1), f("BindIndex", 13, 1),
		f("ShortName", 14, 18), f("LongName", 32, 64), f("SwIn", 96, 4), f("SwOut", 100, 4), f("SubSwitch", 104, 1),
		f("SwVideo", 105, 1), f("Command", 106, 1)}},
	{Name: "ArtTimeCode", OpCode: 0x9700, Size: 19, Fields: []Field{f("Frames", 14, 1), f("Seconds", 15, 1), f("Minutes", 16, 1),
		f("Hours", 17, 1), f("Type", 18, 1)}},
	{Name: "ArtTrigger", OpCode: 0x9900, Size: 530, Fields: []Field{w("Oem", 14), f("Key", 16, 1), f("SubKey", 17, 1), f("Data", 18, 512)}},
	{Name: "ArtIPProg", OpCode: 0xf800, Size: 34, Fields: []Field{f("Command", 14, 1), f("ProgIP", 16, 4), f("ProgSubNet", 20, 4),
		f("ProgPort", 24, 2)}},
	{Name: "ArtIPProgReply", OpCode: 0xf900, Size: 34, Fields: []Field{f("ProgIP", 16, 4), f("ProgSubNet", 20, 4),
		f("ProgPort", 24, 2), f("Status", 26, 1)}},
}

// ByName and ByOp find a layout.
func ByName(n string) *Layout {
	for i := range Layouts {
		if Layouts[i].Name == n {
			return &Layouts[i]
		}
	}
	return nil
}

// ByOp finds a layout by opcode.
func ByOp(op uint16) *Layout {
	for i := range Layouts {
		if Layouts[i].OpCode == op {
			return &Layouts[i]
		}
	}
	return nil
}

// Field finds a field.
func (l *Layout) Field(n string) *Field {
	for i := range l.Fields {
		if l.Fields[i].Name == n {
			return &l.Fields[i]
		}
	}
	return nil
}

// Values are canonical field values (16 bit values high byte first).
type Values map[string][]byte

// Clone copies.
func (v Values) Clone() Values {
	o := Values{}
	for k, b := range v {
		o[k] = append([]byte(nil), b...)
	}
	return o
}

// Frame puts the identifier, opcode and version.
func (l *Layout) header() []byte {
	b := make([]byte, l.Size)
	copy(b, ID)
	binary.LittleEndian.PutUint16(b[8:], l.OpCode)
	if !l.NoVer {
		b[10], b[11] = 0, 14
	}
	return b
}

// Encode gives the frame for the field values; missing ones are zero and
// fixed ones are forced when force is set.
func (l *Layout) Encode(v Values, force bool) []byte {
	b := l.header()
	for i := range l.Fields {
		fd := &l.Fields[i]
		val := v[fd.Name]
		if fd.Fixed != nil && (force || val == nil) {
			val = fd.Fixed
		}
		if val == nil {
			continue
		}
		fd.Put(b, val)
	}
	return b
}

// Put stores a canonical value into a frame.
func (fd *Field) Put(b, val []byte) {
	if fd.Kind == U16L {
		b[fd.Off], b[fd.Off+1] = val[1], val[0]
		return
	}
	copy(b[fd.Off:fd.Off+fd.Size], val)
}

// Get reads a canonical value from a frame.
func (fd *Field) Get(b []byte) []byte {
	v := append([]byte(nil), b[fd.Off:fd.Off+fd.Size]...)
	if fd.Kind == U16L {
		v[0], v[1] = v[1], v[0]
	}
	return v
}

// Verdict of the reference decoder.
type Verdict int

const (
	Reject Verdict = iota
	Accept
	Open // the protocol statement does not decide
)

func (v Verdict) String() string { return [...]string{"reject", "accept", "open"}[v] }

// MaxStyle is the highest defined style code.
const MaxStyle = 6

// Decode is the reference decoder of the general entry point.
func Decode(b []byte) (Verdict, *Layout, Values) {
	if len(b) < 12 || !bytes.Equal(b[:8], ID) {
		return Reject, nil, nil
	}
	l := ByOp(binary.LittleEndian.Uint16(b[8:]))
	if l == nil {
		return Reject, nil, nil
	}
	return l.DecodeAs(b)
}

// DecodeAs is the reference decoder for one type.
func (l *Layout) DecodeAs(b []byte) (Verdict, *Layout, Values) {
	if len(b) < 12 || !bytes.Equal(b[:8], ID) || binary.LittleEndian.Uint16(b[8:]) != l.OpCode {
		return Reject, nil, nil
	}
	verdict := Accept
	if !l.NoVer {
		if b[11] < 14 {
			if b[10] == 0 {
				return Reject, nil, nil
			}
			verdict = Open // version numbers above 255 are not in use
		}
	}
	if l.Name == "ArtDMX" {
		if len(b) < 18 {
			return Reject, nil, nil
		}
		n := int(binary.BigEndian.Uint16(b[16:]))
		if n < 2 || n > 512 || n%2 != 0 || len(b) < 18+n {
			return Reject, nil, nil
		}
		full := make([]byte, 530)
		copy(full, b[:18+n])
		b = full
	}
	if len(b) < l.Size {
		return Reject, nil, nil
	}
	v := Values{}
	for i := range l.Fields {
		v[l.Fields[i].Name] = l.Fields[i].Get(b)
	}
	switch l.Name {
	case "ArtPollReply":
		p := binary.BigEndian.Uint16(v["Port"])
		if p != 6454 && p != 0x3619 {
			return Reject, nil, nil
		}
		v["Port"] = []byte{0x19, 0x36}
		if v["Style"][0] > MaxStyle {
			return Reject, nil, nil
		}
	case "ArtCommand":
		if !bytes.Equal(v["ESTAmanufacturer"], []byte{0xff, 0xff}) {
			return Reject, nil, nil
		}
	}
	return verdict, l, v
}
