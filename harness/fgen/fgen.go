// Package fgen generates Art-Net byte strings and field values.
package fgen

import (
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"

	"verif/dict"
	"verif/ref"
)

// Hex is a byte string shown as hex in replay files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

// Fields are generated field values.
type Fields map[string]Hex

func (f Fields) Ref() ref.Values {
	v := ref.Values{}
	for k, b := range f {
		v[k] = append([]byte(nil), b...)
	}
	return v
}

var rolls = map[int]*rapid.Generator[int]{}

// Roll draws from 0..n-1; rapid favours values near the edges, so callers put
// the common choices there.
func Roll(t *rapid.T, n int, label string) int {
	g := rolls[n]
	if g == nil {
		s := make([]int, n)
		for i := range s {
			s[i] = i
		}
		g = rapid.SampledFrom(s)
		rolls[n] = g
	}
	return g.Draw(t, label)
}

func Mix(seed uint64, i int) byte {
	z := seed + uint64(i+1)*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return byte(z ^ (z >> 31))
}

// Bytes draws n bytes: every byte freely for short fields, a shaped pattern
// with a few free bytes for long ones.
func Bytes(t *rapid.T, n int, label string) Hex {
	b := make(Hex, n)
	if n <= 6 {
		for i := range b {
			b[i] = rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 1, 0x0e, 0x7f, 0x80, 0xff})).Draw(t, label)
		}
		dict.Edit(t, b, label)
		return b
	}
	switch Roll(t, 5, label+".kind") {
	case 0:
	case 1:
		c := rapid.Byte().Draw(t, label+".fill")
		for i := range b {
			b[i] = c
		}
	case 2:
		s := rapid.Byte().Draw(t, label+".ramp")
		for i := range b {
			b[i] = s + byte(i)
		}
	default:
		s := rapid.Uint64().Draw(t, label+".mix")
		for i := range b {
			b[i] = Mix(s, i)
		}
	}
	for k := rapid.IntRange(0, 3).Draw(t, label+".edits"); k > 0; k-- {
		b[rapid.OneOf(rapid.IntRange(0, n-1), rapid.SampledFrom([]int{0, 1, n - 2, n - 1})).Draw(t, label+".at")] =
			rapid.Byte().Draw(t, label+".val")
	}
	dict.Edit(t, b, label)
	return b
}

func Type(t *rapid.T) *ref.Layout {
	return &ref.Layouts[Roll(t, len(ref.Layouts), "type")]
}

// GenFields draws a value for some or all fields of the layout.
func GenFields(t *rapid.T, l *ref.Layout, validStyle bool) Fields {
	v := Fields{}
	for i := range l.Fields {
		fd := &l.Fields[i]
		if Roll(t, 10, "have") == 0 {
			continue
		}
		if fd.Name == "Style" && validStyle {
			v[fd.Name] = Hex{byte(rapid.IntRange(0, ref.MaxStyle).Draw(t, "style"))}
			continue
		}
		v[fd.Name] = Bytes(t, fd.Size, fd.Name)
	}
	return v
}

// Hdr is garbage header content.
type Hdr struct {
	ID  Hex    `json:"id"`
	Op  uint16 `json:"op"`
	Ver Hex    `json:"ver"`
}

func (h *Hdr) Ref() ref.Header { return ref.Header{ID: h.ID, OpCode: h.Op, Version: h.Ver} }

func GenHdr(t *rapid.T) *Hdr {
	if !rapid.Bool().Draw(t, "hdr") {
		return nil
	}
	h := &Hdr{ID: Hex(ref.ID)}
	if rapid.Bool().Draw(t, "idg") {
		h.ID = make(Hex, 8)
		for i := range h.ID {
			h.ID[i] = rapid.Byte().Draw(t, "idb")
		}
	}
	h.Op = Op(t)
	h.Ver = Hex{rapid.Byte().Draw(t, "vh"), rapid.Byte().Draw(t, "vl")}
	return h
}

// opcodes defined by the protocol but not implemented by the library
var OtherOps = []uint16{0x7000, 0x8000, 0x8100, 0x8200, 0x8300, 0x8400, 0x9000, 0x9100, 0x9200, 0x9300, 0x9800, 0x9a00, 0x9b00,
	0xa010, 0xa020, 0xa040, 0xf000, 0xf100, 0xf200, 0xf300, 0xf400, 0xf500, 0xf600}

func Op(t *rapid.T) uint16 {
	if x, ok := dict.Int(t, 0, 65535, "op"); ok {
		return uint16(x)
	}
	switch Roll(t, 6, "opk") {
	case 0:
		return rapid.SampledFrom(OtherOps).Draw(t, "op")
	case 1:
		return rapid.Uint16().Draw(t, "op")
	case 2:
		o := Type(t).OpCode
		return o>>8 | o<<8
	case 3:
		return Type(t).OpCode ^ 1<<Roll(t, 16, "opbit")
	default:
		return Type(t).OpCode
	}
}

// Frame draws a byte string around the shape of a valid frame.
func Frame(t *rapid.T) (b Hex) {
	hint, hinted := dict.Int(t, 0, 5000, "size")
	switch Roll(t, 12, "fk") {
	case 5: // arbitrary bytes
		n := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 700), rapid.IntRange(0, 5000)).Draw(t, "n")
		if hinted {
			n = hint
		}
		if n <= 40 {
			return Hex(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "raw"))
		}
		return Bytes(t, n, "raw")
	case 6: // identifier and arbitrary rest
		n := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 700)).Draw(t, "n")
		b := append(Hex{}, ref.ID...)
		return append(b, Bytes(t, n, "rest")...)
	case 7: // identifier, known opcode, arbitrary rest
		b := append(Hex{}, ref.ID...)
		b = binary.LittleEndian.AppendUint16(b, Op(t))
		b = append(b, 0, 14)
		n := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 700)).Draw(t, "n")
		return append(b, Bytes(t, n, "rest")...)
	}
	defer func() {
		if hinted && hint <= len(b) {
			b = b[:hint]
		} else if hinted {
			b = append(b, Bytes(t, hint-len(b), "hinttail")...)
		}
	}()
	l := Type(t)
	v := GenFields(t, l, Roll(t, 5, "vs") > 0)
	force := Roll(t, 4, "force") > 0
	b = Hex(l.Encode(v.Ref(), force))
	if l.NoVer && Roll(t, 5, "port") == 0 {
		p := rapid.SampledFrom([][]byte{{0x19, 0x36}, {0x36, 0x19}, {0x36, 0x36}, {0x19, 0x19}, {0, 0}, {0x37, 0x19}}).Draw(t, "pv")
		copy(b[14:16], p)
	}
	// bytes the layout does not name
	if rapid.Bool().Draw(t, "fillers") {
		used := make([]bool, len(b))
		for i := range l.Fields {
			for k := 0; k < l.Fields[i].Size; k++ {
				used[l.Fields[i].Off+k] = true
			}
		}
		s := rapid.Uint64().Draw(t, "fs")
		for i := 12; i < len(b); i++ {
			if !used[i] {
				b[i] = Mix(s, i)
			}
		}
	}
	if l.Name == "ArtDMX" && rapid.Bool().Draw(t, "dmxlen") {
		n := rapid.OneOf(rapid.IntRange(0, 520), rapid.SampledFrom([]int{0, 1, 2, 3, 4, 511, 512, 513, 514, 768, 1024, 65535, 65534, 256, 257, 258})).Draw(t, "len")
		if x, ok := dict.Int(t, 0, 65535, "len"); ok {
			n = x
		}
		binary.BigEndian.PutUint16(b[16:], uint16(n))
		switch Roll(t, 4, "cut") {
		case 0:
			if 18+n <= len(b) {
				b = b[:18+n]
			}
		case 1:
			if m := 18 + n - rapid.IntRange(1, 4).Draw(t, "short"); m >= 0 && m < len(b) {
				b = b[:m]
			}
		}
	}
	switch Roll(t, 10, "mut") {
	case 8: // truncated
		b = b[:rapid.OneOf(rapid.IntRange(0, len(b)), rapid.IntRange(max(0, len(b)-3), len(b))).Draw(t, "tr")]
	case 1, 7: // trailing bytes
		b = append(b, Bytes(t, rapid.OneOf(rapid.IntRange(0, 6), rapid.IntRange(0, 3600)).Draw(t, "tail"), "tailb")...)
	case 3: // one byte of the header changed
		if len(b) >= 12 {
			b[Roll(t, 12, "hb")] = rapid.Byte().Draw(t, "hv")
		}
	case 4: // one bit flipped anywhere
		if len(b) > 0 {
			b[rapid.IntRange(0, len(b)-1).Draw(t, "bb")] ^= 1 << Roll(t, 8, "bit")
		}
	case 5: // version
		if len(b) >= 12 && !l.NoVer {
			b[10] = rapid.SampledFrom([]byte{0, 0, 0, 1, 0x0e, 0xff}).Draw(t, "v0")
			b[11] = rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 13, 14, 15, 0x80, 0xff}), rapid.Byte()).Draw(t, "v1")
		}
	case 6: // opcode replaced
		if len(b) >= 12 {
			binary.LittleEndian.PutUint16(b[8:], Op(t))
		}
	}
	return b
}

func Sprint(v ref.Values) string {
	s := ""
	for k, b := range v {
		s += fmt.Sprintf("%s=%x ", k, b)
	}
	return s
}
