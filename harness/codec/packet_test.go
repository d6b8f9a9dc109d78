package codec

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"maps"
	"reflect"
	"slices"
	"testing"

	"github.com/jsimonetti/go-artnet/packet"
	"pgregory.net/rapid"

	"verif/dict"
	"verif/ref"
	"verif/vlib"
)

// ---- C01 ------------------------------------------------------------------

type encCase struct {
	Type   string `json:"type"`
	Ctor   bool   `json:"ctor"`
	Fields Fields `json:"fields"`
	Hdr    *Hdr   `json:"hdr,omitempty"`
}

func genEnc(t *rapid.T, validStyle bool) encCase {
	l := genType(t)
	return encCase{Type: l.Name, Ctor: rapid.Bool().Draw(t, "ctor"), Fields: genFields(t, l, validStyle), Hdr: genHdr(t)}
}

func (c encCase) build() (packet.ArtNetPacket, *ref.Layout) {
	p := ref.New(c.Type, c.Ctor)
	ref.Set(p, c.Fields.Ref())
	if c.Hdr != nil {
		ref.SetHeader(p, c.Hdr.Ref())
	}
	return p, ref.ByName(c.Type)
}

func (c encCase) trivial() bool {
	for _, b := range c.Fields {
		for _, x := range b {
			if x != 0 {
				return false
			}
		}
	}
	return c.Hdr == nil && len(ref.ByName(c.Type).Fields) > 0
}

func diffAt(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("frame has %d bytes, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("byte %d is %#02x, want %#02x", i, got[i], want[i])
		}
	}
	return ""
}

func execC01(_ *testing.T, c encCase) vlib.Result {
	p, l := c.build()
	r := vlib.Result{Labels: []string{c.Type}, NonTrivial: !c.trivial()}
	if c.Hdr != nil {
		r.Labels = append(r.Labels, "header pre-filled")
	}
	want := l.Encode(c.Fields.Ref(), true)
	got, err := p.MarshalBinary()
	if err != nil {
		return r.Fail("encoding %s: unexpected error %v", c.Type, err)
	}
	if d := diffAt(got, want); d != "" {
		return r.Fail("encoding %s: %s", c.Type, d)
	}
	return r
}

func TestC01(t *testing.T) {
	vlib.Check(t, "C01", func(t *rapid.T) encCase { return genEnc(t, false) }, execC01)
}

// ---- C02 ------------------------------------------------------------------

func execC02(_ *testing.T, c encCase) vlib.Result {
	p, l := c.build()
	r := vlib.Result{Labels: []string{c.Type}, NonTrivial: !c.trivial()}
	want := c.Fields.Ref()
	for i := range l.Fields {
		if l.Fields[i].Fixed != nil {
			want[l.Fields[i].Name] = l.Fields[i].Fixed
		}
	}
	b, err := p.MarshalBinary()
	if err != nil {
		return r.Fail("encoding %s: unexpected error %v", c.Type, err)
	}
	check := func(how string, q packet.ArtNetPacket, err error) error {
		if err != nil {
			return fmt.Errorf("%s decoder refuses the encoded %s: %v", how, c.Type, err)
		}
		if d := ref.Diff(q, l, want); d != "" {
			return fmt.Errorf("%s decoder after encoding: %s", how, d)
		}
		if d := ref.SameOp(q, l); d != "" {
			return fmt.Errorf("%s decoder after encoding: %s", how, d)
		}
		h := ref.GetHeader(q)
		if !bytes.Equal(h.ID, ref.ID) || (h.Version != nil && !bytes.Equal(h.Version, []byte{0, 14})) {
			return fmt.Errorf("%s decoder after encoding %s: header ID %x version %x", how, c.Type, h.ID, h.Version)
		}
		return nil
	}
	q, err := packet.Unmarshal(b)
	if e := check("general", q, err); e != nil {
		return r.Fail("%v", e)
	}
	own := ref.New(c.Type, c.Ctor)
	if e := check("own", own, own.UnmarshalBinary(b)); e != nil {
		return r.Fail("%v", e)
	}
	return r
}

func TestC02(t *testing.T) {
	vlib.Check(t, "C02", func(t *rapid.T) encCase { return genEnc(t, true) }, execC02)
}

// ---- C03 ------------------------------------------------------------------

type decCase struct {
	Frame Hex    `json:"frame"`
	As    string `json:"as"`              // "" general decoder, else the type's own
	Prior Hex    `json:"prior,omitempty"` // decoded into the reused value before
	Dirty Fields `json:"dirty,omitempty"` // fields set in the reused value before
	Enc   bool   `json:"enc,omitempty"`   // the reused value was encoded before
	Hdr   *Hdr   `json:"hdr,omitempty"`
}

func genDec(t *rapid.T) decCase {
	c := decCase{Frame: genFrame(t)}
	l := genType(t)
	if len(c.Frame) >= 10 && roll(t, 4, "match") > 0 {
		if m := ref.ByOp(binary.LittleEndian.Uint16(c.Frame[8:])); m != nil {
			l = m
		}
	}
	if roll(t, 3, "own") > 0 {
		c.As = l.Name
		if rapid.Bool().Draw(t, "prior") {
			c.Prior = Hex(l.Encode(genFields(t, l, true).Ref(), true))
		}
		if rapid.Bool().Draw(t, "dirty") {
			c.Dirty = genFields(t, l, false)
			c.Hdr = genHdr(t)
		}
		c.Enc = roll(t, 4, "enc") == 0
	}
	return c
}

// decode runs one decoder.
func decode(as string, p packet.ArtNetPacket, b []byte) (packet.ArtNetPacket, error) {
	if as == "" {
		return packet.Unmarshal(b)
	}
	if p == nil {
		p = ref.New(as, false)
	}
	return p, p.UnmarshalBinary(b)
}

func decLabels(c decCase) ([]string, bool) {
	v, l, _ := ref.Decode(c.Frame)
	lab := []string{"general: " + v.String()}
	if c.As != "" {
		v2, _, _ := ref.ByName(c.As).DecodeAs(c.Frame)
		lab = []string{"own: " + v2.String()}
		v = v2
	}
	if l != nil {
		lab = append(lab, l.Name)
	}
	shaped := len(c.Frame) >= 12 && bytes.Equal(c.Frame[:8], ref.ID)
	if shaped && v == ref.Reject {
		lab = append(lab, "near-valid reject")
	}
	return lab, shaped
}

func execC03(_ *testing.T, c decCase) vlib.Result {
	var r vlib.Result
	r.Labels, r.NonTrivial = decLabels(c)
	const guard = 64
	buf := make([]byte, len(c.Frame)+guard)
	copy(buf, c.Frame)
	for i := 0; i < guard; i++ {
		buf[len(c.Frame)+i] = 0xa5
	}
	in := buf[:len(c.Frame)]
	fresh, err := decode(c.As, nil, in)
	if !bytes.Equal(in, c.Frame) {
		return r.Fail("decoding modified its input: %s", diffAt(in, c.Frame))
	}
	for i := 0; i < guard; i++ {
		if buf[len(c.Frame)+i] != 0xa5 {
			return r.Fail("decoding modified memory behind its input")
		}
	}
	if err == nil {
		if fresh == nil || reflect.ValueOf(fresh).IsNil() {
			return r.Fail("decoder returned neither packet nor error")
		}
		l := ref.ByName(ref.TypeName(fresh))
		if l == nil {
			return r.Fail("decoder returned unknown packet type %T", fresh)
		}
		before, hb := ref.Get(fresh, l), ref.GetHeader(fresh)
		for i := range buf {
			buf[i] ^= 0x5a
		}
		if !reflect.DeepEqual(before, ref.Get(fresh, l)) || !reflect.DeepEqual(hb, ref.GetHeader(fresh)) {
			return r.Fail("decoded %s changes when the input buffer is reused", l.Name)
		}
	}
	// decoding other bytes later leaves the earlier result alone
	if err == nil {
		l := ref.ByName(ref.TypeName(fresh))
		before, hb := ref.Get(fresh, l), ref.GetHeader(fresh)
		other := l.Encode(ref.Values{}, true)
		for i := 12; i < len(other); i++ {
			other[i] ^= 0x33
		}
		packet.Unmarshal(other)
		packet.Unmarshal(c.Prior)
		ref.New(l.Name, false).UnmarshalBinary(other)
		if !reflect.DeepEqual(before, ref.Get(fresh, l)) || !reflect.DeepEqual(hb, ref.GetHeader(fresh)) {
			return r.Fail("decoded %s changes when other bytes are decoded later", l.Name)
		}
	}
	// determinism, and decoding into a used value
	again, err2 := decode(c.As, nil, c.Frame)
	if (err == nil) != (err2 == nil) {
		return r.Fail("same bytes decoded twice: first err=%v, then err=%v", err, err2)
	}
	if err == nil && !reflect.DeepEqual(fresh, again) {
		return r.Fail("same bytes decoded twice give different packets")
	}
	if c.As != "" {
		used := ref.New(c.As, false)
		if c.Dirty != nil {
			ref.Set(used, c.Dirty.Ref())
		}
		if c.Hdr != nil {
			ref.SetHeader(used, c.Hdr.Ref())
		}
		if c.Prior != nil {
			used.UnmarshalBinary(c.Prior)
			r.Labels = append(r.Labels, "reused value")
		}
		if c.Enc {
			used.MarshalBinary()
		}
		err3 := used.UnmarshalBinary(c.Frame)
		if (err == nil) != (err3 == nil) {
			return r.Fail("decoding into a used %s: err=%v, into a fresh one: err=%v", c.As, err3, err)
		}
		if err == nil && !reflect.DeepEqual(fresh, used) {
			l := ref.ByName(c.As)
			return r.Fail("decoding into a used %s differs from a fresh one: %s", c.As, ref.Diff(used, l, ref.Get(fresh, l)))
		}
	}
	return r
}

func TestC03(t *testing.T) { vlib.Check(t, "C03", genDec, execC03) }

// ---- C04 ------------------------------------------------------------------

func execC04(_ *testing.T, c decCase) vlib.Result {
	var r vlib.Result
	r.Labels, r.NonTrivial = decLabels(c)
	one := func(as string) error {
		var v ref.Verdict
		var l *ref.Layout
		var want ref.Values
		how := "general decoder"
		if as == "" {
			v, l, want = ref.Decode(c.Frame)
		} else {
			v, l, want = ref.ByName(as).DecodeAs(c.Frame)
			how = as + " decoder"
		}
		p, err := decode(as, nil, c.Frame)
		switch {
		case v == ref.Reject && err == nil:
			return fmt.Errorf("%s accepted a frame it must reject, as %s", how, ref.TypeName(p))
		case v == ref.Accept && err != nil:
			return fmt.Errorf("%s rejected a well-formed %s: %v", how, l.Name, err)
		case err != nil:
			return nil
		}
		if d := ref.Diff(p, l, want); d != "" {
			return fmt.Errorf("%s: %s", how, d)
		}
		if d := ref.SameOp(p, l); d != "" {
			return fmt.Errorf("%s: %s", how, d)
		}
		return nil
	}
	if e := one(""); e != nil {
		return r.Fail("%v", e)
	}
	if c.As != "" {
		if e := one(c.As); e != nil {
			return r.Fail("%v", e)
		}
	}
	return r
}

func TestC04(t *testing.T) { vlib.Check(t, "C04", genDec, execC04) }

// TestC04Headers enumerates every opcode and version over a frame long enough
// for every type.
type opCase struct {
	Hi byte `json:"hi"`
}

func TestC04Headers(t *testing.T) {
	vlib.Enumerate(t, "C04", func(yield func(opCase) bool) {
		for hi := 0; hi < 256; hi++ {
			if !yield(opCase{byte(hi)}) {
				return
			}
		}
	}, func(_ *testing.T, c opCase) vlib.Result {
		r := vlib.Result{Labels: []string{"all opcodes x versions"}, NonTrivial: true}
		b := make([]byte, 600)
		copy(b, ref.ID)
		for lo := 0; lo < 256; lo++ {
			b[8], b[9] = byte(lo), c.Hi
			vers := []byte{0, 13, 14, 15, 255}
			if ref.ByOp(uint16(c.Hi)<<8|uint16(lo)) != nil {
				vers = vers[:0]
				for v := 0; v < 256; v++ {
					vers = append(vers, byte(v))
				}
			}
			for _, v := range vers {
				b[10], b[11] = 0, v
				b[12], b[13], b[14], b[15], b[16], b[17] = 0xff, 0xff, 0x36, 0x19, 2, 0
				x := execC04(nil, decCase{Frame: b})
				r.Evals++
				if x.Err != nil {
					return r.Fail("opcode %#02x%02x version %d: %v", c.Hi, lo, v, x.Err)
				}
			}
		}
		return r
	})
}

// TestC04Lengths enumerates every prefix length of a frame of every type.
type lenCase struct {
	Type string `json:"type"`
	Len  int    `json:"len"`
}

func TestC04Lengths(t *testing.T) {
	vlib.Enumerate(t, "C04", func(yield func(lenCase) bool) {
		for i := range ref.Layouts {
			for n := 0; n <= ref.Layouts[i].Size+3; n++ {
				if !yield(lenCase{ref.Layouts[i].Name, n}) {
					return
				}
			}
		}
	}, func(_ *testing.T, c lenCase) vlib.Result {
		l := ref.ByName(c.Type)
		b := append(l.Encode(ref.Values{}, true), 1, 2, 3)[:c.Len]
		return execC04(nil, decCase{Frame: b, As: c.Type})
	})
}

// TestC04Fields enumerates every value of the validated fields.
type fieldCase struct {
	What string `json:"what"`
	Hi   int    `json:"hi"`
}

func TestC04Fields(t *testing.T) {
	vlib.Enumerate(t, "C04", func(yield func(fieldCase) bool) {
		for _, w := range []string{"style", "port", "manufacturer"} {
			for hi := 0; hi < 256; hi++ {
				if !yield(fieldCase{w, hi}) {
					return
				}
			}
		}
	}, func(_ *testing.T, c fieldCase) vlib.Result {
		r := vlib.Result{Labels: []string{c.What}, NonTrivial: true}
		try := func(b []byte, as string) error { r.Evals++; return execC04(nil, decCase{Frame: b, As: as}).Err }
		var err error
		switch c.What {
		case "style":
			b := ref.ByName("ArtPollReply").Encode(ref.Values{}, true)
			b[200] = byte(c.Hi)
			err = try(b, "ArtPollReply")
		case "port":
			b := ref.ByName("ArtPollReply").Encode(ref.Values{}, true)
			for lo := 0; lo < 256 && err == nil; lo++ {
				b[14], b[15] = byte(lo), byte(c.Hi)
				err = try(b, "ArtPollReply")
			}
		case "manufacturer":
			b := ref.ByName("ArtCommand").Encode(ref.Values{}, true)
			for lo := 0; lo < 256 && err == nil; lo++ {
				b[12], b[13] = byte(lo), byte(c.Hi)
				err = try(b, "ArtCommand")
			}
		}
		if err != nil {
			return r.Fail("%s %#x: %v", c.What, c.Hi, err)
		}
		return r
	})
}

// ---- C05 ------------------------------------------------------------------

type histOp struct {
	Op    string `json:"op"` // set, hdr, encode, decode, scribble, other (encode another value)
	Field string `json:"field,omitempty"`
	Val   Hex    `json:"val,omitempty"`
	Hdr   *Hdr   `json:"hdr,omitempty"`
	N     int    `json:"n,omitempty"`
}

type histCase struct {
	Type string   `json:"type"`
	Ctor bool     `json:"ctor"`
	Ops  []histOp `json:"ops"`
}

func genHist(t *rapid.T) histCase {
	l := genType(t)
	c := histCase{Type: l.Name, Ctor: rapid.Bool().Draw(t, "ctor")}
	op := rapid.Custom(func(t *rapid.T) histOp {
		switch k := roll(t, 10, "op"); {
		case k < 4:
			return histOp{Op: "encode"}
		case k < 6:
			if len(l.Fields) == 0 {
				return histOp{Op: "encode"}
			}
			fd := &l.Fields[roll(t, len(l.Fields), "field")]
			return histOp{Op: "set", Field: fd.Name, Val: genBytes(t, fd.Size, "v")}
		case k < 8:
			if roll(t, 3, "bad") == 0 {
				return histOp{Op: "decode", Val: genFrame(t)}
			}
			return histOp{Op: "decode", Val: Hex(l.Encode(genFields(t, l, true).Ref(), true))}
		case k == 8 && rapid.Bool().Draw(t, "oth"):
			o := l
			if rapid.Bool().Draw(t, "difft") {
				o = genType(t)
			}
			return histOp{Op: "other", Field: o.Name, Val: genBytes(t, 8, "ov")}
		case k == 8:
			return histOp{Op: "scribble", N: roll(t, 4, "which")}
		default:
			h := genHdr(t)
			if h == nil {
				return histOp{Op: "encode"}
			}
			return histOp{Op: "hdr", Hdr: h}
		}
	})
	c.Ops = rapid.SliceOfN(op, 1, 10).Draw(t, "ops")
	c.Ops = append(c.Ops, histOp{Op: "encode"})
	return c
}

func execC05(_ *testing.T, c histCase) vlib.Result {
	l := ref.ByName(c.Type)
	r := vlib.Result{Labels: []string{c.Type}}
	p := ref.New(c.Type, c.Ctor)
	type kept struct{ frame, copy []byte }
	var frames []kept
	encodes, decodes, edits := 0, 0, 0
	for i, op := range c.Ops {
		switch op.Op {
		case "set":
			edits++
			ref.Set(p, ref.Values{op.Field: op.Val})
		case "hdr":
			ref.SetHeader(p, op.Hdr.Ref())
		case "decode":
			decodes++
			err := p.UnmarshalBinary(op.Val)
			if err == nil {
				if v, _, want := l.DecodeAs(op.Val); v == ref.Accept {
					if d := ref.Diff(p, l, want); d != "" {
						return r.Fail("step %d: decode into the used value: %s", i, d)
					}
				}
			}
		case "other":
			ol := ref.ByName(op.Field)
			q := ref.New(op.Field, false)
			vals := ref.Values{}
			for fi, fd := range ol.Fields {
				b := make([]byte, fd.Size)
				for j := range b {
					b[j] = op.Val[(j+fi)%len(op.Val)]
				}
				vals[fd.Name] = b
			}
			ref.Set(q, vals)
			got, err := q.MarshalBinary()
			if err != nil {
				return r.Fail("step %d: encoding another value: unexpected error %v", i, err)
			}
			if d := diffAt(got, ol.Encode(vals, true)); d != "" {
				return r.Fail("step %d: encoding another value (%s): %s", i, op.Field, d)
			}
			frames = append(frames, kept{got, append([]byte(nil), got...)})
		case "scribble":
			if len(frames) > 0 {
				k := &frames[op.N%len(frames)]
				for j := range k.frame {
					k.frame[j] ^= 0xff
				}
				k.copy = append([]byte(nil), k.frame...)
			}
		case "encode":
			encodes++
			before := ref.Get(p, l)
			want := l.Encode(before, true)
			got, err := p.MarshalBinary()
			if err != nil {
				return r.Fail("step %d: encode: unexpected error %v", i, err)
			}
			if d := diffAt(got, want); d != "" {
				return r.Fail("step %d (encode no. %d of the value): %s", i, encodes, d)
			}
			after := ref.Get(p, l)
			for _, fd := range l.Fields {
				if fd.Fixed == nil && !bytes.Equal(before[fd.Name], after[fd.Name]) {
					return r.Fail("step %d: encoding changed field %s from %x to %x", i, fd.Name, before[fd.Name], after[fd.Name])
				}
			}
			got2, err := p.MarshalBinary()
			if err != nil || !bytes.Equal(got, got2) {
				return r.Fail("step %d: encoding again at once gives a different frame (err=%v): %s", i, err, diffAt(got2, got))
			}
			frames = append(frames, kept{got, append([]byte(nil), got...)}, kept{got2, append([]byte(nil), got2...)})
		}
		for j, k := range frames {
			if !bytes.Equal(k.frame, k.copy) {
				return r.Fail("step %d (%s) altered frame %d returned earlier", i, op.Op, j)
			}
		}
	}
	if decodes > 0 {
		r.Labels = append(r.Labels, "decoded before encode")
	}
	if encodes > 1 {
		r.Labels = append(r.Labels, "encoded repeatedly")
	}
	r.NonTrivial = encodes > 1 || decodes > 0 || edits > 0
	return r
}

func TestC05(t *testing.T) { vlib.Check(t, "C05", genHist, execC05) }

// ---- C28 ------------------------------------------------------------------

func execC28(_ *testing.T, c histCase) vlib.Result {
	l := ref.ByName(c.Type)
	r := vlib.Result{Labels: []string{c.Type}}
	p := ref.New(c.Type, c.Ctor)
	known, fixed := c.Ctor, false // the packet has an opcode; its fixed fields have been filled in
	check := func(when string) error {
		if !known {
			return nil
		}
		if d := ref.SameOp(p, l); d != "" {
			return fmt.Errorf("%s: %s", when, d)
		}
		if q, ok := p.(*packet.ArtPollReplyPacket); ok && q.OpCode != q.GetOpCode() {
			return fmt.Errorf("%s: OpCode and GetOpCode differ", when)
		}
		if fixed {
			got := ref.Get(p, l)
			for _, fd := range l.Fields {
				if fd.Fixed != nil && !bytes.Equal(got[fd.Name], fd.Fixed) {
					return fmt.Errorf("%s: field %s is %x, the protocol fixes it to %x", when, fd.Name, got[fd.Name], fd.Fixed)
				}
			}
		}
		return nil
	}
	if err := check("constructed"); err != nil {
		return r.Fail("%v", err)
	}
	if c.Ctor {
		r.Labels = append(r.Labels, "constructor")
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "set":
			ref.Set(p, ref.Values{op.Field: op.Val})
			for _, fd := range l.Fields {
				if fd.Name == op.Field && fd.Fixed != nil {
					fixed = false
				}
			}
		case "hdr":
			ref.SetHeader(p, op.Hdr.Ref())
			known = false
		case "decode":
			fixed = false
			v, _, _ := l.DecodeAs(op.Val)
			known = p.UnmarshalBinary(op.Val) == nil && v == ref.Accept
		case "other":
			ref.New(op.Field, true).MarshalBinary()
		case "encode":
			if _, err := p.MarshalBinary(); err != nil {
				return r.Fail("step %d: encode: unexpected error %v", i, err)
			}
			known, fixed = true, true
		}
		if err := check(fmt.Sprintf("after step %d (%s)", i, op.Op)); err != nil {
			return r.Fail("%v", err)
		}
	}
	r.NonTrivial = len(c.Ops) > 0
	return r
}

func TestC28(t *testing.T) { vlib.Check(t, "C28", genHist, execC28) }

// ---- C06 ------------------------------------------------------------------

type dmxCase struct {
	Length int    `json:"length"` // length field
	Avail  int    `json:"avail"`  // data bytes present
	Hdr4   Hex    `json:"hdr4"`   // sequence, physical, sub-universe, net
	Seed   uint64 `json:"seed"`
	Dirty  bool   `json:"dirty"` // also decode into a value holding other data
}

func execC06(_ *testing.T, c dmxCase) vlib.Result {
	r := vlib.Result{NonTrivial: true}
	b := make([]byte, 18+c.Avail)
	copy(b, ref.ID)
	b[9], b[11] = 0x50, 14
	copy(b[12:16], c.Hdr4)
	binary.BigEndian.PutUint16(b[16:], uint16(c.Length))
	for i := 0; i < c.Avail; i++ {
		b[18+i] = mix(c.Seed, i) | 1
	}
	legal := c.Length >= 2 && c.Length <= 512 && c.Length%2 == 0 && c.Avail >= c.Length
	switch {
	case legal && c.Avail > c.Length:
		r.Labels = append(r.Labels, "legal, bytes after the data")
	case legal:
		r.Labels = append(r.Labels, "legal, exact")
	default:
		r.Labels = append(r.Labels, "illegal")
	}
	check := func(how string, p packet.ArtNetPacket, err error) error {
		if !legal {
			if err == nil {
				return fmt.Errorf("%s: length field %d with %d data bytes accepted", how, c.Length, c.Avail)
			}
			return nil
		}
		if err != nil {
			return fmt.Errorf("%s: length field %d with %d data bytes refused: %v", how, c.Length, c.Avail, err)
		}
		d, ok := p.(*packet.ArtDMXPacket)
		if !ok {
			return fmt.Errorf("%s: got %T", how, p)
		}
		if int(d.Length) != c.Length || d.Sequence != c.Hdr4[0] || d.Physical != c.Hdr4[1] || d.SubUni != c.Hdr4[2] || d.Net != c.Hdr4[3] {
			return fmt.Errorf("%s: length %d sequence %d physical %d sub-universe %d net %d, frame has %d and %v", how, d.Length, d.Sequence, d.Physical, d.SubUni, d.Net, c.Length, []byte(c.Hdr4))
		}
		for i, x := range d.Data {
			w := byte(0)
			if i < c.Length {
				w = b[18+i]
			}
			if x != w {
				return fmt.Errorf("%s: channel %d of length %d is %d, want %d", how, i+1, c.Length, x, w)
			}
		}
		return nil
	}
	p, err := packet.Unmarshal(b)
	if e := check("general decoder", p, err); e != nil {
		return r.Fail("%v", e)
	}
	q := &packet.ArtDMXPacket{}
	if c.Dirty {
		q.Length = 512
		q.Physical = 77
		for i := range q.Data {
			q.Data[i] = 0xee
		}
	}
	if e := check("own decoder", q, q.UnmarshalBinary(b)); e != nil {
		return r.Fail("%v", e)
	}
	return r
}

func TestC06(t *testing.T) {
	vlib.Check(t, "C06", func(t *rapid.T) dmxCase {
		c := dmxCase{Length: rapid.OneOf(rapid.IntRange(0, 530), rapid.IntRange(0, 65535)).Draw(t, "length"), Seed: rapid.Uint64().Draw(t, "seed"), Dirty: rapid.Bool().Draw(t, "dirty")}
		c.Hdr4 = genBytes(t, 4, "h")
		c.Avail = rapid.OneOf(rapid.Just(c.Length), rapid.IntRange(max(0, c.Length-3), c.Length+8), rapid.IntRange(0, 4000)).Draw(t, "avail")
		return c
	}, execC06)
}

func TestC06Enum(t *testing.T) {
	vlib.Enumerate(t, "C06", func(yield func(dmxCase) bool) {
		for n := 0; n <= 1100; n++ {
			for _, a := range []int{n - 2, n - 1, n, n + 1, n + 2, 512, 513, 0} {
				if a < 0 {
					continue
				}
				if !yield(dmxCase{Length: n, Avail: a, Hdr4: Hex{byte(n), byte(a), byte(n >> 3), 5}, Seed: uint64(n), Dirty: n%2 == 0}) {
					return
				}
			}
		}
	}, execC06)
}

// ---- concurrent use of the codec (C03, C05) --------------------------------

type parCase struct {
	Frames []Hex     `json:"frames"`
	Values []encCase `json:"values"`
}

func genPar(t *rapid.T) parCase {
	return parCase{
		Frames: rapid.SliceOfN(rapid.Custom(genFrame), 2, 6).Draw(t, "frames"),
		Values: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) encCase { return genEnc(t, true) }), 2, 6).Draw(t, "values"),
	}
}

// execPar decodes different frames and encodes different values in parallel,
// each judged by the reference as if it ran alone.
func execPar(_ *testing.T, c parCase) vlib.Result {
	r := vlib.Result{NonTrivial: len(c.Frames) > 1, Labels: []string{"parallel"}}
	n := len(c.Frames) + len(c.Values)
	errs := make([]error, n)
	start := make(chan struct{})
	done := make(chan struct{}, n)
	run := func(i int, f func() error) {
		go func() {
			defer func() {
				if p := recover(); p != nil {
					errs[i] = fmt.Errorf("panic: %v", p)
				}
				done <- struct{}{}
			}()
			<-start
			for k := 0; k < 8 && errs[i] == nil; k++ {
				errs[i] = f()
			}
		}()
	}
	for i, b := range c.Frames {
		as := ""
		if len(b) >= 10 && i%2 == 1 {
			if l := ref.ByOp(binary.LittleEndian.Uint16(b[8:])); l != nil {
				as = l.Name
			}
		}
		d := decCase{Frame: b, As: as}
		run(i, func() error {
			if e := execC03(nil, d).Err; e != nil {
				return e
			}
			return execC04(nil, d).Err
		})
	}
	for i, v := range c.Values {
		run(len(c.Frames)+i, func() error {
			if e := execC01(nil, v).Err; e != nil {
				return e
			}
			return execC02(nil, v).Err
		})
	}
	close(start)
	for i := 0; i < n; i++ {
		<-done
	}
	for i, e := range errs {
		if e != nil {
			return r.Fail("in parallel with other encodes and decodes (item %d): %v", i, e)
		}
	}
	return r
}

func TestC03Par(t *testing.T) { vlib.Check(t, "C03", genPar, execPar) }
func TestC05Par(t *testing.T) { vlib.Check(t, "C05", genPar, execPar) }

// ---- many packets, all of them kept (C03, C05) ------------------------------

type manyCase struct {
	Frames []Hex     `json:"frames,omitempty"`
	Values []encCase `json:"values,omitempty"`
	N      int       `json:"n"`
}

func genMany(t *rapid.T) int {
	return dict.Pick(t, []int{3, 20, 70, 140, 270, 600, 1100}, 5000, "n")
}

func genManyDec(t *rapid.T) manyCase {
	return manyCase{Frames: rapid.SliceOfN(rapid.Custom(genFrame), 1, 3).Draw(t, "frames"), N: genMany(t)}
}

func genManyEnc(t *rapid.T) manyCase {
	return manyCase{Values: rapid.SliceOfN(rapid.Custom(func(t *rapid.T) encCase { return genEnc(t, true) }), 1, 3).Draw(t, "values"), N: genMany(t)}
}

// execManyDec decodes variants of some frames and judges all packets at the end.
func execManyDec(_ *testing.T, c manyCase) vlib.Result {
	r := vlib.Result{Labels: []string{fmt.Sprintf("kept-%d", c.N/100*100)}}
	type kept struct {
		p    packet.ArtNetPacket
		l    *ref.Layout
		want ref.Values
	}
	var all []kept
	for i := 0; i < c.N; i++ {
		b := append(Hex(nil), c.Frames[i%len(c.Frames)]...)
		if i/len(c.Frames)%4 != 0 && len(b) > 12 {
			b[12+i*7%(len(b)-12)] ^= byte(i)
		}
		v, l, want := ref.Decode(b)
		p, err := packet.Unmarshal(b)
		switch {
		case v == ref.Accept && err != nil:
			return r.Fail("decode number %d rejects a well-formed %s: %v", i, l.Name, err)
		case v == ref.Reject && err == nil:
			return r.Fail("decode number %d accepts a frame that must be rejected", i)
		case err == nil:
			all = append(all, kept{p, l, want})
		}
	}
	r.NonTrivial = len(all) > 1
	for i, k := range all {
		if d := ref.Diff(k.p, k.l, k.want); d != "" {
			return r.Fail("packet %d of %d, after all were decoded: %s", i, len(all), d)
		}
	}
	return r
}

// execManyEnc encodes variants of some packets and judges all frames at the end;
// some of them are overwritten by their owner.
func execManyEnc(_ *testing.T, c manyCase) vlib.Result {
	r := vlib.Result{Labels: []string{fmt.Sprintf("kept-%d", c.N/100*100)}, NonTrivial: c.N > 1}
	got, want := make([][]byte, c.N), make([][]byte, c.N)
	for i := range got {
		x := c.Values[i%len(c.Values)]
		f := Fields{}
		n := 0
		for _, k := range slices.Sorted(maps.Keys(x.Fields)) {
			f[k] = append(Hex(nil), x.Fields[k]...)
			if len(f[k]) > 0 && (n+i)%7 == 0 && k != "Style" {
				f[k][i%len(f[k])] ^= byte(i)
			}
			n++
		}
		x.Fields = f
		p, l := x.build()
		b, err := p.MarshalBinary()
		if err != nil {
			return r.Fail("encode number %d of %s fails: %v", i, x.Type, err)
		}
		got[i], want[i] = b, l.Encode(f.Ref(), true)
		if i%5 == 4 { // its owner does something else with it
			for k := range b {
				b[k] = 0xee
			}
			want[i] = append([]byte(nil), b...)
		}
	}
	for i := range got {
		if d := diffAt(got[i], want[i]); d != "" {
			return r.Fail("frame %d of %d, after all were encoded: %s", i, c.N, d)
		}
	}
	return r
}

func TestC03Many(t *testing.T) { vlib.Check(t, "C03", genManyDec, execManyDec) }
func TestC05Many(t *testing.T) { vlib.Check(t, "C05", genManyEnc, execManyEnc) }
