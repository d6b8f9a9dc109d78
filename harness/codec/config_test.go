package codec

import (
	"fmt"
	"reflect"
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"pgregory.net/rapid"

	"verif/cfg"
	"verif/fgen"
	"verif/ref"
	"verif/vlib"
)

var replyL = ref.ByName("ArtPollReply")

// ---- C09 ------------------------------------------------------------------

func cfgLabels(c *cfg.Config) []string {
	l := []string{fmt.Sprintf("%d in", len(c.In)), fmt.Sprintf("%d out", len(c.Out))}
	if len(c.Name) > 17 || len(c.Description) > 63 {
		l = append(l, "name cut")
	}
	return l
}

func execC09(_ *testing.T, c cfg.Config) vlib.Result {
	r := vlib.Result{Labels: cfgLabels(&c), NonTrivial: len(c.In)+len(c.Out) > 0}
	lib := c.Lib()
	p := artnet.ArtPollReplyFromConfig(lib)
	if p == nil {
		return r.Fail("no announcement")
	}
	if d := ref.Diff(p, replyL, c.Reply()); d != "" {
		return r.Fail("announcement: %s", d)
	}
	if !reflect.DeepEqual(lib, c.Lib()) {
		return r.Fail("building the announcement changed the configuration")
	}
	b, err := p.MarshalBinary()
	if err != nil {
		return r.Fail("encoding the announcement: %v", err)
	}
	if d := diffAt(b, c.Frame()); d != "" {
		return r.Fail("announcement on the wire: %s", d)
	}
	if n := lib.NumberOfPorts(); int(n) != max(len(c.In), len(c.Out)) {
		return r.Fail("NumberOfPorts() = %d for %d inputs and %d outputs", n, len(c.In), len(c.Out))
	}
	pt := lib.PortTypes()
	for i := range pt {
		if uint8(pt[i]) != c.Reply()["PortTypes"][i] {
			return r.Fail("PortTypes()[%d] = %#x, want %#x", i, uint8(pt[i]), c.Reply()["PortTypes"][i])
		}
	}
	return r
}

func TestC09(t *testing.T) {
	vlib.Check(t, "C09", func(t *rapid.T) cfg.Config { return cfg.Gen(t, cfg.Opts{ValidPorts: true}) }, execC09)
}

type cfgPair struct {
	A cfg.Config `json:"a"`
	B cfg.Config `json:"b"`
}

// TestC09Pair announces two configurations that differ in one thing.
func TestC09Pair(t *testing.T) {
	vlib.Check(t, "C09", func(t *rapid.T) cfgPair {
		a := cfg.Gen(t, cfg.Opts{ValidPorts: true})
		return cfgPair{a, cfg.OneOff(t, a, cfg.Gen(t, cfg.Opts{ValidPorts: true}))}
	}, func(t *testing.T, c cfgPair) vlib.Result {
		r := vlib.Result{Labels: []string{"pair"}, NonTrivial: !reflect.DeepEqual(c.A, c.B)}
		p := artnet.ArtPollReplyFromConfig(c.A.Lib())
		if e := execC09(t, c.B).Err; e != nil {
			return r.Fail("after another announcement: %v", e)
		}
		if d := ref.Diff(p, replyL, c.A.Reply()); d != "" {
			return r.Fail("announcement, after another was built: %s", d)
		}
		if e := execC09(t, c.A).Err; e != nil {
			return r.Fail("after another announcement: %v", e)
		}
		return r
	})
}

// ---- C10 ------------------------------------------------------------------

type readCase struct {
	Fields Fields `json:"fields"`
	Other  string `json:"other,omitempty"` // a field in which another announcement differs
	Value  Hex    `json:"value,omitempty"`
}

func TestC10(t *testing.T) {
	vlib.Check(t, "C10", func(t *rapid.T) readCase {
		f := genFields(t, replyL, true)
		for i := range replyL.Fields {
			fd := &replyL.Fields[i]
			if f[fd.Name] == nil {
				f[fd.Name] = make(Hex, fd.Size)
			}
		}
		f["Port"] = Hex{0x19, 0x36}
		f["NetSwitch"][0] &= 0x7f
		f["NumPorts"] = rapid.SampledFrom([]Hex{{0, 4}, {0, 1}, {0, 2}, {0, 3}, {0, 0}, {0, 5}, {0, 8}, {1, 0}, {255, 255}, {4, 0}, {0, 255}}).Draw(t, "numports")
		for i := 0; i < 4; i++ {
			if rapid.IntRange(0, 2).Draw(t, "dir") > 0 {
				f["PortTypes"][i] = f["PortTypes"][i]&0x3f | rapid.SampledFrom([]byte{0x80, 0xc0, 0x40, 0}).Draw(t, "dirv")
			}
		}
		fd := &replyL.Fields[fgen.Roll(t, len(replyL.Fields), "other")]
		g := genFields(t, replyL, true)[fd.Name]
		if g == nil || fd.Name == "Port" || fd.Name == "NetSwitch" {
			return readCase{Fields: f}
		}
		return readCase{f, fd.Name, g}
	}, func(_ *testing.T, c readCase) vlib.Result {
		v := c.Fields.Ref()
		want := cfg.Read(v)
		r := vlib.Result{Labels: []string{fmt.Sprintf("%d in", len(want.In)), fmt.Sprintf("%d out", len(want.Out))}, NonTrivial: len(want.In)+len(want.Out) > 0}
		var p packet.ArtPollReplyPacket
		ref.Set(&p, v)
		n := artnet.ConfigFromArtPollReply(p)
		if e := cfg.CompareRead(n, v); e != nil {
			return r.Fail("read from the packet: %v", e)
		}
		// and from the wire
		q, err := packet.Unmarshal(replyL.Encode(v, true))
		if err != nil {
			return r.Fail("announcement refused: %v", err)
		}
		qp := q.(*packet.ArtPollReplyPacket)
		m := artnet.ConfigFromArtPollReply(*qp)
		if e := cfg.CompareRead(m, v); e != nil {
			return r.Fail("read from the wire: %v", e)
		}
		if c.Other != "" { // read one that differs in one field
			o := c.Fields.Ref()
			o[c.Other] = c.Value
			var p2 packet.ArtPollReplyPacket
			ref.Set(&p2, o)
			if e := cfg.CompareRead(artnet.ConfigFromArtPollReply(p2), o); e != nil {
				return r.Fail("read from another packet: %v", e)
			}
		}
		// the configuration is a value of its own
		*qp = packet.ArtPollReplyPacket{}
		p = packet.ArtPollReplyPacket{}
		artnet.ConfigFromArtPollReply(p)
		if e := cfg.CompareRead(m, v); e != nil {
			return r.Fail("after reusing the packet: %v", e)
		}
		return r
	})
}

func TestC10RoundTrip(t *testing.T) {
	vlib.Check(t, "C10", func(t *rapid.T) cfg.Config {
		return cfg.Gen(t, cfg.Opts{ValidPorts: true, ASCII: true, WithinBase: true})
	}, func(_ *testing.T, c cfg.Config) vlib.Result {
		r := vlib.Result{Labels: append(cfgLabels(&c), "round trip"), NonTrivial: len(c.In)+len(c.Out) > 0}
		orig := c.Lib()
		b, err := artnet.ArtPollReplyFromConfig(orig).MarshalBinary()
		if err != nil {
			return r.Fail("encoding: %v", err)
		}
		q, err := packet.Unmarshal(b)
		if err != nil {
			return r.Fail("decoding: %v", err)
		}
		n := artnet.ConfigFromArtPollReply(*q.(*packet.ArtPollReplyPacket))
		if n.OEM != orig.OEM || n.Version != orig.Version || n.BiosVersion != orig.BiosVersion || n.Manufacturer != orig.Manufacturer ||
			n.Type != orig.Type || n.Name != orig.Name || n.Description != orig.Description || n.BindIndex != orig.BindIndex ||
			n.Status1 != orig.Status1 || n.Status2 != orig.Status2 || n.BaseAddress != orig.BaseAddress {
			return r.Fail("identity not restored: got %+v, announced %+v", n, orig)
		}
		if len(orig.IP) > 0 && !n.IP.Equal(orig.IP) || len(orig.BindIP) > 0 && !n.BindIP.Equal(orig.BindIP) || len(orig.Ethernet) > 0 && n.Ethernet.String() != orig.Ethernet.String() {
			return r.Fail("addresses not restored: got %v %v %v, announced %v %v %v", n.IP, n.BindIP, n.Ethernet, orig.IP, orig.BindIP, orig.Ethernet)
		}
		if len(n.InputPorts) != len(orig.InputPorts) || len(n.OutputPorts) != len(orig.OutputPorts) {
			return r.Fail("%d inputs and %d outputs restored, announced %d and %d", len(n.InputPorts), len(n.OutputPorts), len(orig.InputPorts), len(orig.OutputPorts))
		}
		for i, p := range orig.InputPorts {
			g := n.InputPorts[i]
			if g.Address != p.Address || g.Type.Type() != p.Type.Type() || !g.Type.Input() || g.Status != p.Status {
				return r.Fail("input port %d restored as %+v, announced %+v", i, g, p)
			}
		}
		for i, p := range orig.OutputPorts {
			g := n.OutputPorts[i]
			if g.Address != p.Address || g.Type.Type() != p.Type.Type() || !g.Type.Output() || g.Status != p.Status {
				return r.Fail("output port %d restored as %+v, announced %+v", i, g, p)
			}
		}
		return r
	})
}
