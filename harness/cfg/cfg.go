// Package cfg generates node configurations as plain data and states what an
// announcement must say about them, independently of the library.
package cfg

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"net"
	"reflect"
	"slices"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/dict"
	"verif/fgen"
	"verif/ref"
)

// Hex is a byte string shown as hex in replay files.
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }

func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	v, err := hex.DecodeString(s)
	*h = v
	return err
}

// Port of a configuration.
type Port struct {
	Net    uint8 `json:"net"`
	SubUni uint8 `json:"subuni"`
	Type   uint8 `json:"type"`
	Status uint8 `json:"status"`
}

// Config is a generated node configuration.
type Config struct {
	OEM          uint16 `json:"oem,omitempty"`
	Version      uint16 `json:"version,omitempty"`
	Bios         uint8  `json:"bios,omitempty"`
	Manufacturer Hex    `json:"manufacturer,omitempty"`
	Style        uint8  `json:"style"`
	Name         Hex    `json:"name,omitempty"`
	Description  Hex    `json:"description,omitempty"`
	Ethernet     Hex    `json:"ethernet,omitempty"`
	IP           Hex    `json:"ip,omitempty"`
	IP16         bool   `json:"ip16,omitempty"` // IPv4 in its 16-byte form
	BindIP       Hex    `json:"bindip,omitempty"`
	BindIP16     bool   `json:"bindip16,omitempty"`
	BindIndex    uint8  `json:"bindindex,omitempty"`
	Report       Hex    `json:"report,omitempty"`
	Status1      uint8  `json:"status1,omitempty"`
	Status2      uint8  `json:"status2,omitempty"`
	BaseNet      uint8  `json:"basenet"`
	BaseSubUni   uint8  `json:"basesubuni"`
	In           []Port `json:"in,omitempty"`
	Out          []Port `json:"out,omitempty"`
}

func ipOf(b []byte, sixteen bool) net.IP {
	if len(b) == 0 {
		return nil
	}
	ip := net.IP(append([]byte(nil), b...))
	if sixteen {
		return ip.To16()
	}
	return ip
}

// Lib converts to the library's type.
func (c *Config) Lib() artnet.NodeConfig {
	n := artnet.NodeConfig{
		OEM: c.OEM, Version: c.Version, BiosVersion: c.Bios, Manufacturer: string(c.Manufacturer), Type: code.StyleCode(c.Style),
		Name: string(c.Name), Description: string(c.Description), IP: ipOf(c.IP, c.IP16), BindIP: ipOf(c.BindIP, c.BindIP16),
		BindIndex: c.BindIndex, Status1: code.Status1(c.Status1), Status2: code.Status2(c.Status2),
		BaseAddress: artnet.Address{Net: c.BaseNet, SubUni: c.BaseSubUni},
	}
	if c.Ethernet != nil {
		n.Ethernet = net.HardwareAddr(append([]byte(nil), c.Ethernet...))
	}
	for _, x := range c.Report {
		n.Report = append(n.Report, code.NodeReportCode(x))
	}
	for _, p := range c.In {
		n.InputPorts = append(n.InputPorts, artnet.InputPort{Address: artnet.Address{Net: p.Net, SubUni: p.SubUni}, Type: code.PortType(p.Type), Status: code.GoodInput(p.Status)})
	}
	for _, p := range c.Out {
		n.OutputPorts = append(n.OutputPorts, artnet.OutputPort{Address: artnet.Address{Net: p.Net, SubUni: p.SubUni}, Type: code.PortType(p.Type), Status: code.GoodOutput(p.Status)})
	}
	return n
}

func prefix(b []byte, n int) []byte {
	if len(b) > n {
		b = b[:n]
	}
	return b
}

func pad(b []byte, n int) []byte {
	o := make([]byte, n)
	copy(o, b)
	return o
}

// Reply are the field values the announcement of the configuration must have.
func (c *Config) Reply() ref.Values {
	n := max(len(c.In), len(c.Out))
	v := ref.Values{
		"IPAddress": pad(c.IP, 4), "Port": {0x19, 0x36}, "VersionInfo": {byte(c.Version >> 8), byte(c.Version)},
		"NetSwitch": {c.BaseNet}, "SubSwitch": {c.BaseSubUni >> 4}, "Oem": {byte(c.OEM >> 8), byte(c.OEM)},
		"UBEAVersion": {c.Bios}, "Status1": {c.Status1}, "ESTAmanufacturer": pad(prefix(c.Manufacturer, 2), 2),
		"ShortName": pad(prefix(c.Name, 17), 18), "LongName": pad(prefix(c.Description, 63), 64),
		"NodeReport": pad(prefix(c.Report, 64), 64), "NumPorts": {0, byte(n)},
		"PortTypes": make([]byte, 4), "GoodInput": make([]byte, 4), "GoodOutput": make([]byte, 4), "SwIn": make([]byte, 4), "SwOut": make([]byte, 4),
		"SwVideo": {0}, "SwMacro": {0}, "SwRemote": {0}, "Style": {c.Style}, "Macaddress": pad(prefix(c.Ethernet, 6), 6),
		"BindIP": pad(c.BindIP, 4), "BindIndex": {c.BindIndex}, "Status2": {c.Status2},
	}
	for i, p := range c.In {
		if i < 4 {
			v["PortTypes"][i] |= 0x40 | p.Type&0x1f
			v["GoodInput"][i] = p.Status
			v["SwIn"][i] = p.SubUni & 0x0f
		}
	}
	for i, p := range c.Out {
		if i < 4 {
			v["PortTypes"][i] |= 0x80 | p.Type&0x1f
			v["GoodOutput"][i] = p.Status
			v["SwOut"][i] = p.SubUni & 0x0f
		}
	}
	return v
}

// Frame is the announcement of the configuration on the wire.
func (c *Config) Frame() []byte { return ref.ByName("ArtPollReply").Encode(c.Reply(), true) }

// Opts bound the generator.
type Opts struct {
	Style       *uint8
	ASCII       bool // names and manufacturer printable and fitting
	WithinBase  bool // ports lie in the base net and sub-net
	ValidPorts  bool // at most four, equal types per index
	IPRequired  bool
	DistinctUni bool
}

func text(t *rapid.T, ascii bool, maxFit, maxAny int, label string) Hex {
	if ascii {
		n := rapid.OneOf(rapid.IntRange(0, maxFit), rapid.SampledFrom([]int{maxFit, maxFit - 1})).Draw(t, label+".n")
		if x, ok := dict.Int(t, 0, maxFit, label+".n"); ok {
			n = x
		}
		s := rapid.Uint32().Draw(t, label)
		b := make(Hex, n)
		for i := range b {
			b[i] = 32 + byte((s>>(i%24)+uint32(i)*7)%95)
		}
		return b
	}
	n := rapid.OneOf(rapid.IntRange(0, maxFit+3), rapid.SampledFrom([]int{maxFit - 1, maxFit, maxFit + 1, maxFit + 2}), rapid.IntRange(0, maxAny)).Draw(t, label+".n")
	if x, ok := dict.Int(t, 0, 300, label+".n"); ok {
		n = x
	}
	s := rapid.Uint32().Draw(t, label)
	k := rapid.IntRange(0, 3).Draw(t, label+".k")
	b := make(Hex, n)
	for i := range b {
		x := byte(s>>(i%24)) + byte(i*7)
		if k > 0 {
			x = 33 + x%90
		}
		b[i] = x
	}
	dict.Edit(t, b, label)
	return b
}

func word(t *rapid.T, label string) uint16 {
	if x, ok := dict.Int(t, 0, 65535, label); ok {
		return uint16(x)
	}
	return rapid.Uint16().Draw(t, label)
}

func edited(t *rapid.T, b []byte, label string) Hex {
	dict.Edit(t, b, label)
	return b
}

// Gen draws a configuration.
func Gen(t *rapid.T, o Opts) Config {
	var c Config
	c.OEM = word(t, "oem")
	c.Version = word(t, "version")
	c.Bios = dict.Byte(t, rapid.Byte(), "bios")
	c.Manufacturer = text(t, o.ASCII, 2, 6, "manuf")
	if o.Style != nil {
		c.Style = *o.Style
	} else {
		c.Style = byte(rapid.IntRange(0, ref.MaxStyle).Draw(t, "style"))
	}
	c.Name = text(t, o.ASCII, 17, 60, "name")
	c.Description = text(t, o.ASCII, 63, 100, "descr")
	if rapid.Bool().Draw(t, "mac") {
		n := 6
		if !o.ASCII {
			n = rapid.SampledFrom([]int{6, 6, 8, 5, 20}).Draw(t, "macn")
		}
		c.Ethernet = edited(t, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "macb"), "macb")
	}
	if o.IPRequired || rapid.IntRange(0, 5).Draw(t, "ip") > 0 {
		c.IP = edited(t, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "ipb"), "ipb")
		c.IP16 = rapid.Bool().Draw(t, "ip16")
	}
	if rapid.Bool().Draw(t, "bind") {
		c.BindIP = edited(t, rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "bindb"), "bindb")
		c.BindIP16 = rapid.Bool().Draw(t, "bind16")
	}
	c.BindIndex = dict.Byte(t, rapid.Byte(), "bindindex")
	n := dict.Pick(t, []int{0, 1, 2, 5, 63, 64, 65, 70}, 300, "reportn")
	if o.ASCII {
		n = min(n, 64)
	}
	c.Report = make(Hex, n)
	s := rapid.Byte().Draw(t, "report")
	for i := range c.Report {
		c.Report[i] = s + byte(i)
	}
	dict.Edit(t, c.Report, "report")
	c.Status1 = dict.Byte(t, rapid.Byte(), "status1")
	c.Status2 = dict.Byte(t, rapid.Byte(), "status2")
	c.BaseNet = dict.Byte(t, rapid.ByteRange(0, 127), "basenet") & 127
	c.BaseSubUni = dict.Byte(t, rapid.Byte(), "basesub")
	if o.WithinBase {
		c.BaseSubUni &= 0xf0
	}
	maxPorts := 4
	if !o.ValidPorts {
		maxPorts = 7
	}
	nin := rapid.IntRange(0, maxPorts).Draw(t, "nin")
	nout := rapid.IntRange(0, maxPorts).Draw(t, "nout")
	types := make([]byte, 8)
	for i := range types {
		types[i] = byte(rapid.IntRange(0, 5).Draw(t, "ptype"))
	}
	port := func(i int) Port {
		p := Port{Net: c.BaseNet, SubUni: c.BaseSubUni&0xf0 | dict.Byte(t, rapid.ByteRange(0, 15), "uni")&15, Type: types[i], Status: dict.Byte(t, rapid.Byte(), "pstat")}
		if !o.WithinBase && rapid.Bool().Draw(t, "far") {
			p.Net = dict.Byte(t, rapid.ByteRange(0, 127), "pnet") & 127
			p.SubUni = dict.Byte(t, rapid.Byte(), "psub")
		}
		p.Type |= rapid.SampledFrom([]byte{0, 0x40, 0x80, 0xc0}).Draw(t, "pdir")
		return p
	}
	for i := 0; i < nin; i++ {
		c.In = append(c.In, port(i))
	}
	for i := 0; i < nout; i++ {
		c.Out = append(c.Out, port(i))
	}
	if !o.ValidPorts && rapid.IntRange(0, 2).Draw(t, "mismatch") == 0 {
		if m := min(len(c.In), len(c.Out)); m > 0 {
			i := rapid.IntRange(0, m-1).Draw(t, "mi")
			c.In[i].Type = c.In[i].Type&0xc0 | byte(rapid.IntRange(0, 5).Draw(t, "mt"))
		}
	}
	return c
}

// Valid says whether the configuration's ports can be announced.
func (c *Config) Valid() bool {
	if len(c.In) > 4 || len(c.Out) > 4 {
		return false
	}
	for i := 0; i < min(len(c.In), len(c.Out)); i++ {
		if c.In[i].Type&0x1f != c.Out[i].Type&0x1f {
			return false
		}
	}
	return true
}

// ExpectPort is a port as read from an announcement.
type ExpectPort struct {
	Net, SubUni, Type, Status uint8
}

// FromReply is what reading an announcement must give.
type FromReply struct {
	In, Out []ExpectPort
}

// Read states the ports described by announcement field values.
func Read(v ref.Values) FromReply {
	var r FromReply
	n := int(v["NumPorts"][0])<<8 | int(v["NumPorts"][1])
	for i := 0; i < 4 && i < n; i++ {
		pt := v["PortTypes"][i]
		base := v["SubSwitch"][0] << 4
		if pt&0x80 != 0 {
			r.Out = append(r.Out, ExpectPort{v["NetSwitch"][0], base | v["SwOut"][i]&0x0f, pt, v["GoodOutput"][i]})
		}
		if pt&0x40 != 0 {
			r.In = append(r.In, ExpectPort{v["NetSwitch"][0], base | v["SwIn"][i]&0x0f, pt, v["GoodInput"][i]})
		}
	}
	return r
}

func cut(b []byte) []byte {
	for i, x := range b {
		if x == 0 {
			return b[:i]
		}
	}
	return b
}

// sameText accepts the raw bytes or their Latin-1 reading.
func sameText(got string, raw []byte) bool {
	raw = cut(raw)
	if got == string(raw) {
		return true
	}
	var rs []rune
	for _, x := range raw {
		rs = append(rs, rune(x))
	}
	return got == string(rs)
}

// CompareRead checks a configuration derived from announcement values.
func CompareRead(n artnet.NodeConfig, v ref.Values) error {
	u16 := func(f string) uint16 { return uint16(v[f][0])<<8 | uint16(v[f][1]) }
	switch {
	case n.OEM != u16("Oem"):
		return fmt.Errorf("OEM %#x, announced %#x", n.OEM, u16("Oem"))
	case n.Version != u16("VersionInfo"):
		return fmt.Errorf("version %#x, announced %#x", n.Version, u16("VersionInfo"))
	case n.BiosVersion != v["UBEAVersion"][0]:
		return fmt.Errorf("BIOS version %d, announced %d", n.BiosVersion, v["UBEAVersion"][0])
	case !sameText(n.Manufacturer, v["ESTAmanufacturer"]):
		return fmt.Errorf("manufacturer %q, announced %q", n.Manufacturer, v["ESTAmanufacturer"])
	case uint8(n.Type) != v["Style"][0]:
		return fmt.Errorf("style %d, announced %d", n.Type, v["Style"][0])
	case !sameText(n.Name, v["ShortName"]):
		return fmt.Errorf("name %q, announced %q", n.Name, v["ShortName"])
	case !sameText(n.Description, v["LongName"]):
		return fmt.Errorf("description %q, announced %q", n.Description, v["LongName"])
	case string(n.Ethernet) != string(v["Macaddress"]):
		return fmt.Errorf("MAC %x, announced %x", []byte(n.Ethernet), v["Macaddress"])
	case !n.IP.Equal(net.IP(v["IPAddress"])):
		return fmt.Errorf("IP %v, announced %v", n.IP, v["IPAddress"])
	case !n.BindIP.Equal(net.IP(v["BindIP"])):
		return fmt.Errorf("bind IP %v, announced %v", n.BindIP, v["BindIP"])
	case n.BindIndex != v["BindIndex"][0]:
		return fmt.Errorf("bind index %d, announced %d", n.BindIndex, v["BindIndex"][0])
	case n.Port != 6454:
		return fmt.Errorf("port %d, announced 6454", n.Port)
	case uint8(n.Status1) != v["Status1"][0] || uint8(n.Status2) != v["Status2"][0]:
		return fmt.Errorf("statuses %#x %#x, announced %#x %#x", uint8(n.Status1), uint8(n.Status2), v["Status1"], v["Status2"])
	case n.BaseAddress.Net != v["NetSwitch"][0] || n.BaseAddress.SubUni != v["SubSwitch"][0]<<4:
		return fmt.Errorf("base address %v, announced net %d sub-net %d", n.BaseAddress, v["NetSwitch"], v["SubSwitch"])
	}
	rep := v["NodeReport"]
	if len(n.Report) > 64 {
		return fmt.Errorf("report has %d codes", len(n.Report))
	}
	for i := 0; i < 64; i++ {
		x := byte(0)
		if i < len(n.Report) {
			x = byte(n.Report[i])
		}
		if x != rep[i] {
			return fmt.Errorf("report code %d is %d, announced %d", i, x, rep[i])
		}
	}
	want := Read(v)
	if len(n.OutputPorts) != len(want.Out) || len(n.InputPorts) != len(want.In) {
		return fmt.Errorf("%d outputs and %d inputs, announced %d and %d", len(n.OutputPorts), len(n.InputPorts), len(want.Out), len(want.In))
	}
	for i, w := range want.Out {
		p := n.OutputPorts[i]
		if (ExpectPort{p.Address.Net, p.Address.SubUni, uint8(p.Type), uint8(p.Status)}) != w {
			return fmt.Errorf("output %d is %v type %#x status %#x, announced %+v", i, p.Address, uint8(p.Type), uint8(p.Status), w)
		}
	}
	for i, w := range want.In {
		p := n.InputPorts[i]
		if (ExpectPort{p.Address.Net, p.Address.SubUni, uint8(p.Type), uint8(p.Status)}) != w {
			return fmt.Errorf("input %d is %v type %#x status %#x, announced %+v", i, p.Address, uint8(p.Type), uint8(p.Status), w)
		}
	}
	return nil
}

// OneOff returns a configuration that differs from a in one field, which is that of x,
// or in one detail of one port.
func OneOff(t *rapid.T, a, x Config) Config {
	k := fgen.Roll(t, reflect.TypeOf(x).NumField(), "cfgfield")
	name := reflect.TypeOf(x).Field(k).Name
	if name != "In" && name != "Out" {
		reflect.ValueOf(&a).Elem().Field(k).Set(reflect.ValueOf(x).Field(k))
		return a
	}
	a.In, a.Out = slices.Clone(a.In), slices.Clone(a.Out)
	ps := a.In
	if name == "Out" {
		ps = a.Out
	}
	if len(ps) == 0 {
		a.In, a.Out = x.In, x.Out
		return a
	}
	p := &ps[fgen.Roll(t, len(ps), "cfgport")]
	if rapid.Bool().Draw(t, "portstatus") {
		p.Status ^= uint8(1 + fgen.Roll(t, 255, "cfgstatus"))
	} else {
		p.SubUni ^= uint8(1 + fgen.Roll(t, 15, "cfguni"))
	}
	return a
}
