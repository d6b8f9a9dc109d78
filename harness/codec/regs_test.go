package codec

import (
	"fmt"
	"strings"
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/vlib"
)

// ---- C07 ------------------------------------------------------------------

type flag struct {
	name  string
	bit   uint
	set   func(uint8, bool) uint8
	get   func(uint8) bool
	label string // in the textual form
}

type multi struct {
	name   string
	mask   uint8
	values map[string]uint8
	set    func(uint8, string) uint8
	get    func(uint8) string
	label  string
}

type register struct {
	name   string
	flags  []flag
	multis []multi
	str    func(uint8) string
	yes    string
	no     string
}

func fl[T ~uint8](name string, bit uint, set func(T, bool) T, get func(T) bool, label string) flag {
	return flag{name, bit, func(v uint8, e bool) uint8 { return uint8(set(T(v), e)) }, func(v uint8) bool { return get(T(v)) }, label}
}

func mu[T ~uint8](name string, mask uint8, values map[string]uint8, set func(T, string) T, get func(T) string, label string) multi {
	return multi{name, mask, values, func(v uint8, s string) uint8 { return uint8(set(T(v), s)) }, func(v uint8) string { return get(T(v)) }, label}
}

var registers = []register{
	{name: "GoodInput", yes: "yes", no: "no", str: func(v uint8) string { return code.GoodInput(v).String() }, flags: []flag{
		fl("Receive", 2, code.GoodInput.WithReceive, code.GoodInput.Receive, "ReceiveErrors"),
		fl("Disabled", 3, code.GoodInput.WithDisabled, code.GoodInput.Disabled, "Disabled"),
		fl("Text", 4, code.GoodInput.WithText, code.GoodInput.Text, "DMX512Text"),
		fl("SIP", 5, code.GoodInput.WithSIP, code.GoodInput.SIP, "DMX512SIP"),
		fl("Test", 6, code.GoodInput.WithTest, code.GoodInput.Test, "DMX512Test"),
		fl("Data", 7, code.GoodInput.WithData, code.GoodInput.Data, "DataReceived"),
	}},
	{name: "GoodOutput", yes: "yes", no: "no", str: func(v uint8) string { return code.GoodOutput(v).String() }, flags: []flag{
		fl("ACN", 0, code.GoodOutput.WithACN, code.GoodOutput.ACN, "OutputACN"),
		fl("LTP", 1, code.GoodOutput.WithLTP, code.GoodOutput.LTP, "LTPMergeMode"),
		fl("Output", 2, code.GoodOutput.WithOutput, code.GoodOutput.Output, "OutputShort"),
		fl("Merging", 3, code.GoodOutput.WithMerging, code.GoodOutput.Merging, "Merging"),
		fl("Text", 4, code.GoodOutput.WithText, code.GoodOutput.Text, "DMX512Text"),
		fl("SIP", 5, code.GoodOutput.WithSIP, code.GoodOutput.SIP, "DMX512SIP"),
		fl("Test", 6, code.GoodOutput.WithTest, code.GoodOutput.Test, "DMX512Test"),
		fl("Data", 7, code.GoodOutput.WithData, code.GoodOutput.Data, "DataSending"),
	}},
	{name: "PortType", yes: "yes", no: "no", str: func(v uint8) string { return code.PortType(v).String() }, flags: []flag{
		fl("Input", 6, code.PortType.WithInput, code.PortType.Input, "Input"),
		fl("Output", 7, code.PortType.WithOutput, code.PortType.Output, "Output"),
	}, multis: []multi{
		mu("Type", 0x1f, map[string]uint8{"DMX512": 0, "MIDI": 1, "Avab": 2, "Colortran CMX": 3, "ADB 62.5": 4, "Art-Net": 5},
			code.PortType.WithType, code.PortType.Type, "Type"),
	}},
	{name: "Status1", yes: "yes", no: "no", str: func(v uint8) string { return code.Status1(v).String() }, flags: []flag{
		fl("UBEA", 0, code.Status1.WithUBEA, code.Status1.UBEA, "UBEA"),
		fl("RDM", 1, code.Status1.WithRDM, code.Status1.RDM, "RDM"),
		fl("BootROM", 2, code.Status1.WithBootROM, code.Status1.BootROM, "BootRom"),
	}, multis: []multi{
		mu("PortAddr", 0x30, map[string]uint8{"unknown": 0, "front": 0x10, "net": 0x20, "unused": 0x30},
			code.Status1.WithPortAddr, code.Status1.PortAddr, "PortAddr"),
		mu("Indicator", 0xc0, map[string]uint8{"unknown": 0, "locate": 0x40, "mute": 0x80, "normal": 0xc0},
			code.Status1.WithIndicator, code.Status1.Indicator, "Indicator"),
	}},
	{name: "Status2", yes: "yes", no: "no", str: func(v uint8) string { return code.Status2(v).String() }, flags: []flag{
		fl("Browser", 0, code.Status2.WithBrowser, code.Status2.Browser, "Browser"),
		fl("DHCP", 1, code.Status2.WithDHCP, code.Status2.DHCP, "DHCP"),
		fl("DHCPCapable", 2, code.Status2.WithDHCPCapable, code.Status2.DHCPCapable, "DHCPCapable"),
		fl("Port15", 3, code.Status2.WithPort15, code.Status2.Port15, "Port 15bit"),
		fl("Switch", 4, code.Status2.WithSwitch, code.Status2.Switch, "CanSwitch"),
		fl("Squawk", 5, code.Status2.WithSquawk, code.Status2.Squawk, "Squawking"),
	}},
	{name: "SwMacro", yes: "on", no: "off", str: func(v uint8) string { return code.SwMacro(v).String() }, flags: []flag{
		fl("Macro1", 0, code.SwMacro.WithMacro1, code.SwMacro.Macro1, "Macro1"),
		fl("Macro2", 1, code.SwMacro.WithMacro2, code.SwMacro.Macro2, "Macro2"),
		fl("Macro3", 2, code.SwMacro.WithMacro3, code.SwMacro.Macro3, "Macro3"),
		fl("Macro4", 3, code.SwMacro.WithMacro4, code.SwMacro.Macro4, "Macro4"),
		fl("Macro5", 4, code.SwMacro.WithMacro5, code.SwMacro.Macro5, "Macro5"),
		fl("Macro6", 5, code.SwMacro.WithMacro6, code.SwMacro.Macro6, "Macro6"),
		fl("Macro7", 6, code.SwMacro.WithMacro7, code.SwMacro.Macro7, "Macro7"),
		fl("Macro8", 7, code.SwMacro.WithMacro8, code.SwMacro.Macro8, "Macro8"),
	}},
	{name: "SwRemote", yes: "on", no: "off", str: func(v uint8) string { return code.SwRemote(v).String() }, flags: []flag{
		fl("Remote1", 0, code.SwRemote.WithRemote1, code.SwRemote.Remote1, "Remote1"),
		fl("Remote2", 1, code.SwRemote.WithRemote2, code.SwRemote.Remote2, "Remote2"),
		fl("Remote3", 2, code.SwRemote.WithRemote3, code.SwRemote.Remote3, "Remote3"),
		fl("Remote4", 3, code.SwRemote.WithRemote4, code.SwRemote.Remote4, "Remote4"),
		fl("Remote5", 4, code.SwRemote.WithRemote5, code.SwRemote.Remote5, "Remote5"),
		fl("Remote6", 5, code.SwRemote.WithRemote6, code.SwRemote.Remote6, "Remote6"),
		fl("Remote7", 6, code.SwRemote.WithRemote7, code.SwRemote.Remote7, "Remote7"),
		fl("Remote8", 7, code.SwRemote.WithRemote8, code.SwRemote.Remote8, "Remote8"),
	}},
	{name: "TalkToMe", yes: "yes", no: "no", str: func(v uint8) string { return code.TalkToMe(v).String() }, flags: []flag{
		fl("ReplyOnChange", 1, code.TalkToMe.WithReplyOnChange, code.TalkToMe.ReplyOnChange, "ReplyOnChange"),
		fl("Diagnostics", 2, code.TalkToMe.WithDiagnostics, code.TalkToMe.Diagnostics, "Diagnostics"),
		fl("DiagUnicast", 3, code.TalkToMe.WithDiagUnicast, code.TalkToMe.DiagUnicast, "as unicast"),
		fl("VLC", 4, code.TalkToMe.WithVLC, code.TalkToMe.VLC, "VLC"),
	}},
}

func regByName(n string) *register {
	for i := range registers {
		if registers[i].name == n {
			return &registers[i]
		}
	}
	panic("harness: register " + n)
}

// reads checks that every flag and field of the register reads as the protocol
// bits of v say, also in the textual form.
func (r *register) reads(v uint8) error {
	s := r.str(v)
	if !strings.HasPrefix(s, r.name+": ") {
		return fmt.Errorf("%s(%#02x) is shown as %q", r.name, v, s)
	}
	// "A: x, B: y (C: z), D: w"
	body := strings.NewReplacer(" (", ", ", ")", "").Replace(strings.TrimPrefix(s, r.name+": "))
	shown := map[string]string{}
	for _, kv := range strings.Split(body, ", ") {
		k, val, _ := strings.Cut(kv, ": ")
		shown[k] = val
	}
	for _, f := range r.flags {
		on := v>>f.bit&1 == 1
		if f.get(v) != on {
			return fmt.Errorf("%s(%#02x).%s() = %v, bit %d is %v", r.name, v, f.name, f.get(v), f.bit, on)
		}
		w := r.no
		if on {
			w = r.yes
		}
		if shown[f.label] != w {
			return fmt.Errorf("%s(%#02x) shows %s as %q, want %q (in %q)", r.name, v, f.label, shown[f.label], w, s)
		}
	}
	for _, m := range r.multis {
		got := m.get(v)
		for name, bits := range m.values {
			if (v&m.mask == bits) != (got == name) {
				return fmt.Errorf("%s(%#02x).%s() = %q", r.name, v, m.name, got)
			}
		}
		if shown[m.label] != got {
			return fmt.Errorf("%s(%#02x) shows %s as %q, want %q", r.name, v, m.label, shown[m.label], got)
		}
	}
	return nil
}

type regOp struct {
	Field string `json:"field"`
	On    bool   `json:"on,omitempty"`
	Val   string `json:"val,omitempty"`
}

type regCase struct {
	Reg   string  `json:"reg"`
	Start uint8   `json:"start"`
	Ops   []regOp `json:"ops"`
}

func execC07(_ *testing.T, c regCase) vlib.Result {
	g := regByName(c.Reg)
	r := vlib.Result{Labels: []string{c.Reg}, NonTrivial: true}
	v := c.Start
	if e := g.reads(v); e != nil {
		return r.Fail("%v", e)
	}
	for i, op := range c.Ops {
		want := v
		got := v
		if op.Val != "" {
			for _, m := range g.multis {
				if m.name == op.Field {
					want = v&^m.mask | m.values[op.Val]
					got = m.set(v, op.Val)
				}
			}
		} else {
			for _, f := range g.flags {
				if f.name == op.Field {
					want = v &^ (1 << f.bit)
					if op.On {
						want |= 1 << f.bit
					}
					got = f.set(v, op.On)
				}
			}
			if !op.On {
				r.Labels = append(r.Labels, "clears")
			}
		}
		if got != want {
			return r.Fail("step %d: %s(%#02x).With%s(%v%s) = %#02x, want %#02x", i, c.Reg, v, op.Field, op.On, op.Val, got, want)
		}
		v = got
		if e := g.reads(v); e != nil {
			return r.Fail("step %d: %v", i, e)
		}
	}
	return r
}

func (r *register) ops() []regOp {
	var out []regOp
	for _, f := range r.flags {
		out = append(out, regOp{Field: f.name, On: true}, regOp{Field: f.name})
	}
	for _, m := range r.multis {
		for v := range m.values {
			out = append(out, regOp{Field: m.name, Val: v})
		}
	}
	return out
}

// TestC07Enum: every register value with every single operation.
func TestC07Enum(t *testing.T) {
	vlib.Enumerate(t, "C07", func(yield func(regCase) bool) {
		for i := range registers {
			for v := 0; v < 256; v++ {
				for _, op := range registers[i].ops() {
					if !yield(regCase{registers[i].name, uint8(v), []regOp{op}}) {
						return
					}
				}
			}
		}
	}, execC07)
}

// TestC07: histories of operations.
func TestC07(t *testing.T) {
	vlib.Check(t, "C07", func(t *rapid.T) regCase {
		g := &registers[roll(t, len(registers), "reg")]
		op := rapid.Custom(func(t *rapid.T) regOp {
			n := len(g.flags) + len(g.multis)
			k := roll(t, n, "field")
			if k < len(g.flags) {
				return regOp{Field: g.flags[k].name, On: rapid.Bool().Draw(t, "on")}
			}
			m := g.multis[k-len(g.flags)]
			var names []string
			for i := 0; i < 256; i++ { // in order of their code
				for n, b := range m.values {
					if int(b) == i {
						names = append(names, n)
					}
				}
			}
			return regOp{Field: m.name, Val: names[roll(t, len(names), "val")]}
		})
		return regCase{g.name, rapid.Byte().Draw(t, "start"), rapid.SliceOfN(op, 1, 12).Draw(t, "ops")}
	}, execC07)
}

// ---- C08 ------------------------------------------------------------------

type named struct {
	val  uint16
	got  uint16
	name string
}

var opTable = []named{
	{0x2000, uint16(code.OpPoll), "OpPoll"}, {0x2100, uint16(code.OpPollReply), "OpPollReply"},
	{0x2300, uint16(code.OpDiagData), "OpDiagData"}, {0x2400, uint16(code.OpCommand), "OpCommand"},
	{0x5000, uint16(code.OpOutput), "OpOutput"}, {0x5000, uint16(code.OpDMX), "OpOutput"},
	{0x5100, uint16(code.OpNzs), "OpNzs"}, {0x5200, uint16(code.OpSync), "OpSync"},
	{0x6000, uint16(code.OpAddress), "OpAddress"}, {0x7000, uint16(code.OpInput), "OpInput"},
	{0x8000, uint16(code.OpTodRequest), "OpTodRequest"}, {0x8100, uint16(code.OpTodData), "OpTodData"},
	{0x8200, uint16(code.OpTodControl), "OpTodControl"}, {0x8300, uint16(code.OpRdm), "OpRdm"},
	{0x8400, uint16(code.OpRdmSub), "OpRdmSub"}, {0x9000, uint16(code.OpMedia), "OpMedia"},
	{0x9100, uint16(code.OpMediaPatch), "OpMediaPatch"}, {0x9200, uint16(code.OpMediaControl), "OpMediaControl"},
	{0x9300, uint16(code.OpMediaContrlReply), "OpMediaContrlReply"}, {0x9700, uint16(code.OpTimeCode), "OpTimeCode"},
	{0x9800, uint16(code.OpTimeSync), "OpTimeSync"}, {0x9900, uint16(code.OpTrigger), "OpTrigger"},
	{0x9a00, uint16(code.OpDirectory), "OpDirectory"}, {0x9b00, uint16(code.OpDirectoryReply), "OpDirectoryReply"},
	{0xa010, uint16(code.OpVideoSetup), "OpVideoSetup"}, {0xa020, uint16(code.OpVideoPalette), "OpVideoPalette"},
	{0xa040, uint16(code.OpVideoData), "OpVideoData"}, {0xf000, uint16(code.OpMacMaster), "OpMacMaster"},
	{0xf100, uint16(code.OpMacSlave), "OpMacSlave"}, {0xf200, uint16(code.OpFirmwareMaster), "OpFirmwareMaster"},
	{0xf300, uint16(code.OpFirmwareReply), "OpFirmwareReply"}, {0xf400, uint16(code.OpFileTnMaster), "OpFileTnMaster"},
	{0xf500, uint16(code.OpFileFnMaster), "OpFileFnMaster"}, {0xf600, uint16(code.OpFileFnReply), "OpFileFnReply"},
	{0xf800, uint16(code.OpIPProg), "OpIPProg"}, {0xf900, uint16(code.OpIPProgReply), "OpIPProgReply"},
}

var styleTable = []named{
	{0, uint16(code.StNode), "Node"}, {1, uint16(code.StController), "Controller"}, {2, uint16(code.StMedia), "Media"},
	{3, uint16(code.StRoute), "Route"}, {4, uint16(code.StBackup), "Backup"}, {5, uint16(code.StConfig), "Config"},
	{6, uint16(code.StVisual), "Visual"},
}

var prioTable = []named{
	{0, uint16(code.DpAll), "DpAll"}, {0x10, uint16(code.DpLow), "DpLow"}, {0x40, uint16(code.DpMed), "DpMed"},
	{0x80, uint16(code.DpHigh), "DpHigh"}, {0xe0, uint16(code.DpCritical), "DpCritical"}, {0xf0, uint16(code.DpVolatile), "DpVolatile"},
}

var reportTable = []named{
	{0, uint16(code.RcDebug), "RcDebug"}, {1, uint16(code.RcPowerOk), "RcPowerOk"}, {2, uint16(code.RcPowerFail), "RcPowerFail"},
	{3, uint16(code.RcSocketWr1), "RcSocketWr1"}, {4, uint16(code.RcParseFail), "RcParseFail"}, {5, uint16(code.RcUDPFail), "RcUDPFail"},
	{6, uint16(code.RcShNameOk), "RcShNameOk"}, {7, uint16(code.RcLoNameOk), "RcLoNameOk"}, {8, uint16(code.RcDmxError), "RcDmxError"},
	{9, uint16(code.RcDmxUDPFull), "RcDmxUDPFull"}, {10, uint16(code.RcDmxRxFull), "RcDmxRxFull"}, {11, uint16(code.RcSwitchErr), "RcSwitchErr"},
	{12, uint16(code.RcConfigErr), "RcConfigErr"}, {13, uint16(code.RcDmxShort), "RcDmxShort"}, {14, uint16(code.RcFirmwareFail), "RcFirmwareFail"},
	{15, uint16(code.RcUserFail), "RcUserFail"}, {16, uint16(code.RcFactoryRes), "RcFactoryRes"},
}

type codeCase struct {
	Table string `json:"table"`
	Value int    `json:"value"`
}

type codeTable struct {
	name  string
	size  int
	table []named
	str   func(int) string
	valid func(int) bool
}

var codeTables = []codeTable{
	{"OpCode", 65536, opTable, func(v int) string { return code.OpCode(v).String() }, func(v int) bool { return code.ValidOp(code.OpCode(v)) }},
	{"StyleCode", 256, styleTable, func(v int) string { return code.StyleCode(v).String() }, func(v int) bool { return code.ValidStyle(code.StyleCode(v)) }},
	{"PriorityCode", 256, prioTable, func(v int) string { return code.PriorityCode(v).String() }, nil},
	{"NodeReportCode", 256, reportTable, func(v int) string { return code.NodeReportCode(v).String() }, nil},
}

func TestC08(t *testing.T) {
	vlib.Enumerate(t, "C08", func(yield func(codeCase) bool) {
		for _, ct := range codeTables {
			for v := 0; v < ct.size; v++ {
				if !yield(codeCase{ct.name, v}) {
					return
				}
			}
		}
	}, func(_ *testing.T, c codeCase) vlib.Result {
		r := vlib.Result{Labels: []string{c.Table}}
		for _, ct := range codeTables {
			if ct.name != c.Table {
				continue
			}
			want := fmt.Sprintf("%s(%d)", ct.name, c.Value)
			defined := false
			for _, n := range ct.table {
				if int(n.val) == c.Value {
					want, defined = n.name, true
					r.NonTrivial = true
					if n.got != n.val {
						return r.Fail("constant %s has value %#x, protocol value is %#x", n.name, n.got, n.val)
					}
				}
			}
			// neighbours in value of a defined code, and ends of the range, are non-trivial too
			for _, n := range ct.table {
				if d := int(n.val) - c.Value; d == 1 || d == -1 || d == 256 || d == -256 {
					r.NonTrivial = true
				}
			}
			if got := ct.str(c.Value); got != want {
				return r.Fail("%s %#x is rendered %q, want %q", ct.name, c.Value, got, want)
			}
			if ct.valid != nil && ct.valid(c.Value) != defined {
				return r.Fail("%s %#x: valid = %v, defined = %v", ct.name, c.Value, ct.valid(c.Value), defined)
			}
		}
		return r
	})
}

// TestC08Rand draws random codes of all tables, together with formatted output,
// so that the check does not depend on the enumeration order.
func TestC08Rand(t *testing.T) {
	vlib.Check(t, "C08", func(t *rapid.T) codeCase {
		ct := codeTables[roll(t, len(codeTables), "table")]
		if rapid.Bool().Draw(t, "near") {
			n := ct.table[roll(t, len(ct.table), "entry")]
			return codeCase{ct.name, (int(n.val) + rapid.IntRange(-3, 3).Draw(t, "d") + ct.size) % ct.size}
		}
		return codeCase{ct.name, rapid.IntRange(0, ct.size-1).Draw(t, "v")}
	}, func(_ *testing.T, c codeCase) vlib.Result {
		r := vlib.Result{Labels: []string{"formatted " + c.Table}, NonTrivial: true}
		for _, ct := range codeTables {
			if ct.name == c.Table {
				want := fmt.Sprintf("%s(%d)", ct.name, c.Value)
				for _, n := range ct.table {
					if int(n.val) == c.Value {
						want = n.name
					}
				}
				var v any
				switch ct.name {
				case "OpCode":
					v = code.OpCode(c.Value)
				case "StyleCode":
					v = code.StyleCode(c.Value)
				case "PriorityCode":
					v = code.PriorityCode(c.Value)
				default:
					v = code.NodeReportCode(c.Value)
				}
				if got := fmt.Sprintf("%v|%s", v, v); got != want+"|"+want {
					return r.Fail("%s %#x is formatted %q, want %q twice", ct.name, c.Value, got, want)
				}
			}
		}
		return r
	})
}

// ---- C26 ------------------------------------------------------------------

type addrCase struct {
	Net int `json:"net"`
}

func TestC26(t *testing.T) {
	texts := map[string]artnet.Address{}
	ints := map[int]artnet.Address{}
	vlib.Enumerate(t, "C26", func(yield func(addrCase) bool) {
		for n := 0; n < 256; n++ {
			if !yield(addrCase{n}) {
				return
			}
		}
	}, func(_ *testing.T, c addrCase) vlib.Result {
		r := vlib.Result{Labels: []string{"net with all 256 sub-universes"}, NonTrivial: true}
		for s := 0; s < 256; s++ {
			r.Evals++
			a := artnet.Address{Net: uint8(c.Net), SubUni: uint8(s)}
			if e := addrCheck(a); e != nil {
				return r.Fail("%v", e)
			}
			if o, ok := texts[a.String()]; ok && o != a {
				return r.Fail("addresses %#v and %#v have the same text %q", a, o, a.String())
			}
			if o, ok := ints[a.Integer()]; ok && o != a {
				return r.Fail("addresses %#v and %#v have the same integer %d", a, o, a.Integer())
			}
			texts[a.String()] = a
			ints[a.Integer()] = a
		}
		return r
	})
}

func addrCheck(a artnet.Address) error {
	if want := fmt.Sprintf("%d:%d.%d", int(a.Net), int(a.SubUni)/16, int(a.SubUni)%16); a.String() != want {
		return fmt.Errorf("address %#v has text %q, want %q", a, a.String(), want)
	}
	if want := int(a.Net)*256 + int(a.SubUni); a.Integer() != want {
		return fmt.Errorf("address %#v has integer form %d, want %d", a, a.Integer(), want)
	}
	return nil
}

type addrPair struct {
	A [2]uint8 `json:"a"`
	B [2]uint8 `json:"b"`
}

func TestC26Pairs(t *testing.T) {
	vlib.Check(t, "C26", func(t *rapid.T) addrPair {
		p := addrPair{A: [2]uint8{rapid.Byte().Draw(t, "n"), rapid.Byte().Draw(t, "s")}}
		p.B = p.A
		switch roll(t, 4, "k") {
		case 0:
			p.B = [2]uint8{rapid.Byte().Draw(t, "n2"), rapid.Byte().Draw(t, "s2")}
		case 1:
			p.B[roll(t, 2, "i")] ^= 1 << roll(t, 8, "bit")
		case 2:
			p.B[0], p.B[1] = p.B[1], p.B[0]
		}
		return p
	}, func(_ *testing.T, p addrPair) vlib.Result {
		r := vlib.Result{NonTrivial: p.A != p.B, Labels: []string{"pairs"}}
		a, b := artnet.Address{Net: p.A[0], SubUni: p.A[1]}, artnet.Address{Net: p.B[0], SubUni: p.B[1]}
		if e := addrCheck(a); e != nil {
			return r.Fail("%v", e)
		}
		if (a == b) != (a.String() == b.String()) || (a == b) != (a.Integer() == b.Integer()) {
			return r.Fail("addresses %#v and %#v: texts %q %q, integers %d %d", a, b, a.String(), b.String(), a.Integer(), b.Integer())
		}
		return r
	})
}
