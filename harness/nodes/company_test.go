package nodes

import (
	"net"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/cfg"
	"verif/dict"
	"verif/fgen"
	"verif/simnet"
)

// ---- C33: several instances in one process ---------------------------------

// Mate is another node or controller in the process, on a network of its own.
type Mate struct {
	Ctl   bool       `json:"ctl,omitempty"`
	Own   IP         `json:"own"`
	FPS   int        `json:"fps,omitempty"`
	Bcast *IP        `json:"bcast,omitempty"`
	Port  int        `json:"port,omitempty"`
	Cfg   cfg.Config `json:"cfg"`
}

// MateOp is what one of them does or receives before step At of the history.
type MateOp struct {
	At    int         `json:"at"`
	Mate  int         `json:"mate"`
	K     string      `json:"k"`
	Op    uint16      `json:"op,omitempty"`
	IP    IP          `json:"ip,omitempty"`
	FPS   int         `json:"fps,omitempty"`
	Frame Hex         `json:"frame,omitempty"`
	N     int         `json:"n,omitempty"`
	Dev   *cfg.Config `json:"dev,omitempty"` // a device that announces itself and gets data
	Fill  byte        `json:"fill,omitempty"`
	Err   int         `json:"err,omitempty"`
}

// Company are the others.
type Company struct {
	Early bool     `json:"early,omitempty"` // there before the judged one is created
	Mates []Mate   `json:"mates"`
	Ops   []MateOp `json:"ops"`
}

func genCompany(t *rapid.T, own IP, steps int) *Company {
	c := &Company{Early: rapid.Bool().Draw(t, "mearly")}
	for n := rapid.IntRange(1, 3).Draw(t, "mates"); n > 0; n-- {
		m := Mate{Ctl: rapid.Bool().Draw(t, "mctl"), Own: own, FPS: rapid.SampledFrom([]int{1, 5, 40, 40, 200}).Draw(t, "mfps")}
		if rapid.Bool().Draw(t, "mother") {
			m.Own = genNearIP(t, own, "mown")
		}
		if rapid.Bool().Draw(t, "mbcast") {
			ip := rapid.SampledFrom([]IP{{10, 255, 255, 255}, {192, 168, 1, 255}, {2, 255, 255, 255}, {10, 0, 0, 1}}).Draw(t, "mbip")
			m.Bcast = &ip
		}
		if rapid.Bool().Draw(t, "mport") {
			m.Port = 7000 + fgen.Roll(t, 3, "mportno")
		}
		m.Cfg = cfg.Gen(t, cfg.Opts{ValidPorts: true, IPRequired: true})
		m.Cfg.IP, m.Cfg.IP16 = cfg.Hex(m.Own[:]), false
		c.Mates = append(c.Mates, m)
	}
	p := &nodeProfile{polls: true}
	for at := 0; at < steps; at++ {
		for k := 0; k < 3 && fgen.Roll(t, 3, "mact") > 0; k++ {
			x := MateOp{At: at, Mate: fgen.Roll(t, len(c.Mates), "mate")}
			m := &c.Mates[x.Mate]
			switch r := fgen.Roll(t, 16, "mk"); {
			case r < 3 || at == 0 && r < 6:
				x.K = "start"
			case r == 3:
				x.K = "stop"
			case r == 4:
				x.K = "reg"
				x.Op = rapid.SampledFrom([]uint16{opDMX, opPoll, opPollReply, 0x5200, 0x9900}).Draw(t, "mregop")
			case r == 5:
				x.K = "dereg"
				x.Op = rapid.SampledFrom([]uint16{opDMX, opPoll, opPollReply, 0x5200, 0x9900}).Draw(t, "mregop")
			case r == 6:
				x.K, x.FPS = "opt", rapid.SampledFrom([]int{1, 7, 44, 0}).Draw(t, "mofps")
				x.IP = rapid.SampledFrom([]IP{{10, 255, 255, 255}, {192, 168, 9, 255}, {2, 255, 255, 255}}).Draw(t, "mobip")
			case r == 7:
				x.K = "err"
				x.Err = fgen.Roll(t, len(simnet.Errs), "merr")
			case r < 12 && m.Ctl:
				d := cfg.Gen(t, cfg.Opts{ValidPorts: true, IPRequired: true, WithinBase: true})
				d.Style = 0
				d.IP, d.IP16 = cfg.Hex{m.Own[0], m.Own[1], m.Own[2] ^ 1, byte(1 + fgen.Roll(t, 4, "mdev"))}, false
				if rapid.Bool().Draw(t, "mshared") { // probably known to a judged controller as well
					d.IP = cfg.Hex{own[0], own[1], own[2] + 1, byte(10 + fgen.Roll(t, 3, "mdev"))}
				}
				x.K, x.Dev, x.Fill = "dev", &d, rapid.Byte().Draw(t, "mfill")
			default:
				x.K, x.IP, x.Frame = "dg", genNearIP(t, m.Own, "mfrom"), genNodeFrame(t, p, m.Own)
				x.N = dict.Pick(t, []int{1, 1, 1, 2, 12}, 100, "mn")
			}
			c.Ops = append(c.Ops, x)
		}
	}
	return c
}

type mate struct {
	def  Mate
	nw   *simnet.Net
	node *artnet.Node
	ctl  *artnet.Controller
	on   bool
	dead bool // it hung or panicked, which is for other checks to judge
	port int
	last []artnet.OutputPort
}

type companyRun struct {
	c     *Company
	o     *outcome
	main  *simnet.Net
	mates []*mate
	next  int
	moved int
}

// join is called before and after the judged one is created, and creates the
// others at one of these moments.
func (c *Company) join(early bool, main *simnet.Net, o *outcome) *companyRun {
	r := &companyRun{o: o, main: main}
	if c == nil || c.Early != early {
		return r
	}
	r.c = c
	o.label("company")
	for _, d := range c.Mates {
		m := &mate{def: d, nw: simnet.New(), port: 6454}
		m.nw.SetHost(d.Own)
		lib := d.Cfg.Lib()
		if d.Ctl {
			m.ctl = artnet.NewController(lib.Name, ipOf(d.Own, false), newLog(false, o), artnet.MaxFPS(d.FPS))
		} else {
			m.node = artnet.NewNode(lib.Name, lib.Type, ipOf(d.Own, false), newLog(false, o))
			lib.IP = m.node.Config.IP
			m.node.Config = lib
		}
		if d.Bcast != nil {
			m.bcast(*d.Bcast)
		}
		if d.Port != 0 {
			m.port = d.Port
			a := net.UDPAddr{IP: ipOf(d.Own, false), Port: d.Port}
			if d.Ctl {
				m.ctl.SetOption(artnet.ListenAddress(a))
			} else {
				m.node.SetOption(artnet.NodeListenAddress(a))
			}
		}
		r.mates = append(r.mates, m)
	}
	main.Use()
	return r
}

func (m *mate) bcast(ip IP) {
	a := net.UDPAddr{IP: ipOf(ip, false), Port: 6454}
	if m.ctl != nil {
		m.ctl.SetOption(artnet.BroadcastAddr(a))
	} else {
		m.node.SetOption(artnet.NodeBroadcastAddress(a))
	}
}

// act lets the others do what they do before step i.
func (r *companyRun) act(i int) {
	for r.c != nil && r.next < len(r.c.Ops) && r.c.Ops[r.next].At <= i {
		x := &r.c.Ops[r.next]
		r.next++
		if m := r.mates[x.Mate%len(r.mates)]; !m.dead {
			r.one(m, x)
		}
	}
}

func (r *companyRun) one(m *mate, x *MateOp) {
	try := func(f func()) {
		if bad := guarded(time.Minute, f); bad != "" {
			m.dead = true
		}
	}
	switch x.K {
	case "start":
		if m.on {
			return
		}
		m.nw.Use()
		try(func() {
			var err error
			if m.ctl != nil {
				err = m.ctl.Start()
			} else {
				err = m.node.Start()
			}
			m.on = err == nil
		})
		r.main.Use()
	case "stop":
		if m.on {
			m.on = false
			try(m.stop)
		}
	case "reg":
		if m.node != nil {
			m.node.RegisterCallback(code.OpCode(x.Op), func(packet.ArtNetPacket) {})
		}
	case "dereg":
		if m.node != nil {
			m.node.DeregisterCallback(code.OpCode(x.Op))
		}
	case "opt":
		if !m.on {
			m.bcast(x.IP)
			if m.ctl != nil {
				m.ctl.SetOption(artnet.MaxFPS(x.FPS))
			}
		}
	case "err":
		m.nw.InjectErr(m.def.Own, simnet.Errs[x.Err%len(simnet.Errs)])
	case "dg":
		for k := 0; k < x.N; k++ {
			r.moved += m.nw.Inject(m.def.Own, m.def.Own, m.port, x.IP, 6454, x.Frame)
		}
	case "dev":
		if !m.on || m.ctl == nil {
			return
		}
		var from IP
		copy(from[:], x.Dev.IP)
		r.moved += m.nw.Inject(m.def.Own, m.def.Own, m.port, from, 6454, x.Dev.Frame())
		// data for the device announced before, which is known by now
		for _, p := range m.last {
			var d [512]byte
			for i := range d {
				d[i] = x.Fill
			}
			try(func() { m.ctl.SendDMXToAddress(d, p.Address) })
		}
		m.last = x.Dev.Lib().OutputPorts
	}
	if r.moved > 0 {
		r.o.label("others-active")
	}
}

func (m *mate) stop() {
	if m.ctl != nil {
		m.ctl.Stop()
	} else {
		m.node.Stop()
	}
}

// leave stops the others.
func (r *companyRun) leave() {
	for _, m := range r.mates {
		if m.on && !m.dead {
			m.on = false
			guarded(time.Minute, m.stop)
		}
	}
}
