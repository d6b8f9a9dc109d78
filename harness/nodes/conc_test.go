package nodes

import (
	"encoding/binary"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/cfg"
	"verif/dict"
	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// ---- C24: concurrent submission, discovery and shutdown ---------------------

// Announcer is one device that announces itself.
type Announcer struct {
	Anns []Ann `json:"anns"`
	Us   []int `json:"us"`
}

// Submitter is one goroutine that submits.
type Submitter struct {
	U  []Addr `json:"u"`
	N  int    `json:"n"`
	Us int    `json:"us"` // pause between two rounds, 0: none
}

// ConcCase is a generated concurrent history.
type ConcCase struct {
	FPS   int         `json:"fps"`
	Debug bool        `json:"debug,omitempty"`
	Anns  []Announcer `json:"anns"`
	Subs  []Submitter `json:"subs"`
	Polls int         `json:"polls,omitempty"`
	Fail  int         `json:"fail,omitempty"` // every n-th send fails
	Us    int         `json:"us"`             // stop after
	Again bool        `json:"again,omitempty"`
	Over  bool        `json:"over,omitempty"`  // the submitters go on while the controller starts and restarts
	Stops int         `json:"stops,omitempty"` // further goroutines that stop it
	Out   bool        `json:"out,omitempty"`   // with the default logger
}

func concBlock(sub, serial int, u Addr) (d [512]byte) {
	binary.BigEndian.PutUint16(d[0:], uint16(sub+1))
	binary.BigEndian.PutUint32(d[2:], uint32(serial+1))
	d[6], d[7] = u[0], u[1]
	for i := 8; i < 512; i++ {
		d[i] = fgen.Mix(uint64(sub)<<32|uint64(serial), i)
	}
	return
}

func runConc(t *testing.T, c *ConcCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		own := IP{2, 0, 0, 1}
		nw.SetHost(own)
		var wmu sync.Mutex
		k := 0
		nw.WriteErr = func(*simnet.Sent) error {
			wmu.Lock()
			defer wmu.Unlock()
			k++
			if c.Fail > 0 && k%c.Fail == 0 {
				return simnet.Errs[k%len(simnet.Errs)]
			}
			return nil
		}
		log := newLog(c.Debug, o)
		if c.Out {
			log = defaultLog()
		}
		ctl := artnet.NewController("conc", ipOf(own, false), log, artnet.MaxFPS(c.FPS))
		rounds := 1
		if c.Again {
			rounds = 2
		}
		var swg sync.WaitGroup
		submit := func() {
			for i := range c.Subs {
				s := &c.Subs[i]
				swg.Go(func() {
					for j := 0; j < s.N; j++ {
						for _, u := range s.U {
							ctl.SendDMXToAddress(concBlock(i, j, u), u.lib())
						}
						if s.Us > 0 {
							time.Sleep(time.Duration(s.Us) * time.Microsecond)
						} else {
							runtime.Gosched()
						}
					}
				})
			}
		}
		if c.Over {
			submit()
		}
		type key struct {
			u   Addr
			sub int
		}
		last := map[key]int{}
		for round := 0; round < rounds; round++ {
			mark := nw.SentCount()
			if err := ctl.Start(); err != nil {
				o.fail("hang", "start fails: %v", err)
				return
			}
			var wg sync.WaitGroup
			quit := make(chan struct{})
			for i := range c.Anns {
				a := &c.Anns[i]
				wg.Go(func() {
					for j := range a.Anns {
						nw.Inject(own, own, 6454, a.Anns[j].IP, 6454, a.Anns[j].frame())
						select {
						case <-quit:
							return
						case <-time.After(time.Duration(a.Us[j%len(a.Us)]) * time.Microsecond):
						}
					}
				})
			}
			wg.Go(func() {
				for j := 0; j < c.Polls; j++ {
					nw.Inject(own, own, 6454, IP{2, 0, 0, 2}, 6454, pollFrame(2, 0))
					if j%16 == 15 {
						time.Sleep(time.Millisecond)
					}
				}
			})
			if !c.Over {
				submit()
			}
			time.Sleep(time.Duration(c.Us) * time.Microsecond)
			for k := 0; k < c.Stops; k++ {
				wg.Go(ctl.Stop)
			}
			if !within(time.Minute, ctl.Stop) {
				o.fail("hang", "Stop does not return")
				return
			}
			close(quit)
			n := nw.SentCount()
			if !within(10*time.Minute, func() {
				if !c.Over || round == rounds-1 {
					swg.Wait()
				}
				wg.Wait()
			}) {
				o.fail("hang", "SendDMXToAddress does not return")
				return
			}
			synctest.Wait()
			if nw.SentCount() != n {
				o.fail("stop", "frames sent after Stop returned")
			}
			// frames
			if !c.Over {
				clear(last)
			}
			for _, s := range nw.Sent(mark) {
				if opOf(s.Data) != opDMX {
					continue
				}
				v, _, vals := ref.Decode(s.Data)
				if v != ref.Accept {
					o.fail("torn", "malformed ArtDmx frame %v", s)
					continue
				}
				var d [512]byte
				copy(d[:], vals["Data"])
				if d == [512]byte{} {
					o.label("zero-frame")
					continue
				}
				u := Addr{vals["Net"][0], vals["SubUni"][0]}
				sub, serial := int(binary.BigEndian.Uint16(d[0:]))-1, int(binary.BigEndian.Uint32(d[2:]))-1
				if sub < 0 || sub >= len(c.Subs) || serial < 0 || serial >= c.Subs[sub].N || concBlock(sub, serial, u) != d {
					o.fail("torn", "ArtDmx for %v carries data that was never submitted for it as one block", u)
					continue
				}
				o.label("data-frame")
				if l, ok := last[key{u, sub}]; ok && serial < l {
					o.fail("order", "ArtDmx for %v carries block %d of a submitter after block %d", u, serial, l)
				}
				last[key{u, sub}] = serial
			}
			if len(last) > 1 {
				o.label("several-sources")
			}
		}
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("leak", "%d goroutines remain", len(g))
			var err error
			vlib.Leaving(&err)
		}
	})
}

func genConc(t *rapid.T) ConcCase {
	c := ConcCase{FPS: dict.Pick(t, []int{1000, 100, 40, 1000, 500}, 1000, "fps"), Debug: fgen.Roll(t, 4, "debug") == 0}
	var us []Addr
	for n := rapid.IntRange(1, 4).Draw(t, "ndev"); n > 0; n-- {
		i := uint8(n)
		var a Announcer
		base := Ann{IP: IP{2, 0, 1, i}, Net: i, Sub: uint8(fgen.Roll(t, 16, "sub")), Num: 4, Seed: i}
		for j := range base.Ports {
			base.Ports[j] = PortAnn{Flags: 0x80, Out: uint8(j * 3)}
			us = append(us, Addr{i, base.Sub<<4 | uint8(j*3)})
		}
		for m := rapid.IntRange(1, 8).Draw(t, "nann"); m > 0; m-- {
			x := base
			if fgen.Roll(t, 3, "drop") == 0 {
				x.Ports[fgen.Roll(t, 4, "dropp")].Flags = 0
			}
			a.Anns = append(a.Anns, x)
			a.Us = append(a.Us, dict.PickUs(t, []int{1, 500, 1000, 20000, 300000, 3000000, 8000000}, 12000000, "annus"))
		}
		c.Anns = append(c.Anns, a)
	}
	us = append(us, Addr{99, 9})
	for n := rapid.IntRange(1, 5).Draw(t, "nsub"); n > 0; n-- {
		s := Submitter{N: dict.Pick(t, []int{5, 40, 200, 400}, 600, "n"), Us: dict.PickUs(t, []int{0, 1000, 100, 7000, 250000}, 1000000, "subus")}
		for k := rapid.IntRange(1, 3).Draw(t, "nu"); k > 0; k-- {
			s.U = append(s.U, us[fgen.Roll(t, len(us), "su")])
		}
		c.Subs = append(c.Subs, s)
	}
	if fgen.Roll(t, 3, "polls") == 0 {
		c.Polls = dict.Pick(t, []int{1, 20, 200}, 300, "npolls")
	}
	if fgen.Roll(t, 3, "fail") == 0 {
		c.Fail = rapid.IntRange(1, 5).Draw(t, "failn")
	}
	c.Us = dict.PickUs(t, []int{0, 1, 1000, 25000, 250000, 600000, 3000000, 9000000, 14000000}, 12000000, "stopus")
	c.Again = fgen.Roll(t, 4, "again") == 0
	c.Over = fgen.Roll(t, 3, "over") == 0
	if fgen.Roll(t, 4, "stops") == 0 {
		c.Stops = rapid.IntRange(1, 3).Draw(t, "nstops")
	}
	c.Out = fgen.Roll(t, 6, "out") == 0
	return c
}

func TestC24(t *testing.T) {
	vlib.Check(t, "C24", genConc, func(t *testing.T, c ConcCase) vlib.Result {
		o := newOutcome()
		err := runConc(t, &c, o)
		o.nontriv = o.labels["data-frame"]
		r := o.result("torn", "order", "hang")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

// ---- C31: a node's methods from any goroutine -------------------------------

// MOp is one call.
type MOp struct {
	K  string `json:"k"` // start stop reg dereg dg sleep
	Op uint16 `json:"op,omitempty"`
	N  int    `json:"n,omitempty"`
	Us int    `json:"us,omitempty"`
}

// MultiCase is a node whose methods are called by several goroutines.
type MultiCase struct {
	Debug bool    `json:"debug,omitempty"`
	Out   bool    `json:"out,omitempty"`
	Pre   []MOp   `json:"pre,omitempty"` // before the goroutines
	Calls [][]MOp `json:"calls"`         // per goroutine
	InCB  []MOp   `json:"incb"`          // what callbacks do, one each
}

func multiFrame(op uint16, n int) []byte {
	if op == opPoll {
		return pollFrame(2, 0)
	}
	for _, l := range ref.Layouts {
		if l.OpCode == op {
			v := ref.Values{}
			if l.Name == "ArtDMX" {
				d := make([]byte, 512)
				for i := range d {
					d[i] = byte(n)
				}
				v["Data"] = d
			}
			return l.Encode(v, true)
		}
	}
	panic("harness: no layout")
}

func runMulti(t *testing.T, c *MultiCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		own, other := IP{2, 0, 0, 1}, IP{2, 0, 0, 2}
		nw.SetHost(own)
		log := newLog(c.Debug, o)
		if c.Out {
			log = defaultLog()
		}
		n := artnet.NewNode("multi", code.StNode, ipOf(own, false), log)
		var mu sync.Mutex
		ncb, nstart, inv := 0, 0, 0
		var do func(x MOp)
		cb := func(op uint16) artnet.NodeCallbackFn {
			return func(p packet.ArtNetPacket) {
				if uint16(p.GetOpCode()) != op {
					o.mfail(&mu, "multi", "callback for %#x called with %T", op, p)
				}
				if d, ok := p.(*packet.ArtDMXPacket); ok {
					for _, x := range d.Data {
						if x != d.Data[0] {
							o.mfail(&mu, "multi", "torn data in a callback")
							break
						}
					}
				}
				mu.Lock()
				k := ncb
				ncb++
				inv++
				mu.Unlock()
				if len(c.InCB) > 0 && k < 40 {
					do(c.InCB[k%len(c.InCB)])
				}
			}
		}
		do = func(x MOp) {
			switch x.K {
			case "start":
				if n.Start() == nil {
					mu.Lock()
					nstart++
					mu.Unlock()
				}
			case "stop":
				n.Stop()
			case "reg":
				n.RegisterCallback(code.OpCode(x.Op), cb(x.Op))
			case "dereg":
				n.DeregisterCallback(code.OpCode(x.Op))
			case "dg":
				for k := 0; k < max(1, x.N); k++ {
					nw.Inject(own, own, 6454, other, 6454, multiFrame(x.Op, k))
				}
			case "sleep":
				time.Sleep(time.Duration(x.Us) * time.Microsecond)
			case "yield":
				for k := 0; k < x.N; k++ {
					runtime.Gosched()
				}
			}
		}
		for _, x := range c.Pre {
			do(x)
		}
		var wg sync.WaitGroup
		for i := range c.Calls {
			wg.Go(func() {
				for _, x := range c.Calls[i] {
					do(x)
				}
			})
		}
		if !within(10*time.Minute, wg.Wait) {
			o.fail("hang", "a method of the node does not return")
			return
		}
		// callbacks may still start and stop the node
		for k := 0; k < 5; k++ {
			time.Sleep(100 * time.Millisecond)
			synctest.Wait()
			if !within(time.Minute, n.Stop) {
				o.fail("hang", "Stop does not return")
				return
			}
		}
		o.labels["started"] = nstart > 0
		o.labels["called"] = inv > 0
		if s := nw.Open(); len(s) > 0 {
			o.fail("multi", "%d sockets open after Stop", len(s))
		}
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("multi", "%d goroutines remain after Stop, one is\n%s", len(g), g[0])
			err := o.errs["multi"]
			vlib.Leaving(&err)
			return
		}
		// it still works
		got := 0
		n.RegisterCallback(code.OpPoll, cb(opPoll))
		n.DeregisterCallback(code.OpPoll)
		n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) { mu.Lock(); got++; mu.Unlock() })
		var err error
		if !within(time.Minute, func() { err = n.Start() }) || err != nil {
			o.fail("multi", "the node cannot be started any more: %v", err)
			return
		}
		nw.Inject(own, own, 6454, other, 6454, multiFrame(opDMX, 1))
		nw.Inject(own, own, 6454, other, 6454, pollFrame(2, 0))
		time.Sleep(time.Millisecond)
		synctest.Wait()
		mu.Lock()
		if got != 1 {
			o.fail("multi", "a callback was called %d times for one datagram", got)
		}
		mu.Unlock()
		if !within(time.Minute, n.Stop) {
			o.fail("hang", "Stop does not return")
			return
		}
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("multi", "%d goroutines remain after Stop, one is\n%s", len(g), g[0])
			err := o.errs["multi"]
			vlib.Leaving(&err)
		}
	})
}

// mfail is fail for use by several goroutines.
func (o *outcome) mfail(mu *sync.Mutex, cat, format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	o.fail(cat, format, args...)
}

func genMulti(t *rapid.T) MultiCase {
	c := MultiCase{Debug: fgen.Roll(t, 4, "debug") == 0, Out: fgen.Roll(t, 6, "out") == 0}
	ops := []uint16{opDMX, opPoll, opDMX, 0x9900, opPollReply}
	call := func(cb bool) MOp {
		x := MOp{Op: rapid.SampledFrom(ops).Draw(t, "op")}
		switch k := fgen.Roll(t, 12, "k"); {
		case k < 3:
			x.K = "start"
		case k < 5:
			x.K = "stop"
		case k < 7:
			x.K = "reg"
		case k == 7:
			x.K = "dereg"
		case k == 8:
			x.K, x.Us = "sleep", dict.PickUs(t, []int{1, 100, 1000}, 1000, "us")
		case k == 9:
			x.K, x.N = "yield", rapid.SampledFrom([]int{1, 10, 100}).Draw(t, "y")
		default:
			x.K = "dg"
			if !cb {
				x.N = dict.Pick(t, []int{1, 1, 5, 30}, 600, "n")
			}
		}
		return x
	}
	for n := rapid.IntRange(0, 3).Draw(t, "npre"); n > 0; n-- {
		c.Pre = append(c.Pre, MOp{K: "reg", Op: rapid.SampledFrom(ops).Draw(t, "op")})
	}
	if fgen.Roll(t, 3, "prestart") > 0 {
		c.Pre = append(c.Pre, MOp{K: "start"})
	}
	for n := rapid.IntRange(2, 5).Draw(t, "ngo"); n > 0; n-- {
		var g []MOp
		for m := rapid.IntRange(1, 14).Draw(t, "ncalls"); m > 0; m-- {
			g = append(g, call(false))
		}
		c.Calls = append(c.Calls, g)
	}
	for n := rapid.IntRange(0, 3).Draw(t, "nincb"); n > 0; n-- {
		c.InCB = append(c.InCB, call(true))
	}
	return c
}

func TestC31(t *testing.T) {
	vlib.Check(t, "C31", genMulti, func(t *testing.T, c MultiCase) vlib.Result {
		o := newOutcome()
		err := runMulti(t, &c, o)
		o.nontriv = o.labels["started"] && o.labels["called"]
		r := o.result("multi", "hang", "leak")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

// ---- C25: a controller and nodes of this library ---------------------------

// E2ENode is a node of the network.
type E2ENode struct {
	Cfg  cfg.Config  `json:"cfg"`
	Cfg2 *cfg.Config `json:"cfg2,omitempty"`
	IP16 bool        `json:"ip16,omitempty"`
}

// EOp is one step.
type EOp struct {
	K    string `json:"k"`
	I    int    `json:"i,omitempty"`
	Alt  bool   `json:"alt,omitempty"`
	Port int    `json:"port,omitempty"`
	Seed uint32 `json:"seed,omitempty"`
	Us   int    `json:"us,omitempty"`
	C    int    `json:"c,omitempty"` // controller
}

// E2ECase is a generated network history.
type E2ECase struct {
	FPS   int       `json:"fps"`
	More  []int     `json:"more,omitempty"` // rates of further controllers
	Nodes []E2ENode `json:"nodes"`
	Ops   []EOp     `json:"ops"`
	Debug bool      `json:"debug,omitempty"`
}

type rcvd struct {
	at   time.Time
	u    Addr
	data [512]byte
}

type e2eNode struct {
	def     *E2ENode
	ip      IP
	n       *artnet.Node
	cfg     *cfg.Config // in force
	running bool
	since   time.Time
	mu      sync.Mutex
	got     []rcvd
	seen    int
}

type e2eCtl struct {
	ip       IP
	c        *artnet.Controller
	interval time.Duration
	running  bool
	t0       time.Time
	pending  map[Addr]*e2eSub
}

func (c *e2eCtl) drop(x *e2eNode) {
	for u, p := range c.pending {
		if x == nil || p.node == x {
			delete(c.pending, u)
		}
	}
}

func (c *e2eCtl) lib(k devKey) *artnet.ControlledNode {
	for _, n := range c.c.Nodes {
		if n.Node.IP.Equal(ipOf(k.ip, false)) && n.Node.BindIndex == k.bind {
			return n
		}
	}
	return nil
}

type e2eSub struct {
	data [512]byte
	due  time.Time
	node *e2eNode
	ok   bool
}

func runE2E(t *testing.T, c *E2ECase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		nw.Route = true
		var ctls []*e2eCtl
		for i, fps := range append([]int{c.FPS}, c.More...) {
			x := &e2eCtl{ip: IP{2, 0, 0, uint8(1 + i)}, interval: time.Second / time.Duration(fps), pending: map[Addr]*e2eSub{}}
			x.c = artnet.NewController("e2e", ipOf(x.ip, false), newLog(c.Debug, o), artnet.MaxFPS(fps))
			ctls = append(ctls, x)
		}
		var nodes []*e2eNode
		for i := range c.Nodes {
			x := &e2eNode{def: &c.Nodes[i], ip: IP{2, 0, 0, uint8(10 + i)}}
			x.n = artnet.NewNode("n", code.StNode, ipOf(x.ip, x.def.IP16), newLog(c.Debug, o))
			x.n.RegisterCallback(code.OpDMX, func(p packet.ArtNetPacket) {
				d, ok := p.(*packet.ArtDMXPacket)
				if !ok {
					return
				}
				x.mu.Lock()
				x.got = append(x.got, rcvd{time.Now(), Addr{d.Net, d.SubUni}, d.Data})
				x.mu.Unlock()
			})
			nodes = append(nodes, x)
		}
		ever := map[Addr][][512]byte{}
		outs := func(f *cfg.Config) map[Addr]bool {
			m := map[Addr]bool{}
			for _, p := range f.Out {
				m[Addr{p.Net, p.SubUni}] = true
			}
			return m
		}
		// replies a device owes: one for each poll of another, and one for each of its own
		asked, replied, sent := map[IP]int{}, map[IP]int{}, 0
		traffic := func() {
			list := nw.Sent(sent)
			sent += len(list)
			if nw.Storm {
				o.fail("storm", "devices keep answering each other")
			}
			for _, e := range list {
				if len(e.Data) < 10 {
					o.fail("storm", "%v sends %d bytes", e.Host, len(e.Data))
					continue
				}
				var from *e2eCtl
				for _, k := range ctls {
					if k.ip == e.Host {
						from = k
					}
				}
				switch op := uint16(e.Data[8]) | uint16(e.Data[9])<<8; {
				case op == opPoll && from != nil:
					for _, k := range ctls {
						if k.running {
							asked[k.ip]++
						}
					}
					for _, x := range nodes {
						if x.running {
							asked[x.ip]++
						}
					}
				case op == opPollReply:
					replied[e.Host]++
				case op == opDMX && from != nil:
					ok := false
					for _, x := range nodes {
						ok = ok || e.To == x.ip
					}
					if !ok {
						o.fail("storm", "controller %v sends data to %v, which is no node", e.Host, e.To)
					}
				default:
					o.fail("storm", "%v sends a datagram with opcode %#x", e.Host, op)
				}
			}
			for i, k := range ctls {
				if asked[k.ip] != replied[k.ip] {
					o.fail("storm", "controller %d: %d polls, %d announcements", i, asked[k.ip], replied[k.ip])
				}
			}
			for i, x := range nodes {
				if asked[x.ip] != replied[x.ip] {
					o.fail("storm", "node %d: %d polls, %d announcements", i, asked[x.ip], replied[x.ip])
				}
			}
		}
		observe := func() {
			synctest.Wait()
			now := time.Now()
			traffic()
			for i, x := range nodes {
				x.mu.Lock()
				got := x.got[x.seen:]
				x.seen = len(x.got)
				x.mu.Unlock()
				for _, g := range got {
					if !outs(&x.def.Cfg)[g.u] && (x.def.Cfg2 == nil || !outs(x.def.Cfg2)[g.u]) {
						o.fail("deliver", "node %d received data for %v, which it does not have", i, g.u)
					}
					ok := g.data == [512]byte{}
					for _, d := range ever[g.u] {
						ok = ok || d == g.data
					}
					if !ok {
						o.fail("deliver", "node %d received data for %v that was never submitted: %s", i, g.u, short(g.data[:]))
					}
					o.label("received")
					for _, k := range ctls {
						if p := k.pending[g.u]; p != nil && p.node == x && p.data == g.data {
							p.ok = true
							o.label("delivered")
						}
					}
				}
			}
			up := 0
			for j, k := range ctls {
				if !k.running {
					continue
				}
				up++
				for _, n := range k.c.Nodes {
					ok := false
					for _, x := range nodes {
						ok = ok || n.Node.IP.Equal(ipOf(x.ip, false))
					}
					if !ok {
						o.fail("discover", "controller %d knows %v, which is no node", j, n.Node.IP)
					}
				}
				for i, x := range nodes {
					key := devKey{x.ip, 0}
					if x.cfg != nil {
						key.bind = x.cfg.BindIndex
					}
					cn := k.lib(key)
					if x.running {
						from := x.since
						if k.t0.After(from) {
							from = k.t0
						}
						if now.Sub(from) >= 3*time.Second+20*time.Millisecond {
							if cn == nil {
								o.fail("discover", "node %d is not known to controller %d %v after both run", i, j, now.Sub(from))
								continue
							}
							o.label("discovered")
							if err := cfg.CompareRead(cn.Node, x.cfg.Reply()); err != nil {
								o.fail("discover", "node %d: %v", i, err)
							}
							for _, p := range x.cfg.Out {
								if k.c.OutputAddress[artnet.Address{Net: p.Net, SubUni: p.SubUni}] != cn {
									o.fail("discover", "output %v of node %d is not mapped to it", p, i)
								}
							}
							for _, p := range x.cfg.In {
								if k.c.InputAddress[artnet.Address{Net: p.Net, SubUni: p.SubUni}] != cn {
									o.fail("discover", "input %v of node %d is not mapped to it", p, i)
								}
							}
						}
					} else if cn != nil && now.Sub(x.since) > mustGo {
						o.fail("discover", "node %d is still known %v after it was stopped", i, now.Sub(x.since))
					} else if cn == nil && x.cfg != nil {
						o.label("stopped-node-gone")
					}
				}
				for u, p := range k.pending {
					if p.ok {
						delete(k.pending, u)
					} else if now.After(p.due) {
						o.fail("deliver", "data submitted to controller %d for %v did not reach node %v", j, u, p.node.ip)
						delete(k.pending, u)
					}
				}
			}
			if up > 1 {
				o.label("shared")
			}
		}
		for _, op := range c.Ops {
			observe()
			switch op.K {
			case "nstart":
				x := nodes[op.I%len(nodes)]
				if x.running {
					continue
				}
				x.cfg = &x.def.Cfg
				if op.Alt && x.def.Cfg2 != nil {
					x.cfg = x.def.Cfg2
					o.label("reconfigured")
				}
				x.n.Config = x.cfg.Lib()
				nw.SetHost(x.ip)
				if err := x.n.Start(); err != nil {
					o.fail("discover", "node does not start: %v", err)
					continue
				}
				x.running, x.since = true, time.Now()
			case "nstop":
				x := nodes[op.I%len(nodes)]
				if !x.running {
					continue
				}
				if !within(time.Minute, x.n.Stop) {
					o.fail("hang", "Stop does not return")
					return
				}
				x.running, x.since = false, time.Now()
				for _, k := range ctls {
					k.drop(x)
				}
			case "cstart":
				k := ctls[op.C%len(ctls)]
				if k.running {
					continue
				}
				nw.SetHost(k.ip)
				if err := k.c.Start(); err != nil {
					o.fail("discover", "controller does not start: %v", err)
					return
				}
				k.running, k.t0 = true, time.Now()
			case "cstop":
				k := ctls[op.C%len(ctls)]
				if !k.running {
					continue
				}
				if !within(time.Minute, k.c.Stop) {
					o.fail("hang", "Stop does not return")
					return
				}
				k.running = false
				k.drop(nil)
			case "dmx":
				x, k := nodes[op.I%len(nodes)], ctls[op.C%len(ctls)]
				if x.cfg == nil || len(x.cfg.Out) == 0 {
					continue
				}
				p := x.cfg.Out[op.Port%len(x.cfg.Out)]
				u := Addr{p.Net, p.SubUni}
				d := block(op.Seed)
				owner := k.c.OutputAddress[u.lib()]
				k.c.SendDMXToAddress(d, u.lib())
				if !k.running {
					continue
				}
				ever[u] = append(ever[u], d)
				delete(k.pending, u)
				if owner != nil && x.running {
					o.label("submitted")
					k.pending[u] = &e2eSub{data: d, due: time.Now().Add(k.interval + 2*time.Millisecond), node: x}
				}
			case "sleep":
				for d := op.Us; d > 0; d -= 1000000 {
					time.Sleep(time.Duration(min(d, 1000000)) * time.Microsecond)
					observe()
				}
			}
		}
		observe()
		for _, x := range nodes {
			if x.running && !within(time.Minute, x.n.Stop) {
				o.fail("hang", "Stop does not return")
			}
		}
		for _, k := range ctls {
			if k.running && !within(time.Minute, k.c.Stop) {
				o.fail("hang", "Stop does not return")
			}
		}
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("leak", "%d goroutines remain", len(g))
			var err error
			vlib.Leaving(&err)
		}
	})
}

func genE2E(t *rapid.T) E2ECase {
	return genE2EOf(t, fgen.Roll(t, 4, "more")/3)
}

// genE2EOf generates a history with up to this many further controllers.
func genE2EOf(t *rapid.T, more int) E2ECase {
	c := E2ECase{FPS: dict.Pick(t, []int{1000, 1, 10, 40, 44, 250}, 1000, "fps"), Debug: fgen.Roll(t, 6, "debug") == 0}
	usedO, usedI := map[Addr]int{}, map[Addr]int{}
	style := uint8(0)
	for ; more > 0; more-- {
		c.More = append(c.More, dict.Pick(t, []int{1000, 1, 10, 40, 44, 250}, 1000, "fps"))
	}
	n := rapid.IntRange(1, 5).Draw(t, "nnodes")
	ctl := func() int { return fgen.Roll(t, 1+len(c.More), "ctl") }
	mk := func(i int) cfg.Config {
		f := cfg.Gen(t, cfg.Opts{Style: &style, ASCII: true, WithinBase: true, ValidPorts: true, IPRequired: true})
		f.IP, f.IP16 = cfg.Hex{2, 0, 0, uint8(10 + i)}, rapid.Bool().Draw(t, "cip16")
		if rapid.Bool().Draw(t, "lowbase") {
			net := uint8(fgen.Roll(t, 2, "bn"))
			sub := uint8(fgen.Roll(t, 2, "bs")) << 4
			f.BaseNet, f.BaseSubUni = net, sub
			for k := range f.In {
				f.In[k].Net, f.In[k].SubUni = net, sub|f.In[k].SubUni&15
			}
			for k := range f.Out {
				f.Out[k].Net, f.Out[k].SubUni = net, sub|f.Out[k].SubUni&15
			}
		}
		strip := func(ps []cfg.Port, used map[Addr]int) []cfg.Port {
			for k, p := range ps {
				u := Addr{p.Net, p.SubUni}
				if o, ok := used[u]; ok && o != i+1 {
					return ps[:k]
				}
				used[u] = i + 1
			}
			return ps
		}
		f.In, f.Out = strip(f.In, usedI), strip(f.Out, usedO)
		if f.BindIndex > 3 {
			f.BindIndex = 0
		}
		return f
	}
	for i := 0; i < n; i++ {
		x := E2ENode{Cfg: mk(i), IP16: rapid.Bool().Draw(t, "nip16")}
		if fgen.Roll(t, 3, "alt") == 0 {
			f := mk(i)
			f.BindIndex = x.Cfg.BindIndex
			x.Cfg2 = &f
		}
		c.Nodes = append(c.Nodes, x)
	}
	add := func(op EOp) { c.Ops = append(c.Ops, op) }
	perm := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8}[:6+len(c.More)]).Draw(t, "order")
	for _, i := range perm {
		if i >= 5 {
			add(EOp{K: "cstart", C: i - 5})
		} else if i < n {
			add(EOp{K: "nstart", I: i})
		} else {
			continue
		}
		if fgen.Roll(t, 3, "gap") == 0 {
			add(EOp{K: "sleep", Us: dict.PickUs(t, []int{1, 1000000, 2999999, 3000000, 5000000}, 12000000, "gapus")})
		}
	}
	seed := uint32(0)
	for m := rapid.IntRange(1, 16).Draw(t, "nops"); m > 0; m-- {
		k := fgen.Roll(t, 12, "op")
		i := fgen.Roll(t, n, "i")
		switch {
		case k < 5:
			seed++
			add(EOp{K: "dmx", I: i, C: ctl(), Port: fgen.Roll(t, 4, "port"), Seed: seed*16 + uint32(fgen.Roll(t, 16, "shape"))})
		case k == 5:
			add(EOp{K: "nstop", I: i})
		case k == 6:
			add(EOp{K: "nstart", I: i, Alt: rapid.Bool().Draw(t, "useralt")})
		case k == 7 && fgen.Roll(t, 3, "ctlop") == 0:
			k := ctl()
			add(EOp{K: "cstop", C: k})
			if len(c.More) > 0 && rapid.Bool().Draw(t, "away") {
				add(EOp{K: "sleep", Us: dict.PickUs(t, []int{1000, 3000000, 11000000}, 12000000, "awayus")})
			}
			add(EOp{K: "cstart", C: k})
		default:
			add(EOp{K: "sleep", Us: dict.PickUs(t, []int{1000, 20000, 260000, 1000000, 3100000, 3100000, 7000000, 11000000}, 12000000, "us")})
		}
	}
	add(EOp{K: "sleep", Us: 3100000})
	for k := 0; k <= len(c.More); k++ {
		add(EOp{K: "dmx", I: 0, C: k, Seed: 16*900 + 3 + uint32(k)})
	}
	add(EOp{K: "sleep", Us: 1100000})
	return c
}

func TestC35(t *testing.T) {
	vlib.Check(t, "C35", func(t *rapid.T) E2ECase { return genE2EOf(t, rapid.IntRange(1, 3).Draw(t, "ctls")) }, func(t *testing.T, c E2ECase) vlib.Result {
		o := newOutcome()
		err := runE2E(t, &c, o)
		o.nontriv = o.labels["shared"] && o.labels["delivered"]
		r := o.result("storm", "discover", "deliver", "hang")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func TestC25(t *testing.T) {
	vlib.Check(t, "C25", genE2E, func(t *testing.T, c E2ECase) vlib.Result {
		o := newOutcome()
		err := runE2E(t, &c, o)
		o.nontriv = o.labels["delivered"]
		r := o.result("discover", "deliver", "hang")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

// ---- C27: update rates -----------------------------------------------------

func genRates(t *rapid.T) CtlCase {
	c := CtlCase{Own: IP{2, 0, 0, 1}, Name: Hex("rate")}
	fps := 1000
	opt := func() COpt {
		x := COpt{NOpt: NOpt{K: "fps", Late: rapid.Bool().Draw(t, "late")}}
		x.FPS = rapid.OneOf(
			rapid.SampledFrom([]int{0, -1, 1, 2, 1000, 999999999, 1000000000, 1000000001, 2147483647, -1000, 3, 7, 10000, 1000000, -9223372036854775808, 9223372036854775807, 5000000000}),
			rapid.IntRange(-2000, 2000), rapid.IntRange(1, 2000000000), rapid.IntRange(10000, 30000000)).Draw(t, "fps")
		return x
	}
	for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
		c.Opts = append(c.Opts, opt())
	}
	for _, late := range []bool{false, true} {
		for _, x := range c.Opts {
			if x.Late == late && goodFPS(x.FPS) {
				fps = x.FPS
			}
		}
	}
	a := Ann{IP: IP{2, 0, 0, 9}, Net: 1, Sub: 2, Num: 1, Seed: 3}
	a.Ports[0] = PortAnn{Flags: 0x80, Out: 3}
	run := func() {
		iv := max(1, 1000000000/fps)
		c.Ops = append(c.Ops, COp{K: "start"}, COp{K: "ann", Anns: []Ann{a}})
		for k := 0; k < 3; k++ {
			c.Ops = append(c.Ops, COp{K: "dmx", Dmx: []Submit{{Addr{1, 0x23}, uint32(17 + 16*k)}}},
				COp{K: "sleep", Ns: iv * rapid.IntRange(1, 5).Draw(t, "ticks")}, COp{K: "sleep", Ns: max(1, iv/2)})
		}
		if fps >= 10000 && fps <= 30000000 { // long against the interval, yet not too many ticks
			for k := 0; k < 2; k++ {
				c.Ops = append(c.Ops, COp{K: "dmx", Dmx: []Submit{{Addr{1, 0x23}, uint32(81 + 16*k)}}}, COp{K: "sleep", Ns: 2500000})
			}
		}
	}
	run()
	for n := rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "runs"); n > 0; n-- { // another rate for the next run
		c.Ops = append(c.Ops, COp{K: "stop"})
		for m := rapid.IntRange(1, 2).Draw(t, "m"); m > 0; m-- {
			x := opt()
			c.Ops = append(c.Ops, COp{K: "opt", Opt: &x})
			if goodFPS(x.FPS) {
				fps = x.FPS
			}
		}
		run()
	}
	return c
}

func rateTest(t *testing.T, prop string, cats ...string) {
	vlib.Check(t, prop, genRates, func(t *testing.T, c CtlCase) vlib.Result {
		o := newOutcome()
		err := runCtl(t, &c, o)
		bad := false
		for _, x := range c.Opts {
			bad = bad || !goodFPS(x.FPS)
		}
		if bad {
			o.label("bad-rate")
		}
		o.nontriv = true
		r := o.result(cats...)
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func TestC27Rate(t *testing.T)  { rateTest(t, "C27", "fps", "rate", "deliver", "hang") }
func TestC18Rates(t *testing.T) { rateTest(t, "C18", "deliver", "data", "owner", "hang") }
