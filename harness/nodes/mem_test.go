package nodes

import (
	"runtime"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// ---- C36: nothing is kept of what has been dealt with ------------------------

// RoundOp is one step of a round. What it sends differs from round to round.
type RoundOp struct {
	K     string `json:"k"`
	N     int    `json:"n,omitempty"`
	Frame Hex    `json:"frame,omitempty"`
	At    int    `json:"at,omitempty"`   // the byte of the frame that varies
	Same  bool   `json:"same,omitempty"` // always from the same host
	Ports int    `json:"ports,omitempty"`
	Err   int    `json:"err,omitempty"`
	Us    int    `json:"us,omitempty"`
}

// MemCase is a round of steps that is repeated.
type MemCase struct {
	Ctl   bool      `json:"ctl,omitempty"`
	FPS   int       `json:"fps,omitempty"`
	Debug bool      `json:"debug,omitempty"`
	Ops   []RoundOp `json:"ops"`
}

const (
	memWarm   = 60
	memRounds = 240
	memSlack  = 32 << 10
)

type memRun struct {
	c    *MemCase
	o    *outcome
	nw   *simnet.Net
	own  IP
	n    *artnet.Node
	ctl  *artnet.Controller
	k    int // counts what was sent
	fail atomic.Int64
	anns bool
	got  atomic.Int64
}

func (r *memRun) start() bool {
	r.nw.SetHost(r.own)
	var err error
	if r.ctl != nil {
		err = r.ctl.Start()
	} else {
		err = r.n.Start()
	}
	if err != nil {
		r.o.fail("hang", "start fails: %v", err)
	}
	return err == nil
}

func (r *memRun) stop() bool {
	f := func() { r.n.Stop() }
	if r.ctl != nil {
		f = r.ctl.Stop
	}
	if !within(time.Minute, f) {
		r.o.fail("hang", "Stop does not return")
		return false
	}
	return true
}

// other is a host that has not been heard of in this round.
func (r *memRun) other(same bool) IP {
	if same {
		return IP{10, 200, 0, 1}
	}
	return IP{10, uint8(r.k >> 16), uint8(r.k >> 8), uint8(r.k)}
}

func (r *memRun) inject(from IP, b []byte) {
	r.nw.Inject(r.own, r.own, 6454, from, 6454, b)
	r.k++
	if r.k%64 == 0 {
		synctest.Wait()
	}
}

func (r *memRun) ann(ports int) *Ann {
	k := r.k
	a := &Ann{IP: r.other(false), Bind: uint8(k % 3), Net: uint8(k>>8) & 0x7f, Sub: uint8(k>>4) & 15, Num: uint16(ports), Seed: uint8(k)}
	for i := 0; i < ports; i++ {
		a.Ports[i] = PortAnn{Flags: 0x80, Out: uint8(k+i) & 15}
		if i == 2 {
			a.Ports[i] = PortAnn{Flags: 0x40, In: uint8(k) & 15}
		}
	}
	return a
}

// round executes the steps once.
func (r *memRun) round() bool {
	for i := range r.c.Ops {
		op := &r.c.Ops[i]
		switch op.K {
		case "dgram":
			for j := 0; j < op.N; j++ {
				b := append([]byte(nil), op.Frame...)
				if op.At < len(b) {
					b[op.At] ^= uint8(r.k)
				}
				if op.At+1 < len(b) {
					b[op.At+1] ^= uint8(r.k >> 8)
				}
				r.inject(r.other(op.Same), b)
			}
		case "rerr":
			for j := 0; j < op.N; j++ {
				r.nw.InjectErr(r.own, simnet.Errs[op.Err%len(simnet.Errs)])
			}
		case "wfail":
			r.fail.Store(int64(op.N))
		case "restart":
			if !r.stop() || !r.start() {
				return false
			}
		case "reg":
			if r.n == nil {
				continue
			}
			if !r.stop() {
				return false
			}
			x := code.OpCode(uint16(r.k))
			if x != code.OpPoll && x != code.OpPollReply && x != code.OpDMX {
				r.n.RegisterCallback(x, func(packet.ArtNetPacket) {})
				r.n.DeregisterCallback(x)
			}
			if !r.start() {
				return false
			}
		case "ann":
			for j := 0; j < op.N; j++ {
				a := r.ann(op.Ports)
				b := a.frame()
				r.inject(a.IP, b)
				if op.Same { // and once more
					r.inject(a.IP, b)
				}
				if r.ctl != nil && op.Err > 0 { // data for one of its universes
					synctest.Wait()
					r.ctl.SendDMXToAddress(block(uint32(r.k)), artnet.Address{Net: a.Net, SubUni: a.Sub<<4 | a.Ports[0].Out})
				}
			}
			r.anns = true
		case "dmx":
			for j := 0; j < op.N && r.ctl != nil; j++ {
				r.ctl.SendDMXToAddress(block(uint32(r.k)), artnet.Address{Net: uint8(r.k>>8) & 0x7f, SubUni: uint8(r.k)})
				r.k++
			}
		case "sleep":
			synctest.Wait()
			time.Sleep(time.Duration(op.Us) * time.Microsecond)
		}
	}
	synctest.Wait()
	if r.ctl != nil && r.anns {
		time.Sleep(11 * time.Second) // they are forgotten
		synctest.Wait()
	}
	r.nw.Forget()
	return true
}

func (r *memRun) heap() int64 {
	time.Sleep(time.Minute)
	synctest.Wait()
	r.nw.Forget()
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

func runMem(t *testing.T, c *MemCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		r := &memRun{c: c, o: o, nw: nw, own: IP{2, 0, 0, 1}}
		nw.WriteErr = func(*simnet.Sent) error {
			if r.fail.Add(-1) >= 0 {
				return simnet.Errs[0]
			}
			return nil
		}
		if c.Ctl {
			r.ctl = artnet.NewController("mem", ipOf(r.own, false), newLog(c.Debug, o), artnet.MaxFPS(c.FPS))
		} else {
			r.n = artnet.NewNode("mem", code.StNode, ipOf(r.own, false), newLog(c.Debug, o))
			r.n.RegisterCallback(code.OpDMX, func(packet.ArtNetPacket) { r.got.Add(1) })
		}
		if !r.start() {
			return
		}
		rounds := func(n int) bool {
			for ; n > 0; n-- {
				if !r.round() {
					return false
				}
			}
			return true
		}
		if !rounds(memWarm) {
			return
		}
		h0 := r.heap()
		if !rounds(memRounds) {
			return
		}
		h1 := r.heap()
		if h1-h0 > memSlack {
			// only what goes on growing is kept for ever
			o.label("looked-closer")
			if !rounds(3 * memRounds) {
				return
			}
			h2 := r.heap()
			if h2-h1 > 2*(h1-h0) {
				o.fail("memory", "memory grows by %d bytes in %d rounds and by %d in the next %d", h1-h0, memRounds, h2-h1, 3*memRounds)
			}
		}
		o.label("done")
		r.stop()
	})
}

func genMem(ctl bool) func(t *rapid.T) MemCase {
	return func(t *rapid.T) MemCase {
		c := MemCase{Ctl: ctl, Debug: fgen.Roll(t, 8, "debug") == 0}
		if ctl {
			c.FPS = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "fps")
		}
		add := func(op RoundOp) { c.Ops = append(c.Ops, op) }
		for m := rapid.IntRange(1, 3).Draw(t, "nops"); m > 0; m-- {
			n := rapid.SampledFrom([]int{12, 1, 20, 40}).Draw(t, "n")
			k := fgen.Roll(t, 12, "op")
			switch {
			case k < 4:
				op := RoundOp{K: "dgram", N: n, Same: fgen.Roll(t, 3, "same") == 0}
				switch fgen.Roll(t, 4, "what") {
				case 0:
					op.Frame = fgen.Frame(t)
				case 1:
					op.Frame = pollFrame(rapid.Byte().Draw(t, "talk"), 0)
				case 2:
					op.Frame = ref.ByName("ArtDMX").Encode(ref.Values{"Data": fgen.Bytes(t, 512, "d")}, true)
				case 3:
					l := fgen.Type(t)
					op.Frame = l.Encode(fgen.GenFields(t, l, true).Ref(), true)
				}
				if opOf(op.Frame) == opPollReply { // made by "ann"
					op.Frame[8] ^= 0x5a
				}
				if len(op.Frame) > 12 {
					op.At = rapid.IntRange(12, min(len(op.Frame)-1, 80)).Draw(t, "at")
				}
				add(op)
			case k == 4:
				add(RoundOp{K: "rerr", N: n, Err: fgen.Roll(t, len(simnet.Errs), "err")})
			case k == 5:
				add(RoundOp{K: "wfail", N: n})
				add(RoundOp{K: "dgram", N: n, Frame: pollFrame(2, 0), At: 12})
			case k == 6:
				add(RoundOp{K: "restart"})
			case k == 7 && !ctl:
				add(RoundOp{K: "reg"})
			case k == 7:
				add(RoundOp{K: "dmx", N: n})
			case k == 8:
				add(RoundOp{K: "sleep", Us: rapid.SampledFrom([]int{1, 300000, 3000000, 8000000}).Draw(t, "us")})
			default:
				add(RoundOp{K: "ann", N: min(n, 20), Ports: rapid.IntRange(0, 4).Draw(t, "ports"), Same: rapid.Bool().Draw(t, "again"), Err: fgen.Roll(t, 2, "dmx")})
			}
		}
		return c
	}
}

func memTest(t *testing.T, ctl bool) {
	vlib.Check(t, "C36", genMem(ctl), func(t *testing.T, c MemCase) vlib.Result {
		o := newOutcome()
		err := runMem(t, &c, o)
		if o.errs["memory"] != nil { // measured: has to show again
			again := newOutcome()
			runMem(t, &c, again)
			if again.errs["memory"] == nil {
				delete(o.errs, "memory")
				o.label("did-not-show-again")
			}
		}
		o.nontriv = o.labels["done"]
		r := o.result("memory", "hang")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func TestC36Node(t *testing.T) { memTest(t, false) }
func TestC36Ctl(t *testing.T)  { memTest(t, true) }
