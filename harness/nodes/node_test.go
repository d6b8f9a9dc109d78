package nodes

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/jsimonetti/go-artnet/packet"
	"github.com/jsimonetti/go-artnet/packet/code"
	"pgregory.net/rapid"

	"verif/cfg"
	"verif/dict"
	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// NOpt is a node option.
type NOpt struct {
	K    string `json:"k"` // listen, listenip, bcast
	IP   IP     `json:"ip"`
	Nil  bool   `json:"nil,omitempty"`
	Port int    `json:"port,omitempty"`
	Late bool   `json:"late,omitempty"` // given with SetOption after construction
}

// NOp is one step of a node history.
type NOp struct {
	K     string `json:"k"`
	Op    uint16 `json:"op,omitempty"`    // reg, dereg: opcode
	CB    int    `json:"cb,omitempty"`    // reg: callback identity
	Slow  int    `json:"slow,omitempty"`  // reg: virtual ms the callback takes
	Stops bool   `json:"stops,omitempty"` // reg: the callback stops the node
	Block bool   `json:"block,omitempty"` // reg: the callback does not return before the end
	From  IP     `json:"from,omitempty"`
	Port  int    `json:"port,omitempty"`
	Frame Hex    `json:"frame,omitempty"`
	N     int    `json:"n,omitempty"`
	Err   int    `json:"err,omitempty"`
	Us    int    `json:"us,omitempty"`
	Opt   *NOpt  `json:"opt,omitempty"`
}

// NodeCase is a generated node history.
type NodeCase struct {
	Cfg   cfg.Config  `json:"cfg"`
	Cfg2  *cfg.Config `json:"cfg2,omitempty"`
	Own   IP          `json:"own"`
	NoIP  bool        `json:"noip,omitempty"`
	IP16  bool        `json:"ip16,omitempty"`
	Opts  []NOpt      `json:"opts,omitempty"`
	Debug bool        `json:"debug,omitempty"`
	Ops   []NOp       `json:"ops"`

	Company *Company `json:"company,omitempty"` // others in the same process
}

type invocation struct {
	cb   int
	key  string
	p    packet.ArtNetPacket
	name string
	when int // executor step
}

const builtin = -1

type nodeRun struct {
	c   *NodeCase
	o   *outcome
	net *simnet.Net
	n   *artnet.Node

	listen, bcast struct {
		ip   IP
		port int
	}
	running  bool
	cfg      *cfg.Config // configuration as set now
	started  *cfg.Config // configuration at start
	reg      map[uint16]NOp
	inforce  map[uint16]NOp
	builtins map[uint16]bool // opcode still has its built-in handling
	inBuilt  map[uint16]bool

	must, maybe   map[string]int
	mustR, maybeR int
	mark          int
	pending       int
	maxSlow       int
	failWrites    int
	failErr       error
	closeErr      error
	edited        bool // configurations were changed in place
	other         bool // the second configuration is set
	writeYield    int  // how often sending a datagram lets others run first
	wmu           sync.Mutex

	mu      sync.Mutex
	got     []invocation
	seen    int
	stopped bool // Stop was called in this epoch
	up      bool // Start returned
	bad     string

	gate    chan struct{} // open at the end
	blocked int           // callbacks waiting for it

	count bool // count goroutines
	base  int  // goroutines after start
}

func keyOf(cb int, l *ref.Layout, v ref.Values) string {
	return fmt.Sprintf("%d|%s|%s", cb, l.Name, l.Encode(v, false))
}

func (r *nodeRun) callback(op NOp) artnet.NodeCallbackFn {
	return func(p packet.ArtNetPacket) {
		name := ref.TypeName(p)
		l := ref.ByName(name)
		if l == nil {
			r.mu.Lock()
			r.bad = "callback called with " + name
			r.mu.Unlock()
			return
		}
		inv := invocation{cb: op.CB, key: keyOf(op.CB, l, ref.Get(p, l)), p: p, name: name}
		opc := uint16(p.GetOpCode())
		r.mu.Lock()
		r.got = append(r.got, inv)
		if opc != l.OpCode {
			r.bad = fmt.Sprintf("%s delivered with opcode %#x", name, opc)
		}
		do := op.Stops && !r.stopped && r.up
		if do {
			r.stopped = true
		}
		r.mu.Unlock()
		if do {
			r.n.Stop()
		}
		if op.Slow > 0 {
			time.Sleep(time.Duration(op.Slow) * time.Millisecond)
		}
		if op.Block {
			r.mu.Lock()
			r.blocked++
			r.mu.Unlock()
			<-r.gate
		}
	}
}

func (r *nodeRun) option(x NOpt) artnet.NodeOption {
	var ip net.IP
	if !x.Nil {
		ip = ipOf(x.IP, x.Port%2 == 1)
	}
	switch x.K {
	case "listen":
		r.listen.ip, r.listen.port = x.IP, x.Port
		if x.Nil {
			r.listen.ip = IP{}
		}
		return artnet.NodeListenAddress(net.UDPAddr{IP: ip, Port: x.Port})
	case "listenip":
		r.listen.ip, r.listen.port = x.IP, 6454
		if x.Nil {
			r.listen.ip = IP{}
		}
		return artnet.NodeListenIP(ip)
	case "bcast":
		r.bcast.ip, r.bcast.port = x.IP, x.Port
		return artnet.NodeBroadcastAddress(net.UDPAddr{IP: ipOf(x.IP, x.Port%2 == 1), Port: x.Port})
	}
	panic("harness: option " + x.K)
}

// runNode executes a history. Categories of errors: start, addr, reply, cb,
// self, stop, alive, leak, hang.
func runNode(t *testing.T, c *NodeCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		r := &nodeRun{c: c, o: o, net: nw, cfg: &c.Cfg, must: map[string]int{}, maybe: map[string]int{}, reg: map[uint16]NOp{}, gate: make(chan struct{}),
			builtins: map[uint16]bool{opPoll: true, opPollReply: true}}
		for _, x := range testCats[t.Name()] {
			r.count = r.count || x == "accum"
		}
		r.listen.port = 6454
		r.bcast.ip, r.bcast.port = IP{2, 255, 255, 255}, 6454
		nw.SetHost(c.Own)
		nw.WriteErr = func(*simnet.Sent) error {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			if r.failWrites > 0 {
				r.failWrites--
				return r.failErr
			}
			return nil
		}
		nw.CloseErr = func() error {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			return r.closeErr
		}
		nw.WriteYield = func() int {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			return r.writeYield
		}
		var opts []artnet.NodeOption
		for _, x := range c.Opts {
			if !x.Late {
				opts = append(opts, r.option(x))
			}
		}
		var ip net.IP
		if !c.NoIP {
			ip = ipOf(c.Own, c.IP16)
		}
		others := c.Company.join(true, nw, o)
		lib := r.cfg.Lib()
		r.n = artnet.NewNode(lib.Name, lib.Type, ip, newLog(c.Debug, o), opts...)
		for _, x := range c.Opts {
			if x.Late {
				if err := r.n.SetOption(r.option(x)); err != nil {
					o.fail("addr", "option %+v refused: %v", x, err)
				}
			}
		}
		// name, style and address are those given to the constructor
		lib.Name, lib.Type = r.n.Config.Name, r.n.Config.Type
		if !c.NoIP {
			lib.IP = r.n.Config.IP
		}
		r.n.Config = lib
		if c.Company == nil || !c.Company.Early {
			others = c.Company.join(false, nw, o)
		}
		for i := range c.Ops {
			others.act(i)
			r.step(&c.Ops[i])
			if o.errs["hang"] != nil {
				break
			}
		}
		r.settle()
		others.leave()
		r.noneAdded()
		if r.running {
			r.stop(&NOp{K: "stop"})
		}
		close(r.gate)
		time.Sleep(time.Duration(r.maxSlow*(r.pending+1)+1) * time.Millisecond)
		r.quiet()
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("leak", "%d goroutines remain after the node was stopped:\n%s", len(g), g[0])
			err := o.result(testCats[t.Name()]...).Err
			vlib.Leaving(&err)
		}
	})
}

// testCats are the categories of errors that each test judges.
var testCats = map[string][]string{}

func (r *nodeRun) step(op *NOp) {
	o := r.o
	switch op.K {
	case "start":
		if !r.running {
			r.start(op)
		}
	case "stop":
		if r.running {
			r.stop(op)
		}
	case "cycle": // stop and start again, over and over
		for k := 0; k < op.N && o.errs["hang"] == nil; k++ {
			if r.running {
				r.stop(&NOp{K: "stop"})
			}
			if !r.running {
				r.start(&NOp{K: "start", N: 1})
			}
		}
		o.label("cycle")
	case "start+": // start a node that runs
		r.noteStop()
		if !r.running {
			return
		}
		o.label("started-twice")
		var err error
		if bad := guarded(time.Minute, func() { err = r.n.Start() }); bad != "" {
			o.fail("life", "Start of a running node %s", bad)
		} else if err == nil {
			o.fail("life", "Start of a running node reports no error")
		}
	case "stop+": // stop a node that does not run
		r.noteStop()
		if r.running {
			return
		}
		o.label("stopped-twice")
		if bad := guarded(time.Minute, r.n.Stop); bad != "" {
			o.fail("life", "Stop of a stopped node %s", bad)
		}
	case "reg":
		r.noteStop()
		if !r.running {
			r.reg[op.Op] = *op
			delete(r.builtins, op.Op)
		}
		r.maxSlow = max(r.maxSlow, op.Slow)
		r.n.RegisterCallback(code.OpCode(op.Op), r.callback(*op))
	case "dereg":
		r.noteStop()
		if !r.running {
			delete(r.reg, op.Op)
			delete(r.builtins, op.Op)
		}
		r.n.DeregisterCallback(code.OpCode(op.Op))
	case "cfg": // another configuration, in force from the next start on
		if r.c.Cfg2 == nil {
			return
		}
		if r.other = !r.other; r.other {
			r.cfg = r.c.Cfg2
		} else {
			r.cfg = &r.c.Cfg
		}
		r.n.Config = r.cfg.Lib()
	case "edit": // what the configuration refers to is changed in place, for the next start
		r.settle()
		o.label("edited")
		lib, x := &r.n.Config, byte(op.N)
		c := *r.cfg
		c.In, c.Out = slices.Clone(c.In), slices.Clone(c.Out)
		c.Ethernet, c.Report, c.BindIP = slices.Clone(c.Ethernet), slices.Clone(c.Report), slices.Clone(c.BindIP)
		for i := range c.In {
			c.In[i].SubUni ^= x
			c.In[i].Status ^= x
			lib.InputPorts[i].Address.SubUni ^= x
			lib.InputPorts[i].Status ^= code.GoodInput(x)
		}
		for i := range c.Out {
			c.Out[i].SubUni ^= x
			c.Out[i].Status ^= x
			lib.OutputPorts[i].Address.SubUni ^= x
			lib.OutputPorts[i].Status ^= code.GoodOutput(x)
		}
		for i := range c.Ethernet {
			c.Ethernet[i] ^= x
			lib.Ethernet[i] ^= x
		}
		for i := range c.Report {
			c.Report[i] ^= x
			lib.Report[i] ^= code.NodeReportCode(x)
		}
		for i := range c.BindIP {
			c.BindIP[i] ^= x
			lib.BindIP[len(lib.BindIP)-len(c.BindIP)+i] ^= x
		}
		r.cfg, r.edited = &c, true
	case "opt": // another option, in force from the next start on
		r.noteStop()
		if r.running {
			return
		}
		r.settle()
		o.label("option-between-runs")
		if err := r.n.SetOption(r.option(*op.Opt)); err != nil {
			o.fail("addr", "option %+v refused: %v", *op.Opt, err)
		}
	case "dg":
		if op.N > atMost {
			o.label("burst")
		}
		for k := 0; k < max(1, op.N); k++ {
			r.datagram(op)
		}
	case "err":
		if r.running {
			for k := 0; k < max(1, op.N); k++ {
				r.net.InjectErr(r.c.Own, simnet.Errs[op.Err%len(simnet.Errs)])
			}
			o.label("read-error")
		}
	case "wfail":
		r.wmu.Lock()
		r.failWrites, r.failErr = op.N, simnet.Errs[op.Err%len(simnet.Errs)]
		r.wmu.Unlock()
		o.label("write-error")
	case "wslow":
		r.wmu.Lock()
		r.writeYield = op.N
		r.wmu.Unlock()
		o.label("slow-socket")
	case "yield": // let the node's routines run a little
		yield(op.N)
	case "rest": // a stopped node is left alone until all it did has ended
		r.noteStop()
		if r.running {
			return
		}
		r.settle()
		time.Sleep(5*time.Second + time.Duration(r.maxSlow)*time.Millisecond)
		r.settle()
		r.maybeR = 0
		r.maybe = map[string]int{}
		o.label("rested")
	case "sleep":
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
	case "settle":
		r.settle()
	case "probe":
		r.settle()
		r.wmu.Lock()
		r.failWrites = 0
		r.wmu.Unlock()
		if !r.running {
			return
		}
		from := r.c.Own
		from[3] ^= 1
		r.datagram(&NOp{From: from, Port: 6454, Frame: pollFrame(2, 0x10)})
		d := make([]byte, 512)
		binary.BigEndian.PutUint32(d, 0x50524f42)
		r.datagram(&NOp{From: from, Port: 6454, Frame: ref.ByName("ArtDMX").Encode(ref.Values{"Data": d, "SubUni": {9}}, true)})
		r.settle()
	default:
		panic("harness: op " + op.K)
	}
}

// atMost is the number of goroutines by which an idle node may have grown since it was started.
const atMost = 8

// noneAdded checks that an idle node does not keep goroutines for the traffic it has handled.
func (r *nodeRun) noneAdded() {
	if !r.count || !r.running || r.isStopped() || r.o.errs["hang"] != nil {
		return
	}
	if g := libGoroutines(); len(g) > r.base+atMost {
		r.o.fail("accum", "an idle node has %d goroutines, it had %d when it was started; one is\n%s", len(g), r.base, g[len(g)-1])
	}
}

func (r *nodeRun) noneLeft() {
	g := settleGoroutines(time.Second)
	// callbacks called before an earlier stop may still be at work
	g = slices.DeleteFunc(g, func(s string) bool { return strings.Contains(s, "(*nodeRun).callback") })
	if len(g) > 0 {
		r.o.fail("start", "a failed start leaves %d goroutines running:\n%s", len(g), g[0])
	}
}

func (r *nodeRun) start(op *NOp) {
	o := r.o
	before := len(r.net.Listens())
	sent := r.net.SentCount()
	var lerr error
	if op.Err > 0 {
		lerr = simnet.Errs[op.Err%len(simnet.Errs)]
	}
	r.net.ListenErr = func(IP, int) error { return lerr }
	var err error
	r.mu.Lock()
	r.stopped = false
	r.mu.Unlock()
	if !within(time.Minute, func() { err = r.n.Start() }) {
		o.fail("hang", "Start does not return")
		return
	}
	ls := r.net.Listens()[before:]
	switch {
	case !r.cfg.Valid():
		o.label("start-invalid")
		if err == nil {
			o.fail("start", "start succeeds with ports that cannot be announced: in %+v out %+v", r.cfg.In, r.cfg.Out)
			r.stopQuietly()
			return
		}
		synctest.Wait()
		if len(ls) > 0 {
			o.fail("start", "a socket was opened although the ports cannot be announced")
		}
		if r.net.SentCount() != sent {
			o.fail("start", "datagrams were sent by a failed start")
		}
		r.noneLeft()
		return
	case lerr != nil:
		o.label("start-noport")
		if err == nil {
			o.fail("start", "start succeeds although the socket cannot be opened")
			r.stopQuietly()
		}
		synctest.Wait()
		if len(r.net.Open()) > 0 {
			o.fail("start", "a failed start leaves a socket open")
		}
		r.noneLeft()
		return
	}
	if err != nil {
		o.fail("start", "start fails with a valid configuration: %v", err)
		if op.N > 0 {
			o.fail("stop", "restart fails: %v", err)
		}
		return
	}
	o.label("started")
	if len(ls) != 1 || ls[0].Err != nil {
		o.fail("addr", "start opened %d sockets", len(ls))
	} else if l := ls[0]; l.IP != r.listen.ip || l.Port != r.listen.port {
		o.fail("addr", "listens on %v:%d, configured %v:%d", l.IP, l.Port, r.listen.ip, r.listen.port)
	}
	r.running = true
	r.mu.Lock()
	r.up = true
	r.mu.Unlock()
	r.started = r.cfg
	r.inforce = map[uint16]NOp{}
	for k, v := range r.reg {
		r.inforce[k] = v
	}
	r.inBuilt = map[uint16]bool{}
	for k := range r.builtins {
		r.inBuilt[k] = true
	}
	if r.count {
		synctest.Wait()
		r.base = len(libGoroutines())
	}
}

func (r *nodeRun) stopQuietly() { within(time.Minute, r.n.Stop) }

// ended turns everything not yet settled into optional.
func (r *nodeRun) ended() {
	r.running = false
	r.mu.Lock()
	r.up = false
	r.mu.Unlock()
	for k, v := range r.must {
		r.maybe[k] += v
	}
	r.must = map[string]int{}
	r.maybeR += r.mustR
	r.mustR = 0
}

func (r *nodeRun) stop(op *NOp) {
	o := r.o
	o.label("stopped")
	if r.pending > 0 {
		o.label("stopped-under-load")
	}
	r.mu.Lock()
	by := r.stopped // a callback was faster
	r.stopped = true
	r.mu.Unlock()
	if by {
		r.settle()
		return
	}
	r.wmu.Lock()
	r.closeErr = nil
	if op.Err > 0 {
		r.closeErr = simnet.Errs[op.Err%len(simnet.Errs)]
		o.label("close-error")
	}
	r.wmu.Unlock()
	if !within(time.Minute, r.n.Stop) {
		o.fail("stop", "Stop does not return")
		o.fail("hang", "Stop does not return")
		return
	}
	r.ended()
	r.afterStop()
}

func (r *nodeRun) afterStop() {
	o := r.o
	if s := r.net.Open(); len(s) > 0 {
		synctest.Wait()
		if len(r.net.Open()) > 0 {
			o.fail("stop", "the socket is still open after Stop")
		}
	}
}

// quiet checks that a stopped node sends nothing.
func (r *nodeRun) quiet() {
	if r.running {
		return
	}
	synctest.Wait()
	n := r.net.SentCount()
	time.Sleep(30 * time.Second)
	synctest.Wait()
	if r.net.SentCount() != n {
		r.o.fail("stop", "a stopped node sends: %v", r.net.Sent(n)[0])
	}
}

func (r *nodeRun) datagram(op *NOp) {
	o := r.o
	dst := r.c.Own
	if r.listen.ip != (IP{}) {
		dst = r.listen.ip
	}
	got := r.net.Inject(r.c.Own, dst, r.listen.port, op.From, op.Port, op.Frame)
	if !r.running {
		if got > 0 {
			r.afterStop()
		}
		return
	}
	if got == 0 {
		if r.isStopped() {
			return
		}
		o.fail("addr", "no socket receives on %v:%d", dst, r.listen.port)
		o.fail("alive", "no socket receives on %v:%d", dst, r.listen.port)
		return
	}
	r.pending++
	r.mu.Lock()
	blocked := r.blocked
	r.mu.Unlock()
	if op.From == r.c.Own && !r.c.NoIP {
		o.label("from-self")
		return
	}
	v, l, vals := ref.Decode(op.Frame)
	if v == ref.Reject {
		o.label("garbage")
		return
	}
	o.label("accepted-" + l.Name)
	if blocked > 0 {
		o.label("while-blocked")
	}
	tgt := r.must
	if v == ref.Open {
		tgt = r.maybe
	}
	if l.OpCode == opPoll && !r.inBuilt[opPoll] {
		o.label("poll-not-builtin")
	}
	if cb, ok := r.inforce[l.OpCode]; ok {
		tgt[keyOf(cb.CB, l, vals)]++
		o.label("callback")
		return
	}
	if l.OpCode == opPoll && r.inBuilt[opPoll] {
		o.label("poll")
		if v == ref.Open {
			r.maybeR++
		} else {
			r.mustR++
		}
	}
}

func (r *nodeRun) isStopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stopped
}

// noteStop waits for callbacks that may stop the node, to know whether it runs.
func (r *nodeRun) noteStop() {
	for _, x := range r.inforce {
		if r.running && x.Stops {
			r.settle()
		}
	}
}

func yield(n int) {
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

// settle waits until the node is idle and compares with the model.
func (r *nodeRun) settle() {
	o := r.o
	synctest.Wait()
	if r.maxSlow > 0 && r.pending > 0 {
		time.Sleep(time.Duration(r.maxSlow*r.pending+1) * time.Millisecond)
		synctest.Wait()
	}
	r.pending = 0
	if r.running && r.isStopped() {
		o.label("stopped-by-callback")
		r.ended()
		r.afterStop()
	}
	// callbacks
	r.mu.Lock()
	got := map[string]int{}
	for i := r.seen; i < len(r.got); i++ {
		got[r.got[i].key]++
	}
	r.seen = len(r.got)
	for _, g := range r.got {
		l := ref.ByName(g.name)
		if k := keyOf(g.cb, l, ref.Get(g.p, l)); k != g.key {
			o.fail("cb", "a packet handed to a callback changed afterwards (%s)", g.name)
		}
	}
	bad := r.bad
	r.mu.Unlock()
	if bad != "" {
		o.fail("cb", "%s", bad)
	}
	for k, m := range r.must {
		if got[k] < m {
			o.fail("cb", "callback %.40q called %d times for %d datagrams", k, got[k], m)
			o.fail("alive", "callback %.40q called %d times for %d datagrams", k, got[k], m)
			o.fail("restart", "callback %.40q called %d times for %d datagrams", k, got[k], m)
		}
	}
	keys := make([]string, 0, len(got))
	for k := range got {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		extra := got[k] - r.must[k]
		if extra <= 0 {
			continue
		}
		if extra > r.maybe[k] {
			o.fail("cb", "callback %.40q called %d times, expected %d (up to %d more)", k, got[k], r.must[k], r.maybe[k])
			o.fail("stop", "callback %.40q called %d times, expected %d (up to %d more)", k, got[k], r.must[k], r.maybe[k])
			o.fail("self", "callback %.40q called %d times, expected %d (up to %d more)", k, got[k], r.must[k], r.maybe[k])
		} else {
			r.maybe[k] -= extra
		}
	}
	r.must = map[string]int{}
	// replies
	n, failed := 0, 0
	for _, s := range r.net.Sent(r.mark) {
		r.mark++
		if r.started == nil {
			o.fail("reply", "sent before start: %v", s)
			continue
		}
		if s.To != r.bcast.ip || s.Port != r.bcast.port {
			o.fail("addr", "sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
			o.fail("reply", "sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
		}
		if opOf(s.Data) != opPollReply {
			o.fail("reply", "sent something other than an ArtPollReply: %v", s)
			continue
		}
		if want := r.started.Frame(); !bytes.Equal(s.Data, want) {
			i := 0
			for i < len(want) && i < len(s.Data) && want[i] == s.Data[i] {
				i++
			}
			// after a restart, a reply to a poll received before it may describe either configuration
			if r.maybeR == 0 || r.c.Cfg2 == nil && !r.edited {
				o.fail("reply", "announcement differs from the started configuration at byte %d:\n got %s\nwant %s", i, short(s.Data[max(0, i-4):]), short(want[max(0, i-4):]))
				o.fail("restart", "announcement differs from the started configuration at byte %d", i)
			}
		}
		n++
		if s.Err != nil {
			failed++
		}
	}
	if n < r.mustR {
		o.fail("reply", "%d replies to %d polls", n, r.mustR)
		o.fail("alive", "%d replies to %d polls", n, r.mustR)
		o.fail("restart", "%d replies to %d polls", n, r.mustR)
	}
	if failed == 0 && n > r.mustR {
		if n-r.mustR > r.maybeR {
			o.fail("reply", "%d replies to %d polls", n, r.mustR)
			o.fail("stop", "%d replies to %d polls (%d more before the stop)", n, r.mustR, r.maybeR)
			o.fail("self", "%d replies to %d polls from other hosts", n, r.mustR)
			if !r.inBuilt[opPoll] {
				o.fail("builtin", "%d replies although the handling of ArtPoll was replaced or removed", n)
			}
		}
		r.maybeR = max(0, r.maybeR-(n-r.mustR))
	}
	r.mustR = 0
}

// ---- generators ------------------------------------------------------------

type nodeProfile struct {
	validPorts  bool // configurations that start
	faults      bool
	starts      bool // repeated start/stop
	regs        bool
	selfs       bool
	polls       bool
	opts        bool
	listenFault bool
	maxOps      int
	stopsInCB   bool
	anns        bool // many announcements
	twice       bool // also start a running node and stop a stopped one
	company     bool // with others in the same process
	slowNet     bool // sending may take its time
	blocks      bool // callbacks that do not return
	logged      bool // always with a logger that is watched
}

func genIP(t *rapid.T, l string) IP {
	return hintIP(t, rapid.SampledFrom([]IP{{2, 0, 0, 7}, {10, 1, 2, 3}, {192, 168, 1, 20}, {127, 0, 0, 1}, {2, 0, 0, 255}, {255, 1, 1, 1}, {2, 0, 7, 0}}).Draw(t, l), l)
}

// hintIP sometimes gives an address an octet that the source mentions.
func hintIP(t *rapid.T, ip IP, l string) IP {
	if x, ok := dict.Int(t, 1, 254, l); ok {
		ip[fgen.Roll(t, 4, l+".octet")] = uint8(x)
	}
	return ip
}

func genNearIP(t *rapid.T, own IP, l string) IP {
	ip := own
	switch fgen.Roll(t, 7, l) {
	case 5:
		ip = rapid.SampledFrom([]IP{{2, 255, 255, 255}, {127, 0, 0, 1}, {10, 0, 0, 1}, {0, 0, 0, 0}}).Draw(t, l+".k")
	case 6: // the text of one address starts with that of the other
		if own[3] < 25 {
			ip[3] = own[3]*10 + uint8(fgen.Roll(t, 6, l+".d"))
		} else {
			ip[3] = own[3] / 10
		}
	case 0:
		ip[3] ^= 1
	case 1:
		ip[fgen.Roll(t, 4, l+".b")] ^= 1 << fgen.Roll(t, 8, l+".bit")
	case 2:
		ip = IP{own[3], own[2], own[1], own[0]}
	case 3:
		ip = IP{rapid.Byte().Draw(t, l), rapid.Byte().Draw(t, l), rapid.Byte().Draw(t, l), rapid.Byte().Draw(t, l)}
	default:
		ip[3]++
	}
	ip = hintIP(t, ip, l)
	if ip == own {
		ip[3] ^= 1
	}
	return ip
}

func genNodeFrame(t *rapid.T, p *nodeProfile, own IP) Hex {
	k := fgen.Roll(t, 10, "frame")
	if p.polls && k >= 4 && k <= 6 {
		k = 0
	}
	switch {
	case k <= 2:
		b := Hex(pollFrame(dict.Byte(t, rapid.Byte(), "talk"), dict.Byte(t, rapid.Byte(), "prio")))
		if fgen.Roll(t, 4, "tail") == 0 {
			b = append(b, fgen.Bytes(t, dict.Pick(t, []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}, 4000, "tn"), "tb")...)
		}
		return b
	case k <= 6:
		l := fgen.Type(t)
		if p.anns && rapid.Bool().Draw(t, "ann") {
			l = ref.ByName("ArtPollReply")
		}
		v := fgen.GenFields(t, l, true)
		if l.Name == "ArtPollReply" && rapid.Bool().Draw(t, "names-own") {
			v["IPAddress"] = Hex(own[:])
		}
		if l.Name == "ArtDMX" && rapid.Bool().Draw(t, "shortdmx") {
			n := 2 * rapid.IntRange(1, 256).Draw(t, "n")
			if x, ok := dict.Int(t, 2, 512, "dmxn"); ok {
				n = x &^ 1
			}
			b := Hex(l.Encode(v.Ref(), true))
			binary.BigEndian.PutUint16(b[16:], uint16(n))
			return b[:18+n]
		}
		return l.Encode(v.Ref(), true)
	default:
		return fgen.Frame(t)
	}
}

func genNodeCase(t *rapid.T, p *nodeProfile) NodeCase {
	var c NodeCase
	c.Own = genIP(t, "own")
	c.IP16 = rapid.Bool().Draw(t, "ip16")
	c.Debug = p.logged || fgen.Roll(t, 3, "debug") == 0
	mk := func() cfg.Config {
		x := cfg.Gen(t, cfg.Opts{ValidPorts: p.validPorts, IPRequired: true})
		x.IP, x.IP16 = cfg.Hex(c.Own[:]), c.IP16
		return x
	}
	c.Cfg = mk()
	if p.starts || fgen.Roll(t, 4, "cfg2") == 0 {
		x := mk()
		if rapid.Bool().Draw(t, "onecfg") { // one thing changes
			x = cfg.OneOff(t, c.Cfg, x)
		}
		c.Cfg2 = &x
	}
	opt := func() NOpt {
		x := NOpt{K: rapid.SampledFrom([]string{"listen", "listenip", "bcast"}).Draw(t, "optk"), Late: rapid.Bool().Draw(t, "late")}
		x.IP = rapid.SampledFrom([]IP{c.Own, {2, 255, 255, 255}, {255, 255, 255, 255}, {10, 255, 255, 255}, {192, 168, 1, 255}, {10, 0, 0, 1}}).Draw(t, "optip")
		x.Port = dict.Pick(t, []int{6454, 6455, 7000, 65535, 1, 6453}, 65535, "optport")
		if x.K != "bcast" {
			x.Nil = fgen.Roll(t, 3, "nilip") == 0
			if !x.Nil && rapid.Bool().Draw(t, "ownlisten") {
				x.IP = c.Own
			}
		}
		return x
	}
	if p.opts || fgen.Roll(t, 3, "opts") == 0 {
		for n := rapid.IntRange(0, 4).Draw(t, "nopts"); n > 0; n-- {
			c.Opts = append(c.Opts, opt())
		}
	}
	cb := 0
	reg := func() NOp {
		cb++
		x := NOp{K: "reg", CB: cb}
		if rapid.Bool().Draw(t, "regcommon") {
			x.Op = rapid.SampledFrom([]uint16{opDMX, opPoll, opPollReply, 0x5200, 0x9900}).Draw(t, "regop")
		} else {
			x.Op = fgen.Op(t)
		}
		if p.blocks {
			x.Block = rapid.Bool().Draw(t, "block")
		} else if fgen.Roll(t, 4, "slow") == 0 {
			x.Slow = dict.Pick(t, []int{1, 5, 300, 2500, 12000, 40000}, 90000, "slowms")
		}
		return x
	}
	if !p.regs {
		c.Ops = append(c.Ops, NOp{K: "reg", Op: opDMX, CB: 1})
		cb = 1
	}
	redo := func(n int) {
		for p.twice && fgen.Roll(t, n, "redo") == 0 {
			c.Ops = append(c.Ops, NOp{K: rapid.SampledFrom([]string{"start+", "stop+"}).Draw(t, "redok")})
		}
	}
	if p.blocks {
		cb++
		c.Ops = append(c.Ops, NOp{K: "reg", Op: opDMX, CB: cb, Block: true})
	}
	started := false
	start := func(n int) {
		x := NOp{K: "start", N: n}
		if p.listenFault && fgen.Roll(t, 3, "lf") == 0 {
			x.Err = 1 + fgen.Roll(t, len(simnet.Errs), "lerr")
		}
		redo(5)
		c.Ops = append(c.Ops, x)
		started = true
		redo(3)
	}
	if p.regs {
		for n := rapid.IntRange(0, 5).Draw(t, "nreg"); n > 0; n-- {
			if fgen.Roll(t, 4, "dereg") == 0 {
				c.Ops = append(c.Ops, NOp{K: "dereg", Op: fgen.Op(t)})
				if len(c.Ops) > 1 && rapid.Bool().Draw(t, "deregknown") {
					c.Ops[len(c.Ops)-1].Op = c.Ops[rapid.IntRange(0, len(c.Ops)-2).Draw(t, "which")].Op
				}
			} else {
				c.Ops = append(c.Ops, reg())
			}
		}
	}
	if p.stopsInCB && rapid.Bool().Draw(t, "stopcb") {
		cb++
		c.Ops = append(c.Ops, NOp{K: "reg", Op: 0x9900, CB: cb, Stops: true})
	}
	wslow := func(n int) {
		if p.slowNet && fgen.Roll(t, n, "wslow") == 0 {
			c.Ops = append(c.Ops, NOp{K: "wslow", N: rapid.SampledFrom([]int{2, 10, 60, 300, 0}).Draw(t, "wslown")})
		}
	}
	wslow(4)
	start(0)
	if fgen.Roll(t, 4, "cfgafter") == 0 {
		c.Ops = append(c.Ops, NOp{K: "cfg"})
	}
	edit := func(n int) {
		if fgen.Roll(t, n, "edit") == 0 {
			c.Ops = append(c.Ops, NOp{K: "edit", N: rapid.SampledFrom([]int{1, 0x0f, 0x40, 0x80, 0x33, 0xff}).Draw(t, "editx")})
		}
	}
	edit(8)
	for n := rapid.IntRange(1, p.maxOps).Draw(t, "nops"); n > 0; n-- {
		k := fgen.Roll(t, 20, "op")
		switch {
		case k <= 10 || k == 19:
			x := NOp{K: "dg", From: genNearIP(t, c.Own, "from"), Port: dict.Pick(t, []int{6454, 6454, 1, 40000, 65535}, 65535, "sport"), Frame: genNodeFrame(t, p, c.Own)}
			if p.selfs && rapid.Bool().Draw(t, "self") || fgen.Roll(t, 10, "self10") == 0 {
				x.From = c.Own
			}
			if p.blocks && fgen.Roll(t, 3, "toblock") == 0 {
				x.Frame = ref.ByName("ArtDMX").Encode(ref.Values{"Data": fgen.Bytes(t, 512, "d"), "SubUni": {rapid.Byte().Draw(t, "u")}}, true)
			}
			if fgen.Roll(t, 10, "known") == 0 { // an address the node was configured with
				k := [][]byte{c.Cfg.BindIP, {2, 255, 255, 255}}
				for _, o := range c.Opts {
					k = append(k, slices.Clone(o.IP[:]))
				}
				if b := k[fgen.Roll(t, len(k), "knownip")]; len(b) == 4 {
					x.From = IP(b)
				}
			}
			if fgen.Roll(t, 4, "burst") == 0 {
				x.N = dict.Pick(t, []int{2, 9, 10, 11, 12, 25, 60}, 600, "n")
				if fgen.Roll(t, 24, "flood") == 0 {
					x.N = dict.Pick(t, []int{130, 270}, 600, "nflood")
				}
			}
			c.Ops = append(c.Ops, x)
		case k == 11:
			if p.faults {
				c.Ops = append(c.Ops, NOp{K: "err", Err: fgen.Roll(t, len(simnet.Errs), "err"), N: dict.Pick(t, []int{1, 1, 2, 12, 1, 2, 5, 130}, 600, "nerr")})
			}
		case k == 12:
			if p.faults {
				c.Ops = append(c.Ops, NOp{K: "wfail", Err: fgen.Roll(t, len(simnet.Errs), "err"), N: dict.Pick(t, []int{1, 2, 5, 30, 1, 2, 12, 270}, 600, "nerr")})
			}
		case k == 13:
			c.Ops = append(c.Ops, NOp{K: "sleep", Us: dict.PickUs(t, []int{1, 1000, 500000, 5000000, 20000000}, 4000000000, "us")})
		case k == 14 || k == 15:
			c.Ops = append(c.Ops, NOp{K: "settle"})
			wslow(3)
			edit(6)
		case k == 16:
			if p.regs {
				if rapid.Bool().Draw(t, "rd") {
					c.Ops = append(c.Ops, reg())
				} else {
					c.Ops = append(c.Ops, NOp{K: "dereg", Op: rapid.SampledFrom([]uint16{opDMX, opPoll, 0x9900}).Draw(t, "dop")})
				}
			}
		default:
			if p.starts {
				if started {
					if p.slowNet && rapid.Bool().Draw(t, "yield") {
						c.Ops = append(c.Ops, NOp{K: "yield", N: rapid.IntRange(1, 120).Draw(t, "yields")})
					}
					x := NOp{K: "stop"}
					if p.faults && fgen.Roll(t, 6, "cf") == 0 {
						x.Err = 1 + fgen.Roll(t, len(simnet.Errs), "cerr")
					}
					c.Ops = append(c.Ops, x)
					started = false
					redo(2)
					if p.slowNet && rapid.Bool().Draw(t, "rest") {
						c.Ops = append(c.Ops, NOp{K: "rest"})
					}
					if rapid.Bool().Draw(t, "pause") {
						c.Ops = append(c.Ops, NOp{K: "sleep", Us: dict.PickUs(t, []int{1, 1000, 500000}, 4000000000, "us")})
					}
					if fgen.Roll(t, 3, "newcfg") == 0 {
						c.Ops = append(c.Ops, NOp{K: "cfg"})
					}
					for m := 8; fgen.Roll(t, m, "newopt") == 0 || p.opts && rapid.Bool().Draw(t, "newopts"); m = 4 {
						x := opt()
						c.Ops = append(c.Ops, NOp{K: "opt", Opt: &x})
					}
					if p.regs && fgen.Roll(t, 3, "newreg") == 0 {
						c.Ops = append(c.Ops, reg())
					}
				}
				start(1)
				if p.validPorts && !p.listenFault && fgen.Roll(t, 16, "cycle") == 0 {
					c.Ops = append(c.Ops, NOp{K: "cycle", N: dict.Pick(t, []int{2, 3, 9, 20, 270}, 300, "ncycle")})
				}
			}
		}
	}
	redo(3)
	c.Ops = append(c.Ops, NOp{K: "probe"})
	redo(6)
	if p.company {
		c.Company = genCompany(t, c.Own, len(c.Ops))
	}
	return c
}

func hasOp(c *NodeCase, k string) int {
	n := 0
	for _, x := range c.Ops {
		if x.K == k {
			n++
		}
	}
	return n
}

func nodeTest(t *testing.T, prop string, p *nodeProfile, nontrivial func(*NodeCase, *outcome) bool, cats ...string) {
	testCats[t.Name()] = cats
	vlib.Check(t, prop, func(rt *rapid.T) NodeCase { return genNodeCase(rt, p) }, func(t *testing.T, c NodeCase) vlib.Result {
		o := newOutcome()
		if p.logged {
			defer o.elsewhere()()
		}
		err := runNode(t, &c, o)
		if p.twice && (err != nil || o.result(cats...).Err != nil) && o.errs["life"] == nil {
			// does it fail as well without the superfluous calls?
			d, o2 := c, newOutcome()
			d.Ops = slices.DeleteFunc(slices.Clone(c.Ops), func(x NOp) bool { return strings.HasSuffix(x.K, "+") })
			if err2 := runNode(t, &d, o2); err2 != nil || o2.result(cats...).Err != nil {
				return vlib.Result{Labels: []string{"fails without superfluous calls"}}
			}
		}
		if p.company && !vlib.Plain() && (err != nil || o.result(cats...).Err != nil) {
			// is it the others? Judged in fresh processes: what they changed may last.
			d := c
			d.Company = nil
			if vlib.FailsFresh(d) {
				return vlib.Result{Labels: []string{"fails alone"}}
			}
			if !vlib.FailsFresh(c) {
				return vlib.Result{Labels: []string{"failed only after other cases"}}
			}
		}
		o.nontriv = nontrivial(&c, o)
		o.printed()
		r := o.result(cats...)
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func TestC11(t *testing.T) {
	nodeTest(t, "C11", &nodeProfile{starts: true, listenFault: true, maxOps: 6, regs: true},
		func(c *NodeCase, o *outcome) bool {
			return len(c.Cfg.In)+len(c.Cfg.Out) > 0 || o.labels["start-invalid"] || o.labels["start-noport"]
		},
		"start", "hang", "restart")
}

func TestC12(t *testing.T) {
	nodeTest(t, "C12", &nodeProfile{validPorts: true, polls: true, starts: true, slowNet: true, maxOps: 14},
		func(c *NodeCase, o *outcome) bool { return o.labels["poll"] }, "reply")
}

func TestC13(t *testing.T) {
	nodeTest(t, "C13", &nodeProfile{validPorts: true, regs: true, maxOps: 14, starts: true},
		func(c *NodeCase, o *outcome) bool { return o.labels["callback"] || o.labels["poll-not-builtin"] }, "cb", "builtin")
}

func TestC14(t *testing.T) {
	nodeTest(t, "C14", &nodeProfile{validPorts: true, faults: true, slowNet: true, maxOps: 20},
		func(c *NodeCase, o *outcome) bool {
			return o.labels["read-error"] || o.labels["write-error"] || o.labels["garbage"]
		}, "alive", "hang")
}

func TestC15(t *testing.T) {
	nodeTest(t, "C15", &nodeProfile{validPorts: true, selfs: true, polls: true, maxOps: 12},
		func(c *NodeCase, o *outcome) bool { return o.labels["from-self"] }, "self", "alive", "cb", "reply")
}

func TestC16(t *testing.T) {
	nodeTest(t, "C16", &nodeProfile{validPorts: true, starts: true, regs: true, polls: true, faults: true, slowNet: true, maxOps: 16, stopsInCB: true},
		func(c *NodeCase, o *outcome) bool { return o.labels["stopped-under-load"] || hasOp(c, "stop") > 0 }, "stop", "restart", "leak", "hang")
}

func TestC29(t *testing.T) {
	nodeTest(t, "C29", &nodeProfile{validPorts: true, starts: true, regs: true, faults: true, anns: true, slowNet: true, maxOps: 12},
		func(c *NodeCase, o *outcome) bool { return o.labels["burst"] }, "accum", "hang")
}

func TestC30(t *testing.T) {
	nodeTest(t, "C30", &nodeProfile{validPorts: true, starts: true, regs: true, twice: true, listenFault: true, slowNet: true, maxOps: 8},
		func(c *NodeCase, o *outcome) bool { return o.labels["started-twice"] || o.labels["stopped-twice"] },
		"life", "hang", "leak", "stop", "restart", "start", "cb", "reply", "addr")
}

func TestC34(t *testing.T) {
	nodeTest(t, "C34", &nodeProfile{validPorts: true, starts: true, regs: true, polls: true, blocks: true, maxOps: 14},
		func(c *NodeCase, o *outcome) bool { return o.labels["while-blocked"] }, "cb", "reply", "alive", "stop", "hang", "leak")
}

func TestC32Node(t *testing.T) {
	nodeTest(t, "C32", &nodeProfile{validPorts: true, starts: true, regs: true, faults: true, listenFault: true, anns: true, logged: true, maxOps: 8},
		func(c *NodeCase, o *outcome) bool { return o.logs.n.Load() > 3 }, "log")
}

func TestC33Node(t *testing.T) {
	nodeTest(t, "C33", &nodeProfile{validPorts: true, starts: true, regs: true, polls: true, opts: true, company: true, maxOps: 10},
		func(c *NodeCase, o *outcome) bool { return o.labels["others-active"] }, "reply", "cb", "builtin", "addr", "stop", "restart", "hang")
}

func TestC27Node(t *testing.T) {
	nodeTest(t, "C27", &nodeProfile{validPorts: true, opts: true, polls: true, maxOps: 5, starts: true},
		func(c *NodeCase, o *outcome) bool { return len(c.Opts) > 0 }, "addr")
}

// TestC11Enum enumerates port counts, the index of a type mismatch and the types.
func TestC11Enum(t *testing.T) {
	own := IP{2, 0, 0, 7}
	vlib.Enumerate(t, "C11", func(yield func(NodeCase) bool) {
		for nin := 0; nin <= 6; nin++ {
			for nout := 0; nout <= 6; nout++ {
				for at := -1; at < min(nin, nout); at++ {
					for k := 0; k < 30; k++ {
						a, b := byte(k/5), byte(k%5)
						if b >= a {
							b++
						}
						if at < 0 && k%5 > 0 {
							continue
						}
						c := NodeCase{Own: own, Cfg: cfg.Config{IP: cfg.Hex(own[:])}}
						for i := 0; i < nin; i++ {
							c.Cfg.In = append(c.Cfg.In, cfg.Port{SubUni: byte(i), Type: a})
						}
						for i := 0; i < nout; i++ {
							ty := a
							if i == at {
								ty = b
							}
							c.Cfg.Out = append(c.Cfg.Out, cfg.Port{SubUni: byte(i), Type: ty})
						}
						c.Cfg2 = &cfg.Config{IP: cfg.Hex(own[:]), In: []cfg.Port{{Type: a}}}
						c.Ops = []NOp{{K: "reg", Op: opDMX, CB: 1}, {K: "start"}, {K: "settle"}, {K: "stop"}, {K: "cfg"}, {K: "reg", Op: opDMX, CB: 2}, {K: "start", N: 1}, {K: "probe"}}
						if !yield(c) {
							return
						}
					}
				}
			}
		}
	}, func(t *testing.T, c NodeCase) vlib.Result {
		o := newOutcome()
		err := runNode(t, &c, o)
		o.nontriv = true
		r := o.result("start", "hang", "restart")
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}
