package nodes

import (
	"bytes"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"

	"verif/cfg"
	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// Addr is a universe address: net and sub-net:universe.
type Addr [2]uint8

func (a Addr) lib() artnet.Address { return artnet.Address{Net: a[0], SubUni: a[1]} }

// PortAnn is one of the four ports of an announcement.
type PortAnn struct {
	Flags uint8 `json:"f"` // 0x80 output, 0x40 input, plus protocol
	In    uint8 `json:"i"`
	Out   uint8 `json:"o"`
	Good  uint8 `json:"g,omitempty"`
}

// Ann is an announcement of a device.
type Ann struct {
	IP    IP         `json:"ip"`
	Bind  uint8      `json:"bind"`
	Style uint8      `json:"style"`
	Net   uint8      `json:"net"`
	Sub   uint8      `json:"sub"`
	Num   uint16     `json:"num"`
	Ports [4]PortAnn `json:"ports"`
	Seed  uint8      `json:"seed"`            // identity details
	Field uint8      `json:"field,omitempty"` // one of the details, from 1, is that of
	Alt   uint8      `json:"alt,omitempty"`   // another identity
	From  *IP        `json:"from,omitempty"`
	Swap  bool       `json:"swap,omitempty"` // port field high byte first, as some devices send it
}

var details = []string{"VersionInfo", "Oem", "UBEAVersion", "Status1", "Status2", "ESTAmanufacturer", "ShortName", "LongName", "NodeReport", "Macaddress", "BindIP"}

func (a *Ann) values() ref.Values {
	v := a.identity()
	if a.Field > 0 {
		b := *a
		b.Seed = a.Alt
		k := details[int(a.Field-1)%len(details)]
		v[k] = b.identity()[k]
	}
	return v
}

func (a *Ann) identity() ref.Values {
	v := ref.Values{
		"IPAddress": a.IP[:], "Port": {0x19, 0x36}, "VersionInfo": {a.Seed, a.Seed + 1}, "NetSwitch": {a.Net}, "SubSwitch": {a.Sub},
		"Oem": {a.Seed + 2, 9}, "UBEAVersion": {a.Seed + 3}, "Status1": {a.Seed * 3}, "ESTAmanufacturer": {'A' + a.Seed%26, 'b'},
		"ShortName": make([]byte, 18), "LongName": make([]byte, 64), "NodeReport": make([]byte, 64), "NumPorts": {byte(a.Num >> 8), byte(a.Num)},
		"PortTypes": make([]byte, 4), "GoodInput": make([]byte, 4), "GoodOutput": make([]byte, 4), "SwIn": make([]byte, 4), "SwOut": make([]byte, 4),
		"SwVideo": {0}, "SwMacro": {0}, "SwRemote": {0}, "Style": {a.Style}, "Macaddress": {2, 0, a.IP[1], a.IP[2], a.IP[3], a.Seed},
		"BindIP": a.bindIP(), "BindIndex": {a.Bind}, "Status2": {a.Seed * 5},
	}
	copy(v["ShortName"], fmt.Sprintf("dev %d", a.Seed))
	v["NodeReport"][0], v["NodeReport"][1+a.Seed%63] = a.Seed, ^a.Seed
	copy(v["LongName"], fmt.Sprintf("device number %d", a.Seed))
	for i, p := range a.Ports {
		v["PortTypes"][i] = p.Flags
		v["SwIn"][i], v["SwOut"][i] = p.In, p.Out
		v["GoodInput"][i], v["GoodOutput"][i] = p.Good, ^p.Good
	}
	return v
}

// bindIP is the address of the root device: the device itself, none or another one.
func (a *Ann) bindIP() []byte {
	switch a.Seed % 4 {
	case 1:
		return make([]byte, 4)
	case 2:
		return []byte{a.IP[0], a.IP[1], a.IP[2], a.IP[3] ^ 1}
	case 3:
		return []byte{10, a.Seed, 3, 1}
	}
	return a.IP[:]
}

func (a *Ann) frame() []byte {
	b := ref.ByName("ArtPollReply").Encode(a.values(), true)
	if a.Swap {
		b[14], b[15] = b[15], b[14]
	}
	return b
}

func (a *Ann) unis() (out, in []Addr) {
	r := cfg.Read(a.values())
	for _, p := range r.Out {
		out = append(out, Addr{p.Net, p.SubUni})
	}
	for _, p := range r.In {
		in = append(in, Addr{p.Net, p.SubUni})
	}
	return
}

func (a *Ann) accepted() bool {
	out, _ := a.unis()
	return a.Style == 0 || a.Style == 1 && len(out) > 0
}

type devKey struct {
	ip   IP
	bind uint8
}

func (a *Ann) key() devKey { return devKey{a.IP, a.Bind} }

// Submit is one call of SendDMXToAddress.
type Submit struct {
	U    Addr   `json:"u"`
	Seed uint32 `json:"s"`
}

func block(seed uint32) (d [512]byte) {
	switch seed % 16 {
	case 0:
		if seed == 0 {
			return
		}
		d[(seed/16)%512] = byte(seed/8192) | 1
	case 1:
		for i := range d {
			d[i] = byte(seed >> 4)
		}
	case 2: // one channel of a scene changed
		for i := range d {
			d[i] = fgen.Mix(uint64(seed>>21), i)
		}
		d[seed>>4%512] = byte(seed >> 13)
	default:
		for i := range d {
			d[i] = fgen.Mix(uint64(seed), i)
		}
	}
	return
}

// COp is one step of a controller history.
type COp struct {
	K     string   `json:"k"`
	Anns  []Ann    `json:"anns,omitempty"`
	Dmx   []Submit `json:"dmx,omitempty"`
	Us    int      `json:"us,omitempty"`
	Wait  int      `json:"wait,omitempty"`  // stop: how often sending a datagram lets others run first
	Yield int      `json:"yield,omitempty"` // stop: how long its routines run before
	Ns    int      `json:"ns,omitempty"`
	N     int      `json:"n,omitempty"`
	Err   int      `json:"err,omitempty"`
	From  IP       `json:"from,omitempty"`
	Frame Hex      `json:"frame,omitempty"`
	To    []IP     `json:"to,omitempty"`
	FPS   int      `json:"fps,omitempty"`
	Opt   *COpt    `json:"opt,omitempty"`
}

// COpt is a controller option.
type COpt struct {
	NOpt
	FPS int `json:"fps,omitempty"`
}

// CtlCase is a generated controller history.
type CtlCase struct {
	Own   IP     `json:"own"`
	IP16  bool   `json:"ip16,omitempty"`
	Name  Hex    `json:"name"`
	Opts  []COpt `json:"opts,omitempty"`
	Debug bool   `json:"debug,omitempty"`
	Ops   []COp  `json:"ops"`

	Company *Company `json:"company,omitempty"` // others in the same process
}

type device struct {
	ann      *Ann
	vals     ref.Values
	lastAnn  time.Time
	appeared time.Time
	seq      int  // last sequence number, 0 none
	anySeq   bool // reappeared: the count may go on or start again
	seqFree  bool // a send failed
}

type universe struct {
	owner     *device
	since     time.Time
	last      time.Time
	sent      bool
	submitted bool // since the last frame
	allowed   [][512]byte
	due       time.Time // pending submission must be sent by
	subAt     time.Time // last submission
}

type ctlRun struct {
	c   *CtlCase
	o   *outcome
	net *simnet.Net
	ctl *artnet.Controller

	listen, bcast struct {
		ip   IP
		port int
	}
	fps      int
	interval time.Duration
	running  bool
	epoch    int
	t0       time.Time
	mark     int
	devs     map[devKey]*device
	unis     map[Addr]*universe // outputs of known devices
	last     map[Addr]lastSub
	gone     map[devKey]int // sequence number when it expired
	polls    int
	foreign  int
	replies  int
	probing  bool
	frames   int

	wmu        sync.Mutex
	failTo     map[IP]bool
	failN      int
	failErr    error
	closeErr   error
	writeYield int
	hadFault   bool

	count bool // count goroutines
	base  int  // goroutines after start
}

type lastSub struct {
	at   time.Time
	data [512]byte
}

const (
	mustStay = 7 * time.Second
	mustGo   = 10*time.Second + time.Millisecond
	refresh  = 250 * time.Millisecond
	slack    = time.Millisecond
)

// fail records an error in a category, and in the derived ones.
func (r *ctlRun) fail(cat, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if r.epoch > 0 {
		msg += fmt.Sprintf(" (%v after start)", time.Since(r.t0))
	}
	r.o.fail(cat, "%s", msg)
	switch cat {
	case "view", "deliver", "refresh", "poll", "reply":
		if r.probing {
			r.o.fail("alive", "%s: %s", cat, msg)
		}
	}
	if r.epoch > 1 {
		switch cat {
		case "addr", "self":
		default:
			r.o.fail("restart", "%s: %s", cat, msg)
		}
	}
}

func (r *ctlRun) option(x COpt) artnet.Option {
	var ip net.IP
	if !x.Nil {
		ip = ipOf(x.IP, x.Port%2 == 1)
	}
	switch x.K {
	case "listen":
		r.listen.ip, r.listen.port = x.IP, x.Port
		if x.Nil {
			r.listen.ip = IP{}
		}
		return artnet.ListenAddress(net.UDPAddr{IP: ip, Port: x.Port})
	case "listenip":
		r.listen.ip, r.listen.port = x.IP, 6454
		if x.Nil {
			r.listen.ip = IP{}
		}
		return artnet.ListenIP(ip)
	case "bcast":
		r.bcast.ip, r.bcast.port = x.IP, x.Port
		return artnet.BroadcastAddr(net.UDPAddr{IP: ipOf(x.IP, x.Port%2 == 1), Port: x.Port})
	case "fps":
		if goodFPS(x.FPS) {
			r.fps = x.FPS
		}
		return artnet.MaxFPS(x.FPS)
	}
	panic("harness: option " + x.K)
}

func goodFPS(f int) bool { return f >= 1 && f <= 1e9 }

// runCtl executes a history. Categories: view, expiry, owner, data, deliver,
// refresh, rate, seq, poll, reply, stop, restart, start, addr, fps, alive, leak, hang.
func runCtl(t *testing.T, c *CtlCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		r := &ctlRun{c: c, o: o, net: nw, fps: 1000, failTo: map[IP]bool{}}
		for _, x := range testCats[t.Name()] {
			r.count = r.count || x == "accum"
		}
		r.listen.port = 6454
		r.bcast.ip, r.bcast.port = IP{2, 255, 255, 255}, 6454
		nw.SetHost(c.Own)
		nw.WriteErr = func(s *simnet.Sent) error {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			if r.failTo[s.To] {
				return r.failErr
			}
			if r.failN > 0 {
				r.failN--
				return r.failErr
			}
			return nil
		}
		nw.CloseErr = func() error {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			return r.closeErr
		}
		nw.WriteYield = func() int {
			r.wmu.Lock()
			defer r.wmu.Unlock()
			return r.writeYield
		}
		var opts []artnet.Option
		for _, x := range c.Opts {
			if !x.Late {
				opts = append(opts, r.option(x))
			}
		}
		others := c.Company.join(true, nw, o)
		r.ctl = artnet.NewController(string(c.Name), ipOf(c.Own, c.IP16), newLog(c.Debug, o), opts...)
		for _, x := range c.Opts {
			if x.Late {
				err := r.ctl.SetOption(r.option(x))
				if x.K == "fps" && !goodFPS(x.FPS) {
					if err == nil {
						r.fail("fps", "a maximum rate of %d per second is accepted", x.FPS)
						return
					}
				} else if err != nil {
					r.fail("addr", "option %+v refused: %v", x, err)
					r.fail("fps", "option %+v refused: %v", x, err)
				}
			}
		}
		r.interval = time.Second / time.Duration(r.fps)
		if c.Company == nil || !c.Company.Early {
			others = c.Company.join(false, nw, o)
		}
		for i := range c.Ops {
			others.act(i)
			r.step(&c.Ops[i])
			if o.errs["hang"] != nil {
				break
			}
		}
		others.leave()
		if r.running {
			r.observe()
			if g := r.goroutines(); len(g) > r.base+atMost+2*len(r.devs) && o.errs["hang"] == nil {
				o.fail("accum", "a controller has %d goroutines, it had %d when it was started; one is\n%s", len(g), r.base, g[len(g)-1])
			}
			r.step(&COp{K: "stop"})
		}
		if o.errs["hang"] == nil {
			n := nw.SentCount()
			time.Sleep(time.Second)
			synctest.Wait()
			if nw.SentCount() != n {
				r.fail("stop", "a stopped controller sends: %v", nw.Sent(n)[0])
			}
		}
		if g := settleGoroutines(4 * time.Second); len(g) > 0 {
			o.fail("leak", "%d goroutines remain after the controller was stopped:\n%s", len(g), g[0])
			err := o.result(testCats[t.Name()]...).Err
			vlib.Leaving(&err)
		}
		if r.frames > 0 {
			o.label("dmx-frames")
		}
	})
}

// goroutines of the library, if they are to be counted.
func (r *ctlRun) goroutines() []string {
	if !r.count {
		return nil
	}
	synctest.Wait()
	return libGoroutines()
}

func (r *ctlRun) sleep(d time.Duration) {
	for d > 0 {
		k := min(d, time.Second)
		time.Sleep(k)
		d -= k
		r.observe()
	}
}

func (r *ctlRun) step(op *COp) {
	o := r.o
	switch op.K {
	case "start":
		if !r.running {
			r.start(op)
		}
	case "stop":
		if r.running {
			r.stop(op)
		}
	case "cycle": // stop and start again, over and over
		for k := 0; k < op.N && o.errs["hang"] == nil; k++ {
			if r.running {
				r.stop(&COp{K: "stop"})
			}
			if !r.running {
				r.start(&COp{K: "start"})
			}
		}
		o.label("cycle")
	case "start+": // start a controller that runs
		r.observe()
		if !r.running {
			return
		}
		o.label("started-twice")
		var err error
		if bad := guarded(time.Minute, func() { err = r.ctl.Start() }); bad != "" {
			r.fail("life", "Start of a running controller %s", bad)
		} else if err == nil {
			r.fail("life", "Start of a running controller reports no error")
		}
		r.observe()
	case "stop+": // stop a controller that does not run
		if r.running {
			return
		}
		o.label("stopped-twice")
		if bad := guarded(time.Minute, r.ctl.Stop); bad != "" {
			r.fail("life", "Stop of a stopped controller %s", bad)
		}
	case "opt": // another option, in force from the next start on
		if r.running {
			return
		}
		o.label("option-between-runs")
		err := r.ctl.SetOption(r.option(*op.Opt))
		if op.Opt.K == "fps" && !goodFPS(op.Opt.FPS) {
			if err == nil {
				r.fail("fps", "a maximum rate of %d per second is accepted", op.Opt.FPS)
				r.o.fail("hang", "a maximum rate of %d per second is accepted", op.Opt.FPS)
				return
			}
		} else if err != nil {
			r.fail("addr", "option %+v refused: %v", *op.Opt, err)
			r.fail("fps", "option %+v refused: %v", *op.Opt, err)
		}
		r.interval = time.Second / time.Duration(r.fps)
	case "sleep":
		r.sleep(time.Duration(op.Us)*time.Microsecond + time.Duration(op.Ns))
	case "ann":
		r.observe()
		r.announce(op.Anns)
	case "keep": // the devices keep answering
		for k := 0; k < op.N; k++ {
			r.observe()
			var as []Ann
			for _, d := range r.devs {
				as = append(as, *d.ann)
			}
			sort.Slice(as, func(i, j int) bool {
				a, b := as[i], as[j]
				return bytes.Compare(append(a.IP[:], a.Bind), append(b.IP[:], b.Bind)) < 0
			})
			r.announce(as)
			r.sleep(time.Duration(op.Us) * time.Microsecond)
		}
	case "dmx":
		r.observe()
		for _, s := range op.Dmx {
			r.submit(s)
		}
		r.observe()
	case "stream": // new data at every update interval
		for k := 0; k < op.N; k++ {
			r.observe()
			for i, s := range op.Dmx {
				s.Seed += uint32(k*len(op.Dmx)+i) * 16
				r.submit(s)
			}
			time.Sleep(time.Duration(op.Us) * time.Microsecond)
		}
		r.observe()
	case "poll":
		r.observe()
		if op.Us > 0 && r.running { // together with the poll of the controller itself
			d := 3*time.Second - time.Since(r.t0)%(3*time.Second)
			r.sleep(d - time.Millisecond)
			if op.Wait > 0 {
				r.setWrite(op.Wait)
				defer r.setWrite(0)
			}
			time.Sleep(time.Until(r.t0.Add((time.Since(r.t0) + time.Millisecond).Round(3 * time.Second))))
			o.label("polls-meet")
		}
		for k := 0; k < max(1, op.N); k++ {
			r.inject(op.From, op.Frame)
			if r.running && op.From != r.c.Own {
				if v, l, _ := ref.Decode(op.Frame); v == ref.Accept && l.OpCode == opPoll {
					r.foreign++
					o.label("foreign-poll")
				}
			}
		}
		r.observe()
	case "junk":
		r.observe()
		for k := 0; k < max(1, op.N); k++ {
			r.inject(op.From, op.Frame)
		}
		r.observe()
	case "rerr":
		if r.running {
			for k := 0; k < max(1, op.N); k++ {
				r.net.InjectErr(r.c.Own, simnet.Errs[op.Err%len(simnet.Errs)])
			}
			o.label("read-error")
		}
		r.observe()
	case "wfail":
		r.observe()
		r.wmu.Lock()
		r.failN, r.failErr = op.N, simnet.Errs[op.Err%len(simnet.Errs)]
		r.failTo = map[IP]bool{}
		for _, ip := range op.To {
			r.failTo[ip] = true
		}
		r.wmu.Unlock()
		r.hadFault = true
		o.label("write-error")
	case "mark":
		r.observe()
		r.probing = true
	default:
		panic("harness: op " + op.K)
	}
}

func (r *ctlRun) inject(from IP, frame []byte) {
	dst := r.c.Own
	if r.listen.ip != (IP{}) {
		dst = r.listen.ip
	}
	got := r.net.Inject(r.c.Own, dst, r.listen.port, from, 6454, frame)
	if got == 0 && r.running {
		r.fail("addr", "no socket receives on %v:%d", dst, r.listen.port)
		r.o.fail("alive", "no socket receives on %v:%d", dst, r.listen.port)
	}
	if got > 0 && !r.running {
		r.fail("stop", "a socket is open although the controller is stopped")
	}
}

func (r *ctlRun) start(op *COp) {
	before := len(r.net.Listens())
	var lerr error
	if op.Err > 0 {
		lerr = simnet.Errs[op.Err%len(simnet.Errs)]
	}
	r.net.ListenErr = func(IP, int) error { return lerr }
	var err error
	now := time.Now()
	mark := r.net.SentCount()
	if !within(time.Minute, func() { err = r.ctl.Start() }) {
		r.fail("hang", "Start does not return")
		return
	}
	if lerr != nil {
		r.o.label("start-noport")
		if err == nil {
			r.fail("start", "start succeeds although the socket cannot be opened")
			within(time.Minute, r.ctl.Stop)
			return
		}
		synctest.Wait()
		if len(r.net.Open()) > 0 {
			r.fail("start", "a failed start leaves a socket open")
		}
		if g := settleGoroutines(time.Second); len(g) > 0 {
			r.fail("start", "a failed start leaves %d goroutines running:\n%s", len(g), g[0])
		}
		return
	}
	if err != nil {
		r.fail("start", "start fails: %v", err)
		r.epoch++
		r.fail("view", "start fails: %v", err)
		return
	}
	r.epoch++
	if r.epoch > 1 {
		r.o.label("restarted")
	}
	ls := r.net.Listens()[before:]
	if len(ls) != 1 || ls[0].Err != nil {
		r.fail("addr", "start opened %d sockets", len(ls))
	} else if l := ls[0]; l.IP != r.listen.ip || l.Port != r.listen.port {
		r.fail("addr", "listens on %v:%d, configured %v:%d", l.IP, l.Port, r.listen.ip, r.listen.port)
	}
	r.running = true
	r.t0 = now
	r.mark = mark
	r.devs = map[devKey]*device{}
	r.unis = map[Addr]*universe{}
	r.last = map[Addr]lastSub{}
	r.gone = map[devKey]int{}
	r.polls, r.foreign, r.replies = 0, 0, 0
	if op.N == 0 {
		r.observe()
	}
	r.base = len(r.goroutines())
}

func (r *ctlRun) setWrite(n int) {
	r.wmu.Lock()
	r.writeYield = n
	r.wmu.Unlock()
}

func (r *ctlRun) stop(op *COp) {
	r.o.label("stopped")
	if op.N == 0 {
		r.observe()
	} else {
		// whatever happens at this instant is still going on when Stop is called
		r.o.label("stopped-under-load")
		if op.Wait > 0 { // sending takes its time, what is to be sent piles up
			r.o.label("slow-socket")
			r.setWrite(op.Wait)
			defer r.setWrite(0)
		}
		time.Sleep(time.Duration(op.Us) * time.Microsecond)
		for i := range op.Anns {
			r.inject(op.Anns[i].IP, op.Anns[i].frame())
		}
		for k := 1; k < op.N; k++ {
			r.inject(op.From, pollFrame(2, 0))
		}
		if len(op.Dmx) > 0 {
			done := make(chan struct{})
			go func() {
				for _, s := range op.Dmx {
					r.ctl.SendDMXToAddress(block(s.Seed), s.U.lib())
				}
				close(done)
			}()
			defer func() {
				synctest.Wait()
				select {
				case <-done:
				default:
					if !within(time.Second, func() { <-done }) {
						r.fail("stop", "SendDMXToAddress does not return")
						r.o.fail("hang", "SendDMXToAddress does not return")
					}
				}
			}()
		}
	}
	r.wmu.Lock()
	r.closeErr = nil
	if op.Err > 0 {
		r.closeErr = simnet.Errs[op.Err%len(simnet.Errs)]
		r.o.label("close-error")
	}
	r.wmu.Unlock()
	yield(op.Yield)
	if !within(time.Minute, r.ctl.Stop) {
		r.fail("stop", "Stop does not return")
		r.o.fail("hang", "Stop does not return")
		return
	}
	r.running = false
	r.mark = r.net.SentCount()
	if op.N > 1 || len(op.Anns) > 0 {
		// a datagram received before Stop may still be with its handler, which
		// a restart at this very instant would let finish; not judged
		synctest.Wait()
	}
	if len(r.net.Open()) > 0 {
		r.fail("stop", "the socket is still open after Stop")
	}
}

func (r *ctlRun) announce(as []Ann) {
	now := time.Now()
	for i := range as {
		a := &as[i]
		from := a.IP
		if a.From != nil {
			from = *a.From
		}
		r.inject(from, a.frame())
		if !r.running {
			continue
		}
		if from == r.c.Own {
			r.o.label("ann-from-self")
			continue
		}
		if !a.accepted() {
			r.o.label("ann-ignored")
			continue
		}
		r.o.label("ann-accepted")
		cp := *a
		out, _ := a.unis()
		d := r.devs[a.key()]
		if d == nil {
			d = &device{appeared: now}
			if s, ok := r.gone[a.key()]; ok {
				r.o.label("reappeared")
				d.anySeq, d.seq = true, s
			}
			r.devs[a.key()] = d
		} else {
			r.o.label("updated")
		}
		d.ann, d.vals, d.lastAnn = &cp, a.values(), now
		want := map[Addr]bool{}
		for _, u := range out {
			want[u] = true
		}
		for u, x := range r.unis {
			if x.owner == d && !want[u] {
				r.o.label("universe-dropped")
				delete(r.unis, u)
			}
		}
		for u := range want {
			x := r.unis[u]
			if x != nil && x.owner == d {
				continue
			}
			x = &universe{owner: d, since: now, allowed: [][512]byte{{}}}
			if l, ok := r.last[u]; ok && !l.at.Before(d.appeared) {
				r.o.label("universe-returned")
				x.allowed = append(x.allowed, l.data)
			}
			r.unis[u] = x
		}
	}
	if len(as) > 1 {
		r.o.label("ann-burst")
	}
	r.observe()
}

func (r *ctlRun) submit(s Submit) {
	now := time.Now()
	d := block(s.Seed)
	if !within(time.Second, func() { r.ctl.SendDMXToAddress(d, s.U.lib()) }) {
		r.fail("stop", "SendDMXToAddress does not return")
		r.o.fail("hang", "SendDMXToAddress does not return")
		return
	}
	if !r.running {
		r.o.label("submit-stopped")
		return
	}
	x := r.unis[s.U]
	if x == nil {
		r.o.label("submit-unknown")
		return
	}
	r.o.label("submit")
	if x.submitted {
		r.o.label("submit-replaced")
	}
	if !x.sent {
		r.o.label("submit-new-universe")
	}
	x.allowed = [][512]byte{d}
	x.submitted = true
	x.subAt = now
	x.due = now.Add(r.interval + slack)
	r.last[s.U] = lastSub{now, d}
}

// observe lets everything that is due happen, then judges all frames sent
// since the last time and the controller's view.
func (r *ctlRun) observe() {
	synctest.Wait()
	now := time.Now()
	for _, s := range r.net.Sent(r.mark) {
		r.mark++
		if !r.running {
			r.fail("stop", "a stopped controller sends: %v", s)
			continue
		}
		r.frame(&s)
	}
	if !r.running {
		return
	}
	// polls
	want := 0
	if el := now.Sub(r.t0) - 20*time.Millisecond; el >= 0 {
		want = int(el/(3*time.Second)) + 1
	}
	if r.polls < want {
		r.fail("poll", "%d polls sent, %d expected", r.polls, want)
	}
	if r.replies != r.polls+r.foreign {
		r.fail("reply", "%d announcements sent, expected %d own and %d in answer to polls", r.replies, r.polls, r.foreign)
	}
	// view and expiry
	have := r.snapshot()
	for k, d := range r.devs {
		age := now.Sub(d.lastAnn)
		_, ok := have[k]
		switch {
		case age <= mustStay && !ok:
			r.fail("expiry", "%v is not known %v after its announcement", k, age)
			r.fail("view", "%v is not known %v after its announcement", k, age)
			return
		case age > mustGo && ok:
			r.fail("expiry", "%v is still known %v after its last announcement", k, age)
			r.fail("view", "%v is still known %v after its last announcement", k, age)
			return
		case age > mustStay && !ok:
			r.o.label("expired")
			r.gone[k] = d.seq
			delete(r.devs, k)
			for u, x := range r.unis {
				if x.owner == d {
					delete(r.unis, u)
				}
			}
		}
	}
	r.checkView(have)
	// deadlines
	for u, x := range r.unis {
		if !x.due.IsZero() && now.After(x.due) {
			r.fail("deliver", "data submitted for %v at %v was not sent within one interval (%v)", u, x.subAt.Sub(r.t0), r.interval)
			x.due = time.Time{}
		}
		ref := x.since
		if x.sent {
			ref = x.last
		}
		if gap := now.Sub(ref); gap > refresh+r.interval+slack {
			r.fail("refresh", "%v of %v was not sent for %v", u, x.owner.ann.key(), gap)
			if !x.sent {
				x.since = now
			} else {
				x.last = now
			}
		}
	}
}

func (r *ctlRun) frame(s *simnet.Sent) {
	at := s.At.Sub(r.t0)
	switch opOf(s.Data) {
	case opPoll:
		v, _, vals := ref.Decode(s.Data)
		if v != ref.Accept || vals["TalkToMe"][0]&0x02 == 0 {
			r.fail("poll", "poll does not ask for replies on change: %v", s)
		}
		if s.To != r.bcast.ip || s.Port != r.bcast.port {
			r.fail("poll", "poll sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
			r.fail("addr", "poll sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
		}
		exp := time.Duration(r.polls) * 3 * time.Second
		if d := at - exp; d < -20*time.Millisecond || d > 20*time.Millisecond {
			r.fail("poll", "poll number %d sent at %v", r.polls, at)
		}
		r.polls++
	case opPollReply:
		r.replies++
		if s.To != r.bcast.ip || s.Port != r.bcast.port {
			r.fail("reply", "own announcement sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
			r.fail("addr", "own announcement sent to %v:%d, broadcast address is %v:%d", s.To, s.Port, r.bcast.ip, r.bcast.port)
		}
		v, _, vals := ref.Decode(s.Data)
		name := make([]byte, 18)
		copy(name, r.c.Name[:min(17, len(r.c.Name))])
		if v != ref.Accept || vals["Style"][0] != 1 || !bytes.Equal(vals["IPAddress"], r.c.Own[:]) || !bytes.Equal(vals["ShortName"], name) {
			r.fail("reply", "own announcement is wrong: %v", s)
		}
	case opDMX:
		r.dmxFrame(s)
	default:
		r.o.label("other-frame")
		r.fail("owner", "unexpected frame %v", s)
	}
}

func (r *ctlRun) dmxFrame(s *simnet.Sent) {
	r.frames++
	at := s.At.Sub(r.t0)
	v, l, vals := ref.Decode(s.Data)
	if v != ref.Accept || len(s.Data) != l.Size || vals["Length"][0] != 2 || vals["Length"][1] != 0 {
		r.fail("data", "malformed ArtDmx frame %v", s)
		return
	}
	u := Addr{vals["Net"][0], vals["SubUni"][0]}
	x := r.unis[u]
	if x == nil {
		r.fail("owner", "%v: ArtDmx for %v, which no known device announces, sent to %v", at, u, s.To)
		r.fail("expiry", "%v: ArtDmx for %v, which no known device announces, sent to %v", at, u, s.To)
		return
	}
	d := x.owner
	if s.At.Sub(d.lastAnn) > mustGo {
		r.fail("expiry", "%v: ArtDmx for %v sent %v after the last announcement of %v", at, u, s.At.Sub(d.lastAnn), d.ann.key())
	}
	if s.To != d.ann.IP || s.Port != 6454 {
		r.fail("owner", "%v: ArtDmx for %v sent to %v:%d, owner is %v", at, u, s.To, s.Port, d.ann.IP)
	}
	var data [512]byte
	copy(data[:], vals["Data"])
	ok := false
	for _, a := range x.allowed {
		ok = ok || a == data
	}
	if !ok {
		r.fail("data", "%v: ArtDmx for %v carries %s, expected %s (%d candidates, submitted %v)", at, u, short(data[:]), short(x.allowed[0][:]), len(x.allowed), x.subAt.Sub(r.t0))
	} else {
		x.allowed = [][512]byte{data}
	}
	// rate
	if x.sent {
		gap := s.At.Sub(x.last)
		if gap < r.interval-r.interval/10 {
			r.fail("rate", "%v: %v sent again after %v, update interval is %v", at, u, gap, r.interval)
		}
		if !x.submitted && gap < refresh-slack {
			r.fail("rate", "%v: %v sent again after %v although nothing was submitted", at, u, gap)
		}
		if gap > refresh+r.interval+slack {
			r.fail("refresh", "%v: %v was not sent for %v", at, u, gap)
		}
	} else if gap := s.At.Sub(x.since); gap > refresh+r.interval+slack {
		r.fail("refresh", "%v: %v was not sent for %v", at, u, gap)
	}
	if !x.due.IsZero() && s.At.After(x.due) {
		r.fail("deliver", "data submitted for %v at %v was sent only at %v (interval %v)", u, x.subAt.Sub(r.t0), at, r.interval)
	}
	x.due = time.Time{}
	x.submitted = false
	x.sent, x.last = true, s.At
	// sequence
	seq := int(vals["Sequence"][0])
	if s.Err != nil {
		d.seqFree = true
	}
	next := d.seq%255 + 1
	switch {
	case seq == 0:
		r.fail("seq", "%v: sequence number 0 sent to %v", at, d.ann.key())
	case d.seqFree || seq == next || d.anySeq && seq == 1:
	default:
		r.fail("seq", "%v: sequence number %d sent to %v after %d", at, seq, d.ann.key(), d.seq)
	}
	if seq == 1 && d.seq == 255 {
		r.o.label("seq-wrapped")
	}
	d.anySeq = false
	d.seq = seq
}

// snapshot of the known devices.
func (r *ctlRun) snapshot() map[devKey]*artnet.ControlledNode {
	m := map[devKey]*artnet.ControlledNode{}
	for _, n := range r.ctl.Nodes {
		var ip IP
		copy(ip[:], n.Node.IP.To4())
		k := devKey{ip, n.Node.BindIndex}
		if m[k] != nil {
			r.fail("view", "%v is known twice", k)
		}
		m[k] = n
	}
	return m
}

func (r *ctlRun) checkView(have map[devKey]*artnet.ControlledNode) {
	var extra []string
	for k := range have {
		if r.devs[k] == nil {
			extra = append(extra, fmt.Sprint(k))
		}
	}
	if len(extra) > 0 {
		r.fail("view", "unexpected devices are known: %s", strings.Join(extra, " "))
		r.o.fail("self", "unexpected devices are known: %s", strings.Join(extra, " "))
		return
	}
	out, in := map[artnet.Address]*artnet.ControlledNode{}, map[artnet.Address]*artnet.ControlledNode{}
	for k, d := range r.devs {
		n := have[k]
		if n == nil {
			continue
		}
		if l := n.LastSeen.Sub(d.lastAnn); l < 0 || l > time.Second {
			r.fail("view", "%v was last seen at %v, last announcement was at %v", k, n.LastSeen.Sub(r.t0), d.lastAnn.Sub(r.t0))
		}
		if err := cfg.CompareRead(n.Node, d.vals); err != nil {
			r.fail("view", "%v: %v", k, err)
		}
		if !n.UDPAddress.IP.Equal(ipOf(d.ann.IP, false)) || n.UDPAddress.Port != 6454 {
			r.fail("view", "%v is addressed at %v", k, n.UDPAddress)
		}
		o, i := d.ann.unis()
		for _, u := range o {
			out[u.lib()] = n
		}
		for _, u := range i {
			in[u.lib()] = n
		}
	}
	r.sameMap("output", r.ctl.OutputAddress, out)
	r.sameMap("input", r.ctl.InputAddress, in)
}

func (r *ctlRun) sameMap(name string, got, want map[artnet.Address]*artnet.ControlledNode) {
	for a, n := range want {
		switch g := got[a]; {
		case g == nil:
			r.fail("view", "%s universe %v of %v is missing", name, a, n.Node.IP)
			r.fail("expiry", "%s universe %v of %v is missing", name, a, n.Node.IP)
		case g != n:
			r.fail("view", "%s universe %v maps to %v (%d), announced by %v (%d)", name, a, g.Node.IP, g.Node.BindIndex, n.Node.IP, n.Node.BindIndex)
		}
	}
	for a, n := range got {
		if want[a] == nil {
			r.fail("view", "%s universe %v maps to %v, but no known device announces it", name, a, n.Node.IP)
			r.fail("expiry", "%s universe %v maps to %v, but no known device announces it", name, a, n.Node.IP)
		}
	}
}
