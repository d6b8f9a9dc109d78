package nodes

import (
	"maps"
	"slices"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/dict"
	"verif/fgen"
	"verif/simnet"
	"verif/vlib"
)

type ctlProfile struct {
	morePolls bool // many polls of other controllers
	slowNet   bool // sending may take its time before a stop
	maxOps    int
	maxDev    int
	dmx       int // weight of submissions, 0..4
	ann       int
	longs     bool // sleeps around the expiry limits
	faults    bool
	junk      bool
	polls     bool
	selfs     bool
	restarts  bool
	keep      bool
	stream    bool
	opts      bool
	lfault    bool
	fps       []int
	probe     bool
	moves     bool
	twice     bool // also start a running controller and stop a stopped one
	company   bool // with others in the same process
	logged    bool // always with a logger that is watched
	crowd     bool // now and then more devices at once than any queue holds
}

// ctlGen tracks what the generated history has announced so far.
type ctlGen struct {
	t    *rapid.T
	p    *ctlProfile
	c    *CtlCase
	devs []devKey
	last map[devKey]*Ann
	out  map[Addr]devKey
	in   map[Addr]devKey
	ever []Addr
	fps  int
	seed uint32
	subs []Submit
	now  int // µs since the start of the case
	t0   int // time of the last start
	at   map[devKey]int
	pre  map[Addr]devKey // claims before the burst
	prei map[Addr]devKey
}

func (g *ctlGen) roll(n int, l string) int { return fgen.Roll(g.t, n, l) }

func (g *ctlGen) add(op COp) {
	g.c.Ops = append(g.c.Ops, op)
	switch op.K {
	case "sleep", "stop", "poll":
		g.now += op.Us
	case "stream":
		g.now += op.N * op.Us
	case "keep":
		for i := 0; i < op.N; i++ {
			for k, t := range g.at {
				if g.now-t <= 10002000 {
					g.at[k] = g.now
				}
			}
			g.now += op.Us
		}
	case "start", "cycle":
		g.t0 = g.now
		g.out, g.in, g.at = map[Addr]devKey{}, map[Addr]devKey{}, map[devKey]int{}
	}
	// devices that are certainly expired own nothing any more
	for k, t := range g.at {
		if g.now-t > 10002000 {
			g.release(k)
			delete(g.at, k)
		}
	}
}

func (g *ctlGen) release(k devKey) {
	for u, o := range g.out {
		if o == k {
			delete(g.out, u)
		}
	}
	for u, o := range g.in {
		if o == k {
			delete(g.in, u)
		}
	}
}

func free(m map[Addr]devKey, u Addr, k devKey) bool {
	o, ok := m[u]
	return !ok || o == k
}

var nets = []uint8{0, 0, 1, 127}
var subs = []uint8{0, 0, 3, 15}

// ann draws an announcement that claims no universe of another device.
func (g *ctlGen) ann(k devKey) Ann {
	t := g.t
	if l := g.last[k]; l != nil && g.roll(3, "same") == 0 {
		a := *l
		g.strip(&a)
		return a
	}
	if l := g.last[k]; l != nil && g.roll(2, "one") == 0 { // one thing changes
		a := *l
		p := &a.Ports[g.roll(4, "port")]
		switch g.roll(12, "which") {
		case 0:
			p.Good = uint8(g.roll(256, "good"))
		case 1:
			p.Flags ^= 0x40
		case 2:
			p.Flags ^= 0x80
		case 3:
			p.Flags ^= uint8(1 + g.roll(0x3f, "proto"))
		case 4:
			p.In = uint8(g.roll(16, "in"))
		case 5:
			p.Out = uint8(g.roll(16, "out"))
		case 6:
			a.Num = uint16(dict.Pick(t, []int{4, 1, 2, 3, 0, 5, 256}, 65535, "num"))
		case 7:
			a.Net, a.Sub = dict.Byte(t, rapid.SampledFrom(nets), "net")&127, dict.Byte(t, rapid.SampledFrom(subs), "sub")&15
		default:
			a.Field, a.Alt = uint8(1+g.roll(len(details), "field")), uint8(g.roll(40, "id"))
		}
		if a.accepted() {
			g.strip(&a)
		}
		return a
	}
	a := Ann{IP: k.ip, Bind: k.bind, Seed: uint8(g.roll(40, "id"))}
	if l := g.last[k]; l != nil && g.roll(3, "samebase") > 0 {
		a.Net, a.Sub = l.Net, l.Sub
	} else {
		a.Net, a.Sub = dict.Byte(t, rapid.SampledFrom(nets), "net")&127, dict.Byte(t, rapid.SampledFrom(subs), "sub")&15
	}
	switch g.roll(8, "style") {
	case 6:
		a.Style = uint8(g.roll(7, "otherstyle"))
	case 5:
		a.Style = 1
	}
	a.Num = uint16(dict.Pick(t, []int{4, 1, 2, 3, 0, 4, 4, 5, 256, 0x0304}, 65535, "num"))
	for i := range a.Ports {
		p := &a.Ports[i]
		p.Flags = rapid.SampledFrom([]uint8{0x80, 0x80, 0x40, 0xc0, 0, 0x85, 0x43, 0x05}).Draw(t, "flags")
		p.In, p.Out = uint8(g.roll(16, "in")), uint8(g.roll(16, "out"))
		if x, ok := dict.Int(t, 0, 15, "nibble"); ok {
			p.In, p.Out = uint8(x), uint8(x)
		}
		p.Good = uint8(g.roll(256, "good"))
		if g.roll(12, "dirty") == 0 {
			p.In |= 0x50
			p.Out |= 0xa0
		}
	}
	a.Swap = g.roll(6, "swap") == 0
	if !a.accepted() {
		return a
	}
	g.strip(&a)
	return a
}

// strip removes ports that another device claims now or did before this burst.
func (g *ctlGen) strip(a *Ann) {
	k := a.key()
	base := func(n uint8) Addr { return Addr{a.Net, a.Sub<<4 | n&15} }
	for i := range a.Ports {
		p := &a.Ports[i]
		if u := base(p.Out); !free(g.out, u, k) || !free(g.pre, u, k) {
			p.Flags &^= 0x80
		}
		if u := base(p.In); !free(g.in, u, k) || !free(g.prei, u, k) {
			p.Flags &^= 0x40
		}
	}
}

// claim notes an announcement's universes.
func (g *ctlGen) claim(a *Ann) {
	k := a.key()
	out, in := a.unis()
	if !a.accepted() {
		g.ever = append(g.ever, out...)
		return
	}
	g.release(k)
	g.at[k] = g.now
	for _, u := range out {
		g.out[u] = k
	}
	for _, u := range in {
		g.in[u] = k
	}
	g.ever = append(g.ever, out...)
	g.last[k] = a
}

// move lets a universe change its owner, in two announcements.
func (g *ctlGen) move() {
	var us []Addr
	for u := range g.out {
		us = append(us, u)
	}
	if len(us) == 0 || len(g.devs) < 2 {
		return
	}
	sort.Slice(us, func(i, j int) bool { return us[i][0] < us[j][0] || us[i][0] == us[j][0] && us[i][1] < us[j][1] })
	u := us[g.roll(len(us), "mu")]
	from := g.out[u]
	to := g.devs[g.roll(len(g.devs), "mto")]
	if to == from || g.last[from] == nil {
		return
	}
	a := *g.last[from]
	for i := range a.Ports {
		if a.Ports[i].Out&15 == u[1]&15 {
			a.Ports[i].Flags &^= 0x80
		}
	}
	if !a.accepted() {
		return
	}
	g.pre, g.prei = nil, nil
	g.claim(&a)
	g.add(COp{K: "ann", Anns: []Ann{a}})
	if g.roll(3, "mbetween") == 0 {
		g.add(COp{K: "dmx", Dmx: []Submit{g.submit()}})
	}
	b := Ann{IP: to.ip, Bind: to.bind, Net: u[0], Sub: u[1] >> 4, Num: 4, Seed: 77}
	if l := g.last[to]; l != nil && l.Net == b.Net && l.Sub == b.Sub {
		b = *l
		b.Num = 4
	}
	b.Style = 0
	b.Ports[g.roll(4, "mport")] = PortAnn{Flags: 0x80, Out: u[1] & 15}
	g.strip(&b)
	g.claim(&b)
	g.add(COp{K: "ann", Anns: []Ann{b}})
	g.seed++
	if g.roll(3, "msub") > 0 {
		g.add(COp{K: "dmx", Dmx: []Submit{{u, g.seed*16 + 5}}})
	}
}

// crowd announces many devices in one burst.
func (g *ctlGen) crowd() {
	t := g.t
	g.pre, g.prei = maps.Clone(g.out), maps.Clone(g.in)
	n := dict.Pick(t, []int{9, 10, 11, 12, 21, 40}, 300, "ncrowd")
	if g.roll(8, "mob") == 0 {
		n = dict.Pick(t, []int{70, 140, 260}, 300, "nmob")
	}
	ports := rapid.IntRange(1, 4).Draw(t, "crowdports")
	var as []Ann
	for i := 0; i < n; i++ {
		k := devKey{IP{g.c.Own[0], g.c.Own[1] ^ 0x10, 77, uint8(1 + i/2)}, uint8(i % 2)}
		a := Ann{IP: k.ip, Bind: k.bind, Net: uint8(50 + i/16), Sub: uint8(i % 16), Num: uint16(ports), Seed: uint8(i)}
		for j := range a.Ports {
			a.Ports[j] = PortAnn{Flags: []uint8{0x80, 0xc0, 0x40, 0x80}[(i+j)%4], In: uint8(j), Out: uint8(15 - j)}
		}
		g.strip(&a)
		g.claim(&a)
		as = append(as, a)
	}
	g.add(COp{K: "ann", Anns: as})
	g.add(COp{K: "sleep", Us: dict.PickUs(t, []int{1000, 260000, 1000000}, 12000000, "crowdus")})
	if g.p.keep {
		g.add(COp{K: "keep", N: rapid.IntRange(1, 3).Draw(t, "nkeep"), Us: 3000000})
	}
	if g.p.dmx > 0 {
		op := COp{K: "dmx"}
		for m := dict.Pick(t, []int{6, 12, 40}, 200, "ncsub"); m > 0; m-- {
			op.Dmx = append(op.Dmx, g.submit())
		}
		g.add(op)
	}
}

func (g *ctlGen) submit() (s Submit) {
	if n := len(g.subs); n > 0 && g.roll(6, "again") == 0 { // the same data once more
		return g.subs[n-1-g.roll(min(n, 3), "which")]
	}
	defer func() { g.subs = append(g.subs, s) }()
	return g.fresh()
}

func (g *ctlGen) fresh() Submit {
	t := g.t
	g.seed++
	s := Submit{Seed: g.seed*16 + uint32(g.roll(16, "shape"))}
	if k := s.Seed % 16; k == 0 || k >= 2 && k <= 4 { // one channel set, or one channel off a common scene
		if k > 0 {
			k = 2
		}
		ch, ok := dict.Int(t, 0, 511, "ch")
		if !ok {
			ch = rapid.OneOf(rapid.IntRange(0, 511), rapid.SampledFrom([]int{0, 1, 255, 256, 510, 511})).Draw(t, "ch")
		}
		s.Seed = k | uint32(ch)<<4 | uint32(dict.Byte(t, rapid.Byte(), "level"))<<13 | uint32(g.roll(2, "scene"))<<21
	}
	if g.roll(12, "zero") == 0 {
		s.Seed = 0
	}
	if len(g.ever) == 0 || g.roll(12, "unknown") == 0 {
		s.U = Addr{uint8(g.roll(128, "unet")), uint8(g.roll(256, "usub"))}
	} else {
		n := len(g.ever)
		s.U = g.ever[rapid.OneOf(rapid.IntRange(max(0, n-4), n-1), rapid.IntRange(0, n-1)).Draw(t, "u")]
		switch g.roll(14, "near") {
		case 7:
			s.U[0] ^= 1
		case 8:
			s.U[1] ^= 0x10
		}
	}
	return s
}

func (g *ctlGen) sleepUs() int {
	t := g.t
	iv := 1000000 / g.fps
	hi := 3000000
	if g.p.longs {
		hi = max(12000000, min(1200000000, 20000*iv))
	}
	if us, ok := dict.Us(t, hi, "us"); ok {
		return us
	}
	short := []int{1, 100, 1000, 5000, 20000, 100000, 249000, 250000, 251000, 260000, 500000, iv, iv / 2, iv + 1, 2 * iv, 3 * iv}
	if !g.p.longs || g.roll(3, "long") == 0 {
		return min(3000000, max(1, rapid.SampledFrom(short).Draw(t, "us")))
	}
	return rapid.SampledFrom([]int{1000000, 2000000, 2999999, 3000000, 3000001, 3500000, 4000000, 5999999, 6000000, 6900000, 6999999, 7000000, 7000001,
		7100000, 8000000, 8999999, 9000000, 9000001, 9999999, 10000000, 10001001, 10500000, 12000000}).Draw(t, "us")
}

func genCtlCase(t *rapid.T, p *ctlProfile) CtlCase {
	c := CtlCase{Own: genIP(t, "own"), IP16: rapid.Bool().Draw(t, "ip16"), Debug: p.logged || fgen.Roll(t, 6, "debug") == 0}
	g := &ctlGen{t: t, p: p, c: &c, last: map[devKey]*Ann{}, out: map[Addr]devKey{}, in: map[Addr]devKey{}, at: map[devKey]int{}}
	n := dict.Pick(t, []int{0, 5, 16, 17, 18, 30}, 200, "namelen")
	c.Name = make(Hex, n)
	for i := range c.Name {
		c.Name[i] = 'a' + byte((i*5+n)%26)
	}
	fps := p.fps
	if fps == nil {
		fps = []int{1000, 1, 2, 3, 5, 10, 25, 30, 40, 44, 60, 100, 333, 500, 7}
	}
	g.fps = dict.Pick(t, fps, 1000, "fps")
	if g.fps != 1000 || g.roll(2, "fpsopt") == 0 {
		c.Opts = append(c.Opts, COpt{NOpt: NOpt{K: "fps", Late: rapid.Bool().Draw(t, "fpslate")}, FPS: g.fps})
	}
	opt := func() COpt {
		x := COpt{NOpt: NOpt{K: rapid.SampledFrom([]string{"listen", "listenip", "bcast"}).Draw(t, "optk"), Late: rapid.Bool().Draw(t, "late")}}
		x.IP = rapid.SampledFrom([]IP{c.Own, {2, 255, 255, 255}, {255, 255, 255, 255}, {10, 255, 255, 255}, {192, 168, 1, 255}, {10, 0, 0, 1}}).Draw(t, "optip")
		x.Port = dict.Pick(t, []int{6454, 6455, 7000, 65535, 1, 6453}, 65535, "optport")
		if x.K != "bcast" {
			x.Nil = g.roll(3, "nilip") == 0
		}
		return x
	}
	if p.opts || g.roll(4, "opts") == 0 {
		for n := rapid.IntRange(0, 4).Draw(t, "nopts"); n > 0; n-- {
			c.Opts = append(c.Opts, opt())
		}
	}
	pool := []devKey{}
	nd := rapid.IntRange(1, p.maxDev).Draw(t, "ndev")
	if x, ok := dict.Int(t, 1, 24, "ndev"); ok {
		nd = x
	}
	for i := 0; i < nd; i++ {
		k := devKey{IP{c.Own[0], c.Own[1], c.Own[2] + 1, uint8(10 + i)}, 0}
		switch g.roll(4, "devk") {
		case 0:
			if i > 0 { // another bind index of the device before
				k = devKey{pool[i-1].ip, pool[i-1].bind + 1}
			}
		case 1:
			if i > 0 {
				k.ip = pool[i-1].ip
				k.ip[g.roll(4, "ipb")] ^= 1 << g.roll(7, "ipbit")
				k.bind = uint8(g.roll(3, "bind"))
			}
		}
		for _, o := range pool {
			if o == k {
				k.bind += 7
			}
		}
		for _, o := range pool {
			if o == k {
				k.ip[2] ^= 0x80
			}
		}
		if x, ok := dict.Int(t, 0, 255, "devhint"); ok {
			q := k
			if r := g.roll(5, "devhintb"); r < 4 {
				q.ip[r] = uint8(x)
			} else {
				q.bind = uint8(x)
			}
			if !slices.Contains(pool, q) {
				k = q
			}
		}
		if k.ip == c.Own {
			k.ip[1] ^= 0x40
		}
		pool = append(pool, k)
	}
	g.devs = pool
	redo := func(n int) {
		for m := n; p.twice && g.roll(m, "redo") == 0; m = max(2, m) {
			g.add(COp{K: rapid.SampledFrom([]string{"start+", "stop+"}).Draw(t, "redok")})
		}
	}
	start := func() {
		redo(5)
		defer redo(3)
		if p.lfault {
			for g.roll(3, "lf") == 0 {
				g.add(COp{K: "start", Err: 1 + g.roll(len(simnet.Errs), "lerr")})
			}
		}
		g.add(COp{K: "start", N: g.roll(2, "startnow")})
	}
	burst := func() {
		var as []Ann
		g.pre, g.prei = nil, nil
		n := 1
		if g.roll(3, "burst") == 0 {
			n = rapid.IntRange(1, 2*len(pool)).Draw(t, "nb")
		}
		for ; n > 0; n-- {
			k := pool[g.roll(len(pool), "dev")]
			a := g.ann(k)
			if g.roll(8, "fromk") == 0 {
				f := genNearIP(t, c.Own, "from")
				a.From = &f
			}
			if p.selfs && g.roll(3, "self") == 0 {
				f := c.Own
				a.From = &f
			} else if a.From != nil || a.IP != c.Own {
				g.claim(&a)
			}
			as = append(as, a)
		}
		g.add(COp{K: "ann", Anns: as})
	}
	if p.selfs && rapid.Bool().Draw(t, "owndev") { // another host that announces our own address
		pool = append(pool, devKey{c.Own, uint8(g.roll(3, "ownbind"))})
	}
	early := -1
	if (p.restarts || p.dmx > 0) && g.roll(10, "tooearly") == 0 {
		early = len(c.Ops)
		g.add(COp{K: "dmx", Dmx: []Submit{g.submit()}})
	}
	start()
	if g.roll(4, "early") > 0 {
		burst()
	}
	crowd := p.crowd && g.roll(20, "crowd") == 0
	if crowd {
		g.crowd()
	}
	up := true
	for n := rapid.IntRange(1, p.maxOps).Draw(t, "nops"); n > 0; n-- {
		k := g.roll(24, "op")
		switch {
		case k < 5:
			if p.moves && g.roll(3, "moves") == 0 {
				g.move()
			} else {
				burst()
			}
		case k < 9 && p.dmx > 0 || k < 13 && p.dmx > 1:
			op := COp{K: "dmx"}
			for m := dict.Pick(t, []int{1, 1, 2, 3, 6}, 100, "nsub"); m > 0; m-- {
				op.Dmx = append(op.Dmx, g.submit())
			}
			g.add(op)
		case k == 13 && p.stream:
			op := COp{K: "stream", N: dict.Pick(t, []int{3, 20, 130, 300}, 400, "nstream"), Us: max(1, 1000000/g.fps/rapid.SampledFrom([]int{1, 1, 2}).Draw(t, "div"))}
			if op.N*op.Us > 6000000 {
				op.N = max(1, 6000000/op.Us)
			}
			for m := rapid.IntRange(1, 3).Draw(t, "nsub"); m > 0; m-- {
				op.Dmx = append(op.Dmx, g.submit())
			}
			g.add(op)
		case k == 14 && p.keep:
			if us, ok := dict.Us(t, max(1, min(1200000000, 20000*(1000000/g.fps))), "keeptime"); ok && us > 3000000 {
				g.add(COp{K: "keep", N: us/3000000 + 1, Us: 3000000})
				continue
			}
			if g.fps <= 10 && g.roll(12, "longkeep") == 0 { // some minutes
				g.add(COp{K: "keep", N: rapid.IntRange(20, 100).Draw(t, "nlong"), Us: rapid.SampledFrom([]int{2999000, 3000000, 6000000}).Draw(t, "longus")})
				continue
			}
			op := COp{K: "keep", N: rapid.IntRange(1, 6).Draw(t, "nkeep"), Us: dict.PickUs(t, []int{2000000, 2999000, 3000000, 5000000, 6999000, 7000000}, 7000000, "keepus")}
			g.add(op)
		case k == 15 && p.faults:
			op := COp{K: "wfail", Err: g.roll(len(simnet.Errs), "err"), N: dict.Pick(t, []int{0, 1, 5, 40}, 600, "nerr")}
			if rapid.Bool().Draw(t, "todev") {
				op.To = append(op.To, pool[g.roll(len(pool), "fdev")].ip)
			}
			g.add(op)
		case k == 16 && p.faults:
			g.add(COp{K: "rerr", Err: g.roll(len(simnet.Errs), "err"), N: dict.Pick(t, []int{1, 1, 2, 12}, 600, "nerr")})
		case k == 17 && p.polls || k >= 10 && k < 13 && p.morePolls:
			op := COp{K: "poll", From: genNearIP(t, c.Own, "from"), Frame: pollFrame(dict.Byte(t, rapid.Byte(), "talk"), dict.Byte(t, rapid.Byte(), "prio")), N: dict.Pick(t, []int{1, 1, 2, 11, 30}, 300, "npoll")}
			if p.selfs && rapid.Bool().Draw(t, "selfp") {
				op.From = c.Own
			}
			if up && g.roll(3, "meet") == 0 { // at the instant of an own poll
				op.Us = 3000000 - (g.now-g.t0)%3000000
				if rapid.Bool().Draw(t, "wslow") {
					op.Wait = rapid.SampledFrom([]int{2, 10, 60, 300}).Draw(t, "wslown")
				}
			}
			g.add(op)
		case k == 18 && p.junk:
			f := fgen.Frame(t)
			if op := opOf(f); op == opPoll || op == opPollReply {
				f[8] ^= 0x5a
			}
			g.add(COp{K: "junk", From: genNearIP(t, c.Own, "from"), Frame: f, N: dict.Pick(t, []int{1, 1, 12}, 300, "njunk")})
		case k >= 19 && k <= 20 && p.restarts:
			if up {
				op := COp{K: "stop"}
				if p.faults && g.roll(6, "cf") == 0 {
					op.Err = 1 + g.roll(len(simnet.Errs), "cerr")
				}
				if g.roll(3, "now") > 0 {
					op.N = dict.Pick(t, []int{1, 2, 12, 40}, 300, "npolls")
					op.From = genNearIP(t, c.Own, "from")
					op.Us = g.sleepUs()
					if p.slowNet && rapid.Bool().Draw(t, "wslow") {
						op.Wait = rapid.SampledFrom([]int{2, 10, 60, 300}).Draw(t, "wslown")
						op.Yield = rapid.IntRange(0, 120).Draw(t, "yields")
					}
					if rapid.Bool().Draw(t, "tick") { // at a poll or update instant
						op.Us = rapid.SampledFrom([]int{3000000 - (g.now-g.t0)%3000000, 1000000 / g.fps, 250000 + 1000000/g.fps}).Draw(t, "tickus")
					}
					for m := rapid.SampledFrom([]int{0, 1, 3, 20}).Draw(t, "stopanns"); m > 0; m-- {
						op.Anns = append(op.Anns, g.ann(pool[g.roll(len(pool), "dev")]))
					}
					for m := rapid.SampledFrom([]int{0, 1, 4}).Draw(t, "stopdmx"); m > 0; m-- {
						op.Dmx = append(op.Dmx, g.submit())
					}
				}
				g.add(op)
				redo(2)
				switch g.roll(4, "pause") {
				case 0:
					g.add(COp{K: "sleep", Us: dict.PickUs(t, []int{1, 500000, 4000000, 12000000}, 12000000, "pauseus")})
				case 1:
					g.add(COp{K: "dmx", Dmx: []Submit{g.submit()}})
				}
			}
			for m := 8; g.roll(m, "newopt") == 0 || p.opts && rapid.Bool().Draw(t, "newopts"); m = 4 {
				x := opt()
				if g.roll(3, "newfps") == 0 {
					g.fps = dict.Pick(t, fps, 1000, "fps")
					x = COpt{NOpt: NOpt{K: "fps"}, FPS: g.fps}
				}
				g.add(COp{K: "opt", Opt: &x})
			}
			start()
			if !p.lfault && g.roll(16, "cycle") == 0 {
				op := COp{K: "cycle", N: dict.Pick(t, []int{2, 3, 9, 20, 270}, 300, "ncycle")}
				g.add(op)
			}
		default:
			if p.twice && g.roll(4, "silence") == 0 { // between two clean-ups of silent devices
				g.add(COp{K: "sleep", Us: rapid.IntRange(6500000, 9500000).Draw(t, "silenceus")})
				redo(1)
				g.add(COp{K: "sleep", Us: rapid.IntRange(1000000, 3500000).Draw(t, "silenceus2")})
				continue
			}
			if p.longs && g.fps <= 10 && g.roll(24, "verylong") == 0 {
				g.add(COp{K: "sleep", Us: rapid.SampledFrom([]int{400000000, 900000000}).Draw(t, "verylongus")})
				continue
			}
			g.add(COp{K: "sleep", Us: g.sleepUs()})
		}
		redo(8)
	}
	if p.probe {
		g.add(COp{K: "wfail"})
		g.add(COp{K: "sleep", Us: 300000 + 2000000/g.fps})
		g.add(COp{K: "mark"})
		a := Ann{IP: IP{c.Own[0], c.Own[1] ^ 0x20, 99, 9}, Net: 99, Sub: 9, Num: 1, Seed: 1}
		a.Ports[0] = PortAnn{Flags: 0x80, Out: 9}
		g.add(COp{K: "ann", Anns: []Ann{a}})
		g.add(COp{K: "dmx", Dmx: []Submit{{Addr{99, 0x99}, 98}}})
		g.add(COp{K: "poll", From: a.IP, Frame: pollFrame(2, 0)})
		g.add(COp{K: "sleep", Us: 1000000 + 1000000/g.fps})
		g.add(COp{K: "sleep", Us: 3000000})
	} else {
		g.add(COp{K: "sleep", Us: 1 + 300000 + 1000000/g.fps})
	}
	if early >= 0 && len(g.ever) > 0 { // for a universe that is announced later
		c.Ops[early].Dmx[0].U = g.ever[g.roll(min(len(g.ever), 4), "earlyu")]
	}
	if p.company {
		c.Company = genCompany(t, c.Own, len(c.Ops))
	}
	return c
}

func ctlTest(t *testing.T, prop string, p *ctlProfile, nontrivial func(*CtlCase, *outcome) bool, cats ...string) {
	testCats[t.Name()] = cats
	vlib.Check(t, prop, func(rt *rapid.T) CtlCase { return genCtlCase(rt, p) }, func(t *testing.T, c CtlCase) vlib.Result {
		o := newOutcome()
		if p.logged {
			defer o.elsewhere()()
		}
		err := runCtl(t, &c, o)
		if p.twice && (err != nil || o.result(cats...).Err != nil) && o.errs["life"] == nil {
			// does it fail as well without the superfluous calls?
			d, o2 := c, newOutcome()
			d.Ops = slices.DeleteFunc(slices.Clone(c.Ops), func(x COp) bool { return strings.HasSuffix(x.K, "+") })
			if err2 := runCtl(t, &d, o2); err2 != nil || o2.result(cats...).Err != nil {
				return vlib.Result{Labels: []string{"fails without superfluous calls"}}
			}
		}
		if p.company && !vlib.Plain() && (err != nil || o.result(cats...).Err != nil) {
			// is it the others? Judged in fresh processes: what they changed may last.
			d := c
			d.Company = nil
			if vlib.FailsFresh(d) {
				return vlib.Result{Labels: []string{"fails alone"}}
			}
			if !vlib.FailsFresh(c) {
				return vlib.Result{Labels: []string{"failed only after other cases"}}
			}
		}
		o.nontriv = nontrivial(&c, o)
		o.printed()
		r := o.result(cats...)
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func all(ls ...string) func(*CtlCase, *outcome) bool {
	return func(_ *CtlCase, o *outcome) bool {
		for _, l := range ls {
			if !o.labels[l] {
				return false
			}
		}
		return true
	}
}

func TestC11Ctl(t *testing.T) {
	ctlTest(t, "C11", &ctlProfile{maxOps: 4, maxDev: 2, restarts: true, lfault: true}, all("start-noport"), "start", "hang")
}

func TestC14Ctl(t *testing.T) {
	ctlTest(t, "C14", &ctlProfile{maxOps: 16, maxDev: 3, dmx: 1, faults: true, junk: true, polls: true, probe: true},
		func(_ *CtlCase, o *outcome) bool { return o.labels["read-error"] || o.labels["write-error"] }, "alive", "hang")
}

func TestC15Ctl(t *testing.T) {
	ctlTest(t, "C15", &ctlProfile{maxOps: 14, maxDev: 3, selfs: true, polls: true, longs: true}, all("ann-from-self"), "self", "view", "reply")
}

func TestC17(t *testing.T) {
	ctlTest(t, "C17", &ctlProfile{crowd: true, moves: true, maxOps: 18, maxDev: 4, longs: true, keep: true, junk: true, dmx: 1}, all("updated"), "view")
}

func TestC18(t *testing.T) {
	ctlTest(t, "C18", &ctlProfile{crowd: true, moves: true, maxOps: 20, maxDev: 4, dmx: 2, keep: true, stream: true, longs: true}, all("submit"), "owner", "data", "deliver")
}

func TestC19(t *testing.T) {
	ctlTest(t, "C19", &ctlProfile{crowd: true, restarts: true, maxOps: 16, maxDev: 3, dmx: 2, keep: true, stream: true, faults: true}, all("dmx-frames"), "refresh", "rate")
}

func TestC20(t *testing.T) {
	ctlTest(t, "C20", &ctlProfile{crowd: true, moves: true, maxOps: 14, maxDev: 3, dmx: 2, keep: true, stream: true, longs: true, fps: []int{1000, 500, 100, 40, 250}}, all("dmx-frames"), "seq")
}

func TestC21(t *testing.T) {
	ctlTest(t, "C21", &ctlProfile{crowd: true, moves: true, maxOps: 16, maxDev: 5, dmx: 1, keep: true, longs: true, fps: []int{100, 10, 2, 40}}, all("expired"), "expiry", "data", "view")
}

func TestC22(t *testing.T) {
	ctlTest(t, "C22", &ctlProfile{morePolls: true, crowd: true, maxOps: 16, maxDev: 3, dmx: 1, polls: true, junk: true, faults: true, longs: true, opts: true, stream: true, restarts: true}, all("foreign-poll"), "poll", "reply")
}

func TestC23(t *testing.T) {
	ctlTest(t, "C23", &ctlProfile{slowNet: true, crowd: true, maxOps: 16, maxDev: 5, dmx: 1, polls: true, restarts: true, faults: true, stream: true}, all("restarted"), "stop", "restart", "leak", "hang", "start")
}

func TestC29Ctl(t *testing.T) {
	ctlTest(t, "C29", &ctlProfile{crowd: true, maxOps: 14, maxDev: 4, dmx: 1, polls: true, junk: true, faults: true, keep: true, stream: true, restarts: true, longs: true},
		all("ann-accepted"), "accum", "hang")
}

func TestC30Ctl(t *testing.T) {
	ctlTest(t, "C30", &ctlProfile{twice: true, maxOps: 10, maxDev: 3, dmx: 1, polls: true, keep: true, restarts: true, lfault: true, stream: true},
		func(_ *CtlCase, o *outcome) bool { return o.labels["started-twice"] || o.labels["stopped-twice"] },
		"life", "hang", "leak", "stop", "restart", "start", "view", "expiry", "owner", "data", "deliver", "refresh", "rate", "seq", "poll", "reply")
}

func TestC32Ctl(t *testing.T) {
	ctlTest(t, "C32", &ctlProfile{maxOps: 12, maxDev: 3, dmx: 1, polls: true, junk: true, faults: true, keep: true, restarts: true, lfault: true, longs: true, logged: true, fps: []int{100, 10, 2, 40}},
		func(_ *CtlCase, o *outcome) bool { return o.logs.n.Load() > 5 }, "log")
}

func TestC33Ctl(t *testing.T) {
	ctlTest(t, "C33", &ctlProfile{maxOps: 12, maxDev: 3, dmx: 2, polls: true, keep: true, stream: true, restarts: true, moves: true, longs: true, opts: true, company: true},
		func(_ *CtlCase, o *outcome) bool { return o.labels["others-active"] },
		"view", "expiry", "owner", "data", "deliver", "refresh", "rate", "seq", "poll", "reply", "addr", "stop", "restart", "hang")
}

func TestC27Ctl(t *testing.T) {
	ctlTest(t, "C27", &ctlProfile{maxOps: 5, maxDev: 2, dmx: 1, opts: true, polls: true, restarts: true},
		func(c *CtlCase, o *outcome) bool { return len(c.Opts) > 0 }, "addr")
}
