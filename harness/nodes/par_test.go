package nodes

import (
	"encoding/binary"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"pgregory.net/rapid"

	"verif/dict"
	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// ---- several goroutines that submit for nodes that stay ----------------------

// ParSub is one goroutine that submits for universes of its own.
type ParSub struct {
	N  int `json:"n"` // submissions in each phase
	Us int `json:"us,omitempty"`
}

// ParCase is a generated history.
type ParCase struct {
	FPS   int      `json:"fps"`
	Debug bool     `json:"debug,omitempty"`
	Devs  []int    `json:"devs"` // number of outputs of each
	AnnUs int      `json:"annus"`
	Vary  bool     `json:"vary,omitempty"` // announcements differ in details
	Wait  int      `json:"wait,omitempty"` // sending is slow
	Polls int      `json:"polls,omitempty"`
	Subs  []ParSub `json:"subs"`
	Rest  []int    `json:"rest"` // phases: rest after each
}

func runPar(t *testing.T, c *ParCase, o *outcome) error {
	return bubble(t, o, func(nw *simnet.Net) {
		own := IP{2, 0, 0, 1}
		nw.SetHost(own)
		if c.Wait > 0 {
			nw.WriteYield = func() int { return c.Wait }
		}
		interval := time.Second / time.Duration(c.FPS)
		ctl := artnet.NewController("par", ipOf(own, false), newLog(c.Debug, o), artnet.MaxFPS(c.FPS))
		var us []Addr
		var anns []*Ann
		for i, n := range c.Devs {
			a := &Ann{IP: IP{2, 0, 1, uint8(i + 1)}, Net: uint8(i), Sub: 3, Num: uint16(n), Seed: uint8(i)}
			for j := 0; j < n; j++ {
				a.Ports[j] = PortAnn{Flags: 0x80, Out: uint8(5*j) & 15}
				us = append(us, Addr{uint8(i), 0x30 | uint8(5*j)&15})
			}
			anns = append(anns, a)
		}
		if err := ctl.Start(); err != nil {
			o.fail("hang", "start fails: %v", err)
			return
		}
		for _, a := range anns {
			nw.Inject(own, own, 6454, a.IP, 6454, a.frame())
		}
		synctest.Wait()
		quit := make(chan struct{})
		var wg sync.WaitGroup
		for _, a := range anns {
			wg.Go(func() {
				for k := 0; ; k++ {
					select {
					case <-quit:
						return
					case <-time.After(time.Duration(c.AnnUs) * time.Microsecond):
					}
					x := *a
					if c.Vary {
						x.Seed = uint8(k)
					}
					nw.Inject(own, own, 6454, a.IP, 6454, x.frame())
				}
			})
		}
		final := map[Addr][512]byte{}
		serial := make([]int, len(c.Subs))
		for _, rest := range c.Rest {
			var swg sync.WaitGroup
			var mu sync.Mutex
			for i := range c.Subs {
				s := &c.Subs[i]
				swg.Go(func() {
					for j := 0; j < s.N; j++ {
						for k, u := range us {
							if k%len(c.Subs) != i {
								continue // another's
							}
							d := concBlock(i, serial[i], u)
							ctl.SendDMXToAddress(d, u.lib())
							mu.Lock()
							final[u] = d
							mu.Unlock()
						}
						serial[i]++
						if s.Us > 0 {
							time.Sleep(time.Duration(s.Us) * time.Microsecond)
						} else {
							runtime.Gosched()
						}
					}
				})
			}
			for j := 0; j < c.Polls; j++ {
				nw.Inject(own, own, 6454, IP{2, 0, 0, 2}, 6454, pollFrame(2, 0))
			}
			if !within(10*time.Minute, swg.Wait) {
				o.fail("hang", "SendDMXToAddress does not return")
				return
			}
			time.Sleep(interval + time.Millisecond)
			synctest.Wait()
			got := map[Addr]Hex{}
			for _, s := range nw.Sent(0) {
				if opOf(s.Data) == opDMX && len(s.Data) == 530 {
					got[Addr{s.Data[15], s.Data[14]}] = s.Data[18:]
				}
			}
			for u, d := range final {
				if string(got[u]) != string(d[:]) {
					o.fail("lost", "the data submitted last for %v is not sent; the last frame carries %s", u, short(got[u]))
				} else {
					o.label("delivered")
				}
			}
			time.Sleep(time.Duration(rest) * time.Microsecond)
		}
		close(quit)
		if !within(time.Minute, ctl.Stop) {
			o.fail("hang", "Stop does not return")
			return
		}
		end := time.Now()
		wg.Wait()
		seq := map[IP]uint8{}
		at := map[Addr]time.Time{}
		last := map[Addr]int{}
		for _, s := range nw.Sent(0) {
			if opOf(s.Data) != opDMX {
				continue
			}
			v, _, vals := ref.Decode(s.Data)
			if v != ref.Accept {
				o.fail("torn", "malformed ArtDmx frame %v", s)
				continue
			}
			u := Addr{vals["Net"][0], vals["SubUni"][0]}
			q := vals["Sequence"][0]
			if p, ok := seq[s.To]; ok && q != p%255+1 {
				o.fail("seq", "sequence number %d after %d to %v", q, p, s.To)
			}
			seq[s.To] = q
			if p, ok := at[u]; ok {
				if d := s.At.Sub(p); d > 250*time.Millisecond+interval+time.Millisecond {
					o.fail("refresh", "nothing is sent for %v for %v", u, d)
				} else if d < interval-interval/10-time.Microsecond {
					o.fail("rate", "two frames for %v within %v", u, d)
				}
			}
			at[u] = s.At
			var d [512]byte
			copy(d[:], vals["Data"])
			if d == [512]byte{} {
				if last[u] > 0 {
					o.fail("order", "ArtDmx for %v carries zeros after submitted data", u)
				}
				continue
			}
			sub, n := int(binary.BigEndian.Uint16(d[0:]))-1, int(binary.BigEndian.Uint32(d[2:]))
			if sub < 0 || sub >= len(c.Subs) || n < 1 || concBlock(sub, n-1, u) != d {
				o.fail("torn", "ArtDmx for %v carries data that was never submitted for it as one block", u)
				continue
			}
			if n < last[u] {
				o.fail("order", "ArtDmx for %v carries block %d after block %d", u, n, last[u])
			}
			last[u] = n
		}
		for u, p := range at {
			if d := end.Sub(p); d > 250*time.Millisecond+interval+time.Millisecond {
				o.fail("refresh", "nothing is sent for %v for %v", u, d)
			}
		}
	})
}

func genPar(t *rapid.T) ParCase {
	c := ParCase{FPS: dict.Pick(t, []int{1000, 100, 40, 44, 500, 10}, 1000, "fps"), Debug: fgen.Roll(t, 6, "debug") == 0}
	for m := rapid.IntRange(1, 3).Draw(t, "ndev"); m > 0; m-- {
		k := rapid.IntRange(1, 4).Draw(t, "nout")
		c.Devs = append(c.Devs, k)
	}
	c.AnnUs = rapid.SampledFrom([]int{20000, 1000, 300000, 3000000}).Draw(t, "annus")
	c.Vary = rapid.Bool().Draw(t, "vary")
	if fgen.Roll(t, 3, "slow") > 0 {
		c.Wait = rapid.SampledFrom([]int{1, 5, 20, 60}).Draw(t, "wait")
	}
	if fgen.Roll(t, 3, "polls") == 0 {
		c.Polls = rapid.SampledFrom([]int{1, 12, 60}).Draw(t, "npolls")
	}
	for m := rapid.IntRange(1, 4).Draw(t, "nsub"); m > 0; m-- {
		s := ParSub{N: dict.Pick(t, []int{1, 5, 40, 150}, 200, "n"), Us: rapid.SampledFrom([]int{0, 100, 1000, 7000, 1000000 / c.FPS}).Draw(t, "subus")}
		if s.Us > 0 {
			s.N = max(1, min(s.N, 300000/s.Us))
		}
		c.Subs = append(c.Subs, s)
	}
	for m := rapid.IntRange(1, 3).Draw(t, "nphase"); m > 0; m-- {
		c.Rest = append(c.Rest, dict.PickUs(t, []int{0, 1, 250000, 300000, 1000}, 1000000, "rest"))
	}
	return c
}

func parTest(t *testing.T, prop string, cats ...string) {
	vlib.Check(t, prop, genPar, func(t *testing.T, c ParCase) vlib.Result {
		o := newOutcome()
		err := runPar(t, &c, o)
		o.nontriv = o.labels["delivered"]
		r := o.result(append(cats, "hang")...)
		if err != nil && r.Err == nil {
			r.Err = err
		}
		return r
	})
}

func TestC18Par(t *testing.T) { parTest(t, "C18", "lost", "torn") }
func TestC19Par(t *testing.T) { parTest(t, "C19", "refresh", "rate") }
func TestC20Par(t *testing.T) { parTest(t, "C20", "seq") }
func TestC24Par(t *testing.T) { parTest(t, "C24", "lost", "torn", "order") }
