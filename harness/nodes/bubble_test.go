// Package nodes runs the library's nodes and controllers on a simulated
// network in virtual time and judges what they do.
package nodes

import (
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/sirupsen/logrus"

	"verif/fgen"
	"verif/ref"
	"verif/simnet"
	"verif/vlib"
)

// Hex is a byte string shown as hex in replay files.
type Hex = fgen.Hex

// IP is an IPv4 address.
type IP = simnet.IP

func ipOf(a IP, sixteen bool) net.IP {
	if sixteen {
		return net.IPv4(a[0], a[1], a[2], a[3])
	}
	return net.IP{a[0], a[1], a[2], a[3]}
}

// logWatch counts what is logged, and keeps the first message that came
// without the fields of the logger the library was given.
type logWatch struct {
	n    atomic.Int64
	bare atomic.Pointer[string]
}

func (w *logWatch) Levels() []logrus.Level { return logrus.AllLevels }

func (w *logWatch) Fire(e *logrus.Entry) error {
	w.n.Add(1)
	if e.Data["site"] != "hall 3" || e.Data["unit"] != 17 {
		s := fmt.Sprintf("%q %v", e.Message, e.Data)
		w.bare.CompareAndSwap(nil, &s)
	}
	return nil
}

func newLog(debug bool, o *outcome) artnet.Logger {
	l := logrus.New()
	l.Out = io.Discard
	l.Level = logrus.PanicLevel
	if debug {
		l.Level = logrus.DebugLevel
		l.AddHook(&o.logs)
	}
	return artnet.NewLogger(l.WithFields(logrus.Fields{"site": "hall 3", "unit": 17}))
}

// elsewhere catches what the library writes to the standard streams and the
// standard loggers instead of the logger it was given.
func (o *outcome) elsewhere() (restore func()) {
	f, err := os.CreateTemp("", "verif-out")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	o.other = f
	out, errs := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = f, f
	logrus.SetOutput(f)
	log.SetOutput(f)
	return func() {
		os.Stdout, os.Stderr = out, errs
		logrus.SetOutput(errs)
		log.SetOutput(errs)
		f.Close()
	}
}

func (o *outcome) printed() {
	if o.other == nil {
		return
	}
	b := make([]byte, 200)
	if n, _ := o.other.ReadAt(b, 0); n > 0 {
		o.fail("log", "written past the given logger: %q", b[:n])
	}
}

var (
	stdout     sync.Mutex
	devNull, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
)

// defaultLog is the library's default logger, with its output thrown away.
func defaultLog() artnet.Logger {
	stdout.Lock()
	defer stdout.Unlock()
	was := os.Stdout
	os.Stdout = devNull
	defer func() { os.Stdout = was }()
	return artnet.NewDefaultLogger()
}

// outcome of an executed history: the first error of each category.
type outcome struct {
	errs     map[string]error
	order    []string
	labels   map[string]bool
	evals    int
	nontriv  bool
	deadlock string // set when the bubble could not be left
	logs     logWatch
	other    *os.File // what was written past the logger
}

func newOutcome() *outcome { return &outcome{errs: map[string]error{}, labels: map[string]bool{}} }

func (o *outcome) fail(cat, format string, args ...any) {
	if o.errs[cat] == nil {
		o.errs[cat] = fmt.Errorf(format, args...)
		o.order = append(o.order, cat)
	}
}

func (o *outcome) label(l string) { o.labels[l] = true }

// result keeps the errors of the given categories.
func (o *outcome) result(cats ...string) vlib.Result {
	r := vlib.Result{NonTrivial: o.nontriv}
	if m := o.logs.bare.Load(); m != nil {
		o.fail("log", "logged without the fields of the given logger: %s", *m)
	}
	for l := range o.labels {
		r.Labels = append(r.Labels, l)
	}
	for _, c := range o.order {
		for _, k := range cats {
			if c == k && o.errs[c] != nil && r.Err == nil {
				r.Err = fmt.Errorf("%s: %w", c, o.errs[c])
			}
		}
	}
	return r
}

// bubble runs f in virtual time on a fresh network. Goroutines of the library
// that remain blocked afterwards are reported in category "leak", a main
// goroutine that cannot finish in category "hang".
func bubble(t *testing.T, o *outcome, f func(n *simnet.Net)) (panicked error) {
	defer func() {
		net.VerifListen = nil
		vlib.Leaving(nil)
		if p := recover(); p != nil {
			s := fmt.Sprint(p)
			if strings.HasPrefix(s, "deadlock:") {
				o.deadlock = s
				if strings.Contains(s, "main bubble goroutine has exited") {
					o.fail("leak", "goroutines remain after everything was stopped: %s", s)
				} else {
					o.fail("hang", "a call into the library never returns: %s", s)
				}
				return
			}
			panic(p)
		}
	}()
	synctest.Test(t, func(*testing.T) {
		r := vlib.Protect(func() vlib.Result { f(simnet.New()); return vlib.Result{} })
		panicked = r.Err
	})
	return
}

var bubbleRe = regexp.MustCompile(`synctest bubble (\d+)`)

// libGoroutines returns the stacks of the goroutines of this bubble that were
// started by library code.
func libGoroutines() []string {
	gs := strings.Split(vlib.Dump(), "\n\n")
	head := strings.SplitN(gs[0], "\n", 2)[0]
	m := bubbleRe.FindString(head)
	if m == "" {
		panic("harness: not in a bubble: " + head)
	}
	var out []string
	for _, g := range gs[1:] {
		h := strings.SplitN(g, "\n", 2)[0]
		if bubbleRe.FindString(h) != m {
			continue
		}
		i := strings.LastIndex(g, "created by ")
		if i >= 0 && strings.Contains(g[i:], "jsimonetti/go-artnet") {
			out = append(out, g)
		}
	}
	return out
}

// within calls f and reports whether it returned within d of virtual time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case <-done:
		return true
	case <-tm.C:
		return false
	}
}

// guarded calls f and reports how it ended badly, if it did.
func guarded(d time.Duration, f func()) (bad string) {
	var p any
	if !within(d, func() {
		defer func() { p = recover() }()
		f()
	}) {
		return "does not return"
	}
	if p != nil {
		return fmt.Sprintf("panics: %v", p)
	}
	return ""
}

// settleGoroutines waits until no library goroutine is left, at most d.
func settleGoroutines(d time.Duration) []string {
	synctest.Wait()
	g := libGoroutines()
	for k := 0; len(g) > 0 && k < 4; k++ {
		time.Sleep(d / 4)
		synctest.Wait()
		g = libGoroutines()
	}
	return g
}

// frames
func pollFrame(talk, prio byte) []byte {
	return ref.ByName("ArtPoll").Encode(ref.Values{"TalkToMe": {talk}, "Priority": {prio}}, true)
}

func opOf(b []byte) uint16 {
	if len(b) < 10 {
		return 0
	}
	return uint16(b[8]) | uint16(b[9])<<8
}

const (
	opPoll      = 0x2000
	opPollReply = 0x2100
	opDMX       = 0x5000
)

func short(b []byte) string {
	if len(b) > 48 {
		return fmt.Sprintf("%x...(%d bytes)", b[:48], len(b))
	}
	return fmt.Sprintf("%x", b)
}
