// Package vlib drives one property: it generates cases with rapid, journals
// the running case, executes it, records coverage and writes the failing case
// as plain data that can be replayed without rapid.
package vlib

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is the outcome of executing one case.
type Result struct {
	Labels     []string
	NonTrivial bool
	Err        error  // non-nil: the property is violated
	Key        string // optional: identity for distinctness instead of the whole case
	Evals      int    // executions this case stands for; 0 means 1
}

// Fail builds a violating result.
func (r Result) Fail(format string, args ...any) Result {
	r.Err = fmt.Errorf(format, args...)
	return r
}

type stats struct {
	mu       sync.Mutex
	evals    int
	nontriv  int
	labels   map[string]int
	hashes   map[uint64]struct{}
	samples  []json.RawMessage
	lastFail string
}

var st = stats{labels: map[string]int{}, hashes: map[uint64]struct{}{}}

var out = os.Stdout // also when a case redirects it

func outDir() string { return os.Getenv("VERIF_OUT") }

type failFile struct {
	Property string          `json:"property"`
	Test     string          `json:"test"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

var (
	curProp, curTest string
	curCase          atomic.Pointer[[]byte]
	caseNo           atomic.Int64
	journal          *os.File
)

func setCurrent(b []byte) {
	curCase.Store(&b)
	caseNo.Add(1)
	if d := outDir(); d != "" {
		if journal == nil {
			journal, _ = os.OpenFile(filepath.Join(d, "current.json"), os.O_CREATE|os.O_WRONLY, 0o644)
		}
		if journal != nil {
			hdr, _ := json.Marshal(failFile{Property: curProp, Test: curTest, Error: "process ended while executing this case", Case: b})
			journal.WriteAt(hdr, 0)
			journal.Truncate(int64(len(hdr)))
		}
	}
}

// writeWhole writes a file that is there either complete or not at all, also
// if the process is ended meanwhile.
func writeWhole(path string, b []byte) {
	if os.WriteFile(path+".part", b, 0o644) == nil {
		os.Rename(path+".part", path)
	}
}

// WriteFail records a violating case.
func WriteFail(caseJSON []byte, msg string) {
	st.mu.Lock()
	defer st.mu.Unlock()
	b, _ := json.MarshalIndent(failFile{Property: curProp, Test: curTest, Error: msg, Case: caseJSON}, "", " ")
	if d := outDir(); d != "" {
		first := filepath.Join(d, "fail-first.json")
		if _, err := os.Stat(first); err != nil {
			writeWhole(first, b)
		}
		writeWhole(filepath.Join(d, "fail.json"), b)
	}
	st.lastFail = msg
}

func record(caseJSON []byte, r Result) {
	st.mu.Lock()
	defer st.mu.Unlock()
	n := r.Evals
	if n == 0 {
		n = 1
	}
	st.evals += n
	for _, l := range r.Labels {
		st.labels[l]++
	}
	if r.NonTrivial {
		st.nontriv++
		h := fnv.New64a()
		if r.Key != "" {
			h.Write([]byte(r.Key))
		} else {
			h.Write(caseJSON)
		}
		k := h.Sum64()
		if _, ok := st.hashes[k]; !ok {
			st.hashes[k] = struct{}{}
			if len(st.samples) < 3 || (len(st.samples) < 6 && len(st.hashes)%97 == 0) {
				if len(caseJSON) < 6000 {
					st.samples = append(st.samples, append([]byte(nil), caseJSON...))
				} else {
					s, _ := json.Marshal(string(caseJSON[:6000]) + "...(cut)")
					st.samples = append(st.samples, s)
				}
			}
		}
	}
}

func flush() {
	d := outDir()
	if d == "" {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	b, _ := json.Marshal(map[string]any{
		"evaluations": st.evals, "nontrivial": st.nontriv, "labels": st.labels, "samples": st.samples,
	})
	var hb bytes.Buffer
	for k := range st.hashes {
		binary.Write(&hb, binary.LittleEndian, k)
	}
	writeWhole(filepath.Join(d, "hashes.bin"), hb.Bytes())
	writeWhole(filepath.Join(d, "stats.json"), b)
}

const libPath = "jsimonetti/go-artnet"

// Protect runs f and turns a panic raised in library code into an error. A
// panic of the harness itself is re-raised.
func Protect(f func() Result) (r Result) {
	defer func() {
		if p := recover(); p != nil {
			stack := string(debug.Stack())
			if strings.Contains(stack, libPath) && !strings.HasPrefix(fmt.Sprint(p), "harness:") {
				r.Err = fmt.Errorf("panic: %v\n%s", p, trimStack(stack))
				return
			}
			panic(p)
		}
	}()
	return f()
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

// Check generates and executes cases of one property.
func Check[C any](t *testing.T, prop string, gen func(*rapid.T) C, exec func(*testing.T, C) Result) {
	curProp, curTest = prop, t.Name()
	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		replay(t, rf, exec)
		return
	}
	startWatchdog()
	defer flush()
	rapid.Check(t, func(rt *rapid.T) {
		c := gen(rt)
		b, err := json.Marshal(c)
		if err != nil {
			panic("harness: case not serialisable: " + err.Error())
		}
		setCurrent(b)
		r := Protect(func() Result { return exec(t, c) })
		record(b, r)
		if r.Err != nil {
			WriteFail(b, r.Err.Error())
			rt.Fatalf("%v", r.Err)
		}
	})
}

// Enumerate executes an explicit enumeration of cases (exhaustive domains).
func Enumerate[C any](t *testing.T, prop string, cases func(yield func(C) bool), exec func(*testing.T, C) Result) {
	curProp, curTest = prop, t.Name()
	if rf := os.Getenv("VERIF_REPLAY"); rf != "" {
		replay(t, rf, exec)
		return
	}
	startWatchdog()
	defer flush()
	cases(func(c C) bool {
		b, err := json.Marshal(c)
		if err != nil {
			panic("harness: case not serialisable: " + err.Error())
		}
		curCase.Store(&b)
		caseNo.Add(1)
		r := Protect(func() Result { return exec(t, c) })
		record(b, r)
		if r.Err != nil {
			WriteFail(b, r.Err.Error())
			t.Errorf("%v", r.Err)
			return false
		}
		return true
	})
}

func replay[C any](t *testing.T, rf string, exec func(*testing.T, C) Result) {
	raw, err := os.ReadFile(rf)
	if err != nil {
		panic("harness: " + err.Error())
	}
	var ff failFile
	if err := json.Unmarshal(raw, &ff); err != nil {
		panic("harness: bad replay file: " + err.Error())
	}
	if ff.Test != "" && ff.Test != t.Name() {
		t.Skip("replay file is for " + ff.Test)
	}
	var c C
	if err := json.Unmarshal(ff.Case, &c); err != nil {
		panic("harness: bad replay case: " + err.Error())
	}
	startWatchdog()
	setCurrent(ff.Case)
	n := 1
	if s := os.Getenv("VERIF_REPLAY_N"); s != "" {
		fmt.Sscan(s, &n)
	}
	for i := 0; i < n; i++ {
		r := Protect(func() Result { return exec(t, c) })
		if r.Err != nil {
			WriteFail(ff.Case, r.Err.Error())
			t.Fatalf("replayed violation: %v", r.Err)
		}
	}
}

// Plain reports that this process only executes one case for FailsFresh.
func Plain() bool { return os.Getenv("VERIF_PLAIN") != "" }

// FailsFresh executes a case of the running test once in a process of its own
// and reports whether it fails there.
func FailsFresh(c any) bool {
	d, err := os.MkdirTemp("", "verif-fresh")
	if err != nil {
		panic("harness: " + err.Error())
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(c)
	ff, _ := json.Marshal(failFile{Property: curProp, Test: curTest, Case: b})
	f := filepath.Join(d, "case.json")
	if err := os.WriteFile(f, ff, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^"+curTest+"$", "-test.count=1", "-test.timeout=300s")
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f, "VERIF_REPLAY_N=1", "VERIF_OUT="+d, "VERIF_PLAIN=1")
	cmd.Dir = d
	err = cmd.Run()
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		panic("harness: " + err.Error())
	}
	return err != nil
}

// ---- watchdog: true deadlocks and non-termination -------------------------

var wdOnce sync.Once

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	gidRe    = regexp.MustCompile(`^goroutine (\d+)[^\[]*\[([^\]]*)\]`)
	minsRe   = regexp.MustCompile(`, \d+ minutes`)
	hexRe    = regexp.MustCompile(`0x[0-9a-f]+`)
	blockedS = []string{"chan receive", "chan send", "select", "sync.Mutex.Lock", "sync.RWMutex", "sync.WaitGroup", "sync.Cond",
		"semacquire", "sleep", "synctest", "IO wait", "GC", "finalizer", "force gc", "cleanup wait", "coroutine"}
)

// Dump returns the stacks of all goroutines.
func Dump() string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			return string(buf[:n])
		}
		buf = make([]byte, 2*len(buf))
	}
}

// frozen reports whether no goroutine except the watchdog can make progress,
// and returns a canonical form of the dump to compare over time.
func frozen() (string, bool) {
	d := Dump()
	var keep []string
	libBlocked := false
	for _, g := range strings.Split(d, "\n\n") {
		if strings.Contains(g, "vlib.watchdog") {
			continue
		}
		m := gidRe.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		state := m[2]
		ok := false
		for _, b := range blockedS {
			if strings.HasPrefix(state, b) {
				ok = true
			}
		}
		if !ok {
			return "", false
		}
		if strings.Contains(g, libPath) {
			libBlocked = true
		}
		keep = append(keep, hexRe.ReplaceAllString(minsRe.ReplaceAllString(g, ""), ""))
	}
	return strings.Join(keep, "\n\n"), libBlocked
}

func startWatchdog() { wdOnce.Do(func() { go watchdog() }) }

func watchdog() {
	last := int64(-1)
	var cpu0 time.Duration
	same := 0
	prev := ""
	for {
		time.Sleep(time.Second)
		n := caseNo.Load()
		if n != last {
			last, cpu0, same, prev = n, cpuTime(), 0, ""
			continue
		}
		if d, ok := frozen(); ok && (prev == "" || d == prev) {
			prev = d
			same++
			if same >= 8 {
				abortViolation("deadlock: no goroutine can make progress\n" + d)
			}
		} else {
			same, prev = 0, ""
		}
		checkLeaving(n, cpuTime()-cpu0)
		if n > 0 && cpuTime()-cpu0 > 150*time.Second {
			abortViolation("one case used more than 150 s of CPU time without finishing (normal: milliseconds)\n" + Dump())
		}
	}
}

// Leaving is called before a case leaves its bubble although goroutines remain
// that may keep virtual time running forever; err is the violation to report in
// that event (nil: none for this property, the run ends as inconclusive).
// Leaving(nil) disarms.
func Leaving(err *error) {
	leaveNo.Store(caseNo.Load())
	leaving.Store(err)
}

var (
	leaving atomic.Pointer[error]
	leaveNo atomic.Int64
)

func checkLeaving(n int64, used time.Duration) {
	p := leaving.Load()
	if p == nil || leaveNo.Load() != n || used < 4*time.Second {
		return
	}
	if *p != nil {
		abortViolation((*p).Error())
	}
	fmt.Fprintln(out, "inconclusive: goroutines that never end keep virtual time running (see C16, C23)")
	os.Exit(5)
}

func abortViolation(msg string) {
	var b []byte
	if p := curCase.Load(); p != nil {
		b = *p
	}
	if b == nil {
		os.Exit(4)
	}
	if len(msg) > 20000 {
		msg = msg[:20000]
	}
	WriteFail(b, msg)
	flush()
	fmt.Fprintln(out, msg)
	os.Exit(3)
}

// LibGoroutines returns the stacks of goroutines that run or were started by
// library code (harness goroutines that merely call into it excluded by skip).
func LibGoroutines(skip ...string) []string {
	var out []string
next:
	for _, g := range strings.Split(Dump(), "\n\n") {
		if !strings.Contains(g, libPath) {
			continue
		}
		for _, s := range skip {
			if strings.Contains(g, s) {
				continue next
			}
		}
		out = append(out, g)
	}
	return out
}
