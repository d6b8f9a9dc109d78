package codec

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"
	"testing"

	artnet "github.com/jsimonetti/go-artnet"
	"github.com/sirupsen/logrus"
	"pgregory.net/rapid"

	"verif/vlib"
)

// ---- C32: loggers ----------------------------------------------------------

// logOp derives a logger from logger From, or logs with it.
type logOp struct {
	Op     string            `json:"op"`
	From   int               `json:"from"`
	Fields map[string]string `json:"fields,omitempty"`
	Nil    bool              `json:"nil,omitempty"`
	Msg    string            `json:"msg,omitempty"`
	Edit   string            `json:"edit,omitempty"` // key changed in the given fields afterwards
}

type logCase struct {
	Default bool              `json:"default,omitempty"` // the default logger instead of a given one
	Base    map[string]string `json:"base,omitempty"`
	Level   int               `json:"level"`
	Ops     []logOp           `json:"ops"`
}

var logKeys = []string{"a", "b", "type", "ip", "err", "node", "k k", "x.y"}

func genLogFields(t *rapid.T, name string) map[string]string {
	m := map[string]string{}
	for i := roll(t, 4, name+" n"); i > 0; i-- {
		m[rapid.SampledFrom(logKeys).Draw(t, name+" key")] = rapid.StringMatching(`[a-z0-9 ]{0,6}`).Draw(t, name+" value")
	}
	return m
}

func genLog(t *rapid.T) logCase {
	c := logCase{Default: roll(t, 4, "default") == 0, Level: 2 + roll(t, 4, "level")}
	if !c.Default {
		c.Base = genLogFields(t, "base")
	}
	n := 1
	for i := rapid.IntRange(1, 14).Draw(t, "ops"); i > 0; i-- {
		op := logOp{Op: "log", From: roll(t, n, "from")}
		switch k := roll(t, 10, "op"); {
		case k < 5:
			op.Op = "with"
			op.Fields = genLogFields(t, "fields")
			op.Nil = len(op.Fields) == 0 && roll(t, 2, "nil") == 0
			if roll(t, 3, "edit") == 0 {
				op.Edit = rapid.SampledFrom(logKeys).Draw(t, "edit key")
			}
			n++
		default:
			op.Op = rapid.SampledFrom([]string{"print", "printf", "println", "debug", "warn", "error"}).Draw(t, "kind")
			op.Msg = rapid.StringMatching(`[a-z0-9 ]{0,12}`).Draw(t, "msg")
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

type logLine struct {
	Level  string
	Msg    string
	Fields map[string]string
}

// hookLog keeps every entry that is logged.
type hookLog struct{ got []logLine }

func (h *hookLog) Levels() []logrus.Level { return logrus.AllLevels }
func (h *hookLog) Fire(e *logrus.Entry) error {
	l := logLine{Level: e.Level.String(), Msg: e.Message, Fields: map[string]string{}}
	for k, v := range e.Data {
		l.Fields[k] = fmt.Sprint(v)
	}
	h.got = append(h.got, l)
	return nil
}

func execC32(_ *testing.T, c logCase) vlib.Result {
	r := vlib.Result{}
	type lg struct {
		l      artnet.Logger
		fields map[string]string
	}
	var want []logLine
	h := &hookLog{}
	var out bytes.Buffer
	lowest := logrus.Level(c.Level)
	var root artnet.Logger
	var pr, pw *os.File
	if c.Default {
		r.Labels = append(r.Labels, "default")
		lowest = logrus.DebugLevel
		var err error
		if pr, pw, err = os.Pipe(); err != nil {
			panic(err)
		}
		was := os.Stdout
		os.Stdout = pw
		root = artnet.NewDefaultLogger()
		os.Stdout = was
	} else {
		l := logrus.New()
		l.Out = &out
		l.Formatter = &logrus.JSONFormatter{DisableTimestamp: true, FieldMap: logrus.FieldMap{"msg": "@msg", "level": "@level"}}
		l.Level = lowest
		l.AddHook(h)
		f := logrus.Fields{}
		for k, v := range c.Base {
			f[k] = v
		}
		root = artnet.NewLogger(l.WithFields(f))
	}
	base := map[string]string{}
	for k, v := range c.Base {
		base[k] = v
	}
	logs := []lg{{root, base}}
	for _, op := range c.Ops {
		p := logs[op.From%len(logs)]
		if op.Op == "with" {
			given := artnet.Fields{}
			f := map[string]string{}
			for k, v := range p.fields {
				f[k] = v
			}
			for k, v := range op.Fields {
				given[k] = v
				f[k] = v
			}
			if op.Nil {
				given = nil
			}
			before := fmt.Sprint(given)
			d := p.l.With(given)
			if after := fmt.Sprint(given); after != before {
				return r.Fail("With changed the fields it was given from %s to %s", before, after)
			}
			if op.Edit != "" && given != nil {
				given[op.Edit] = "edited"
			}
			logs = append(logs, lg{d, f})
			r.NonTrivial = r.NonTrivial || op.From > 0
			continue
		}
		w := logLine{Msg: op.Msg, Fields: p.fields}
		d := p.l.With(nil)
		lvl := logrus.InfoLevel
		switch op.Op {
		case "print":
			p.l.Print(op.Msg)
		case "printf":
			p.l.Printf("%s!", op.Msg)
			w.Msg += "!"
		case "println":
			p.l.Println(op.Msg)
		case "debug":
			lvl = logrus.DebugLevel
			d.Debug(op.Msg)
		case "warn":
			lvl = logrus.WarnLevel
			d.Warn(op.Msg)
		case "error":
			lvl = logrus.ErrorLevel
			d.Error(op.Msg)
		}
		w.Level = lvl.String()
		if lvl <= lowest {
			want = append(want, w)
		}
		r.Labels = append(r.Labels, op.Op)
	}
	if c.Default {
		pw.Close()
		b, _ := io.ReadAll(pr)
		pr.Close()
		lines := strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
		if len(b) == 0 {
			lines = nil
		}
		if len(lines) != len(want) {
			return r.Fail("%d lines on standard output for %d messages: %q", len(lines), len(want), b)
		}
		for i, w := range want {
			if !strings.Contains(lines[i], "level="+w.Level) || !strings.Contains(lines[i], w.Msg) {
				return r.Fail("line %d of the default logger is %q, want level %s and message %q", i, lines[i], w.Level, w.Msg)
			}
			for k, v := range w.Fields {
				if !strings.Contains(lines[i], k+"="+v) && !strings.Contains(lines[i], fmt.Sprintf("%s=%q", k, v)) {
					return r.Fail("line %d of the default logger is %q, want field %s=%q", i, lines[i], k, v)
				}
			}
		}
		return r
	}
	if len(h.got) != len(want) {
		return r.Fail("%d entries were logged, want %d: %+v", len(h.got), len(want), h.got)
	}
	dec := json.NewDecoder(&out)
	for i, w := range want {
		if len(w.Fields) == 0 {
			w.Fields = map[string]string{}
		}
		if !reflect.DeepEqual(h.got[i], w) {
			return r.Fail("entry %d is %+v, want %+v", i, h.got[i], w)
		}
		var line map[string]string
		if err := dec.Decode(&line); err != nil {
			return r.Fail("entry %d was not written to the output of the given logger: %v", i, err)
		}
		if line["@msg"] != w.Msg || line["@level"] != w.Level {
			return r.Fail("output line %d is %v, want %+v", i, line, w)
		}
	}
	return r
}

func TestC32(t *testing.T) { vlib.Check(t, "C32", genLog, execC32) }
