// Package dict offers the constants that the source tree gained since the
// harness was written, as hints for the generators (the dictionary of a
// fuzzer). It is empty for the unchanged tree. It decides nothing: it only
// moves generated values towards places where behaviour may have changed.
package dict

import (
	"encoding/json"
	"os"
	"slices"

	"pgregory.net/rapid"
)

var (
	ints []int
	strs []string
)

func init() {
	s := os.Getenv("VERIF_DICT")
	if s == "" {
		return
	}
	var d struct {
		Ints []int64  `json:"ints"`
		Strs []string `json:"strs"`
	}
	if json.Unmarshal([]byte(s), &d) != nil {
		return
	}
	for _, x := range d.Ints {
		ints = append(ints, int(x))
	}
	strs = d.Strs
}

// Ints are the hints in a range, each with its neighbours.
func Ints(lo, hi int) []int {
	var r []int
	for _, x := range ints {
		for _, y := range []int{x, x - 1, x + 1} {
			if y >= lo && y <= hi && !slices.Contains(r, y) {
				r = append(r, y)
			}
		}
	}
	return r
}

// Int draws a hint in a range, one time in four.
func Int(t *rapid.T, lo, hi int, label string) (int, bool) {
	c := Ints(lo, hi)
	if len(c) == 0 || rapid.IntRange(0, 3).Draw(t, label+".dict") != 3 {
		return 0, false
	}
	return rapid.SampledFrom(c).Draw(t, label+".hint"), true
}

// Pick draws one of the values, or a hint up to hi.
func Pick(t *rapid.T, vals []int, hi int, label string) int {
	if x, ok := Int(t, slices.Min(vals), hi, label); ok {
		return x
	}
	return rapid.SampledFrom(vals).Draw(t, label)
}

// Byte draws a byte from the generator, or a hint.
func Byte(t *rapid.T, g *rapid.Generator[byte], label string) byte {
	if x, ok := Int(t, 0, 255, label); ok {
		return byte(x)
	}
	return g.Draw(t, label)
}

// Us draws a duration in microseconds made of a hint in some unit.
func Us(t *rapid.T, hi int, label string) (int, bool) {
	var c []int
	for _, x := range ints {
		for _, u := range []int{1, 1000, 1000000, 60000000} {
			if x <= 0 || x > hi/u+1 {
				continue
			}
			for _, d := range []int{0, -1, 1, u / 2, u} {
				if y := x*u + d; y > 0 && y <= hi && !slices.Contains(c, y) {
					c = append(c, y)
				}
			}
		}
	}
	if len(c) == 0 || rapid.IntRange(0, 3).Draw(t, label+".dict") != 3 {
		return 0, false
	}
	return rapid.SampledFrom(c).Draw(t, label+".hint"), true
}

// PickUs draws one of the durations, or a hint up to hi.
func PickUs(t *rapid.T, vals []int, hi int, label string) int {
	if x, ok := Us(t, hi, label); ok {
		return x
	}
	return rapid.SampledFrom(vals).Draw(t, label)
}

// Edit puts hints into a byte string: a byte, a 16-bit word in either order,
// or a text, at a place that may be a hint as well.
func Edit(t *rapid.T, b []byte, label string) {
	if len(b) == 0 || len(ints)+len(strs) == 0 || rapid.IntRange(0, 1).Draw(t, label+".dict") == 0 {
		return
	}
	for k := rapid.IntRange(1, 3).Draw(t, label+".hints"); k > 0; k-- {
		at, ok := Int(t, 0, len(b)-1, label+".hat")
		if !ok {
			at = rapid.OneOf(rapid.IntRange(0, len(b)-1), rapid.IntRange(0, min(len(b)-1, 3))).Draw(t, label+".at")
		}
		n := len(ints) + len(strs)
		i := rapid.IntRange(0, n-1).Draw(t, label+".which")
		if i >= len(ints) {
			copy(b[at:], strs[i-len(ints)])
			continue
		}
		x := ints[i]
		switch {
		case x >= 0 && x <= 255:
			b[at] = byte(x)
		case rapid.Bool().Draw(t, label+".order"):
			copy(b[at:], []byte{byte(x >> 8), byte(x)})
		default:
			copy(b[at:], []byte{byte(x), byte(x >> 8)})
		}
	}
}
