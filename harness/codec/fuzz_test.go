package codec

import (
	"testing"

	"verif/ref"
)

// Coverage-guided targets of the thorough tier; the oracle is the one of the
// generated checks.

func seedFuzz(f *testing.F) {
	for i := range ref.Layouts {
		l := &ref.Layouts[i]
		b := l.Encode(ref.Values{}, true)
		f.Add(b, byte(0), []byte{})
		f.Add(b, byte(i+1), b)
		f.Add(b[:len(b)-1], byte(i+1), b)
	}
	f.Add([]byte{}, byte(0), []byte{})
}

func fuzzCase(b []byte, as byte, prior []byte) decCase {
	c := decCase{Frame: b, Prior: prior}
	if k := int(as) % (len(ref.Layouts) + 1); k > 0 {
		c.As = ref.Layouts[k-1].Name
	}
	return c
}

func FuzzC03(f *testing.F) {
	seedFuzz(f)
	f.Fuzz(func(t *testing.T, b []byte, as byte, prior []byte) {
		if r := execC03(t, fuzzCase(b, as, prior)); r.Err != nil {
			t.Fatal(r.Err)
		}
	})
}

func FuzzC04(f *testing.F) {
	seedFuzz(f)
	f.Fuzz(func(t *testing.T, b []byte, as byte, prior []byte) {
		if r := execC04(t, fuzzCase(b, as, nil)); r.Err != nil {
			t.Fatal(r.Err)
		}
	})
}
