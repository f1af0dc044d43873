package bencode

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"testing"
)

// vtree builds an element together with its encoding; full: no absent entries.
func vtree(r *rand.Rand, depth int, full bool) (Bencode, string) {
	k := r.Intn(8)
	if depth <= 0 && k >= 4 {
		k -= 4
	}
	switch k {
	case 0, 1:
		n := r.Intn(300) - 100
		if r.Intn(3) == 0 {
			n = []int{0, 1, -1, 9, 10, 255, 1 << 31, -1 << 31, 1<<63 - 1, -1 << 63, 1<<63 - 10, 1 << 62}[r.Intn(12)]
		}
		return Integer(n), fmt.Sprintf("i%de", n)
	case 2, 3:
		s := make([]byte, []int{0, 1, 2, 9, 10, 11, 99, 100, 300}[r.Intn(9)])
		for i := range s {
			s[i] = byte(r.Intn(256))
		}
		return String(string(s)), fmt.Sprintf("%d:%s", len(s), s)
	case 4, 5:
		var v []Bencode
		s := "l"
		for i := r.Intn(6); i > 0; i-- {
			if !full && r.Intn(4) == 0 {
				v = append(v, nil)
				continue
			}
			b, x := vtree(r, depth-1, full)
			v = append(v, b)
			s += x
		}
		if r.Intn(2) == 0 {
			return &ListElement{Value: v}, s + "e"
		}
		return List(v...), s + "e"
	}
	m := map[string]string{}
	d := NewDictBuilder()
	for i := r.Intn(9); i > 0; i-- {
		key := vkeys[r.Intn(len(vkeys))]
		if r.Intn(3) == 0 {
			b := make([]byte, r.Intn(4))
			for i := range b {
				b[i] = byte(r.Intn(256))
			}
			key = string(b)
		}
		if r.Intn(6) == 0 {
			// long keys, one the start of another or not
			b := make([]byte, []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000}[r.Intn(19)])
			f := "ab\xff\x00"[r.Intn(4)]
			for i := range b {
				b[i] = f
			}
			b[r.Intn(len(b))] = byte(r.Intn(256))
			key = string(b)
		}
		if !full && r.Intn(4) == 0 {
			d.Add(key, nil)
			delete(m, key)
			continue
		}
		b, x := vtree(r, depth-1, full)
		d.Add(key, b)
		m[key] = fmt.Sprintf("%d:%s%s", len(key), key, x)
	}
	var ks [][]byte
	for k := range m {
		ks = append(ks, []byte(k))
	}
	sort.Slice(ks, func(i, j int) bool { return bytes.Compare(ks[i], ks[j]) < 0 })
	s := "d"
	for _, k := range ks {
		s += m[string(k)]
	}
	g := d.Generate()
	if e, ok := g.(DictElement); ok && r.Intn(2) == 0 {
		return &e, s + "e"
	}
	return g, s + "e"
}

// vequal compares an element with a parsed one.
func vequal(a, b Bencode) bool {
	switch x := a.(type) {
	case *ListElement:
		a = *x
	case *DictElement:
		a = *x
	}
	switch x := b.(type) {
	case *ListElement:
		b = *x
	case *DictElement:
		b = *x
	}
	switch x := a.(type) {
	case ListElement:
		y, ok := b.(ListElement)
		if !ok || len(x.Value) != len(y.Value) {
			return false
		}
		for i := range x.Value {
			if !vequal(x.Value[i], y.Value[i]) {
				return false
			}
		}
		return true
	case DictElement:
		y, ok := b.(DictElement)
		if !ok || len(x.value) != len(y.value) {
			return false
		}
		for k, v := range x.value {
			if w, ok := y.value[k]; !ok || !vequal(v, w) {
				return false
			}
		}
		return true
	}
	return a == b
}

func TestVerif_C15_encode(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 20000*vscale(); c++ {
		full := c%2 == 0
		e, want := vtree(r, 1+r.Intn(4), full)
		vc.add(want)
		for k := 0; k < 3; k++ {
			var got string
			if p := vpanic(func() { got = e.Encode() }); p != "" {
				vfail(t, "encoding %q: %s", vshort(want), p)
			}
			if got != want {
				vfail(t, "encoded as %q instead of %q", vshort(got), vshort(want))
			}
		}
		if !full {
			continue
		}
		b, err := Parse([]byte(want))
		if err != nil {
			vfail(t, "the encoding %q is not parsed: %v", vshort(want), err)
		}
		if !vequal(e, b) {
			vfail(t, "the encoding %q is parsed as a different element", vshort(want))
		}
		if x, ok := b.(interface{ Raw() []byte }); ok {
			switch b.(type) {
			case *ListElement, *DictElement:
				if string(x.Raw()) != want {
					vfail(t, "raw form %q of %q", vshort(string(x.Raw())), vshort(want))
				}
			}
		}
		if again := b.Encode(); again != want {
			vfail(t, "%q parsed and encoded again is %q", vshort(want), vshort(again))
		}
	}
}

// Nesting up to the deepest that is parsed.
func TestVerif_C15_deep(t *testing.T) {
	vc := newVCases(t)
	for _, n := range []int{1, 2, 50, 999} {
		for k := 0; k < 2; k++ {
			var e Bencode = Integer(7)
			for i := 0; i < n; i++ {
				if (i+k)%2 == 0 {
					e = List(e)
				} else {
					e = NewDictBuilder().Add("k", e).Generate()
				}
			}
			vc.add(fmt.Sprint(n, k))
			b, err := Parse([]byte(e.Encode()))
			if err != nil || !vequal(e, b) {
				vfail(t, "element nested %d deep: error %v or not the same after encoding and parsing", n, err)
			}
		}
	}
}
