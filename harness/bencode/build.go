package bencode

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"
)

// vel is an element as the reference parser reads it.
type vel struct {
	kind string // i, s, l, d
	i    *big.Int
	s    string
	l    []*vel
	d    map[string]*vel
	raw  string
}

// vparse is the reference parser: the element at p, or nil.
func vparse(b string, p, level int) (*vel, int) {
	if level > 1000 || p >= len(b) {
		return nil, -1
	}
	switch {
	case b[p] == 'i':
		e := strings.IndexByte(b[p:], 'e')
		if e < 0 {
			return nil, -1
		}
		s := b[p+1 : p+e]
		if d := strings.TrimPrefix(s, "-"); d == "" || strings.Trim(d, "0123456789") != "" {
			return nil, -1
		}
		n, ok := new(big.Int).SetString(s, 10)
		if !ok || !n.IsInt64() {
			return nil, -1
		}
		return &vel{kind: "i", i: n}, p + e + 1
	case b[p] >= '0' && b[p] <= '9':
		s, q := vstr(b, p)
		if q < 0 {
			return nil, -1
		}
		return &vel{kind: "s", s: s}, q
	case b[p] == 'l':
		v := &vel{kind: "l"}
		q := p + 1
		for q < len(b) && b[q] != 'e' {
			var e *vel
			if e, q = vparse(b, q, level+1); e == nil {
				return nil, -1
			}
			v.l = append(v.l, e)
		}
		if q >= len(b) {
			return nil, -1
		}
		v.raw = b[p : q+1]
		return v, q + 1
	case b[p] == 'd':
		v := &vel{kind: "d", d: map[string]*vel{}}
		q := p + 1
		for q < len(b) && b[q] != 'e' {
			k, r := vstr(b, q)
			if r < 0 {
				return nil, -1
			}
			var e *vel
			if e, q = vparse(b, r, level+1); e == nil {
				return nil, -1
			}
			v.d[k] = e
		}
		if q >= len(b) {
			return nil, -1
		}
		v.raw = b[p : q+1]
		return v, q + 1
	}
	return nil, -1
}

func vstr(b string, p int) (string, int) {
	q := p
	for q < len(b) && b[q] >= '0' && b[q] <= '9' {
		q++
	}
	if q == p || q >= len(b) || b[q] != ':' {
		return "", -1
	}
	n, _ := new(big.Int).SetString(b[p:q], 10)
	if n.Cmp(big.NewInt(int64(len(b)-q-1))) > 0 {
		return "", -1
	}
	e := q + 1 + int(n.Int64())
	return b[q+1 : e], e
}

// vsame says how an element differs from what the reference read.
func vsame(b Bencode, v *vel) string {
	switch v.kind {
	case "i":
		if x, ok := b.(IntElement); !ok || big.NewInt(int64(x)).Cmp(v.i) != 0 {
			return fmt.Sprintf("%T %v instead of the integer %v", b, b, v.i)
		}
	case "s":
		if x, ok := b.(StringElement); !ok || string(x) != v.s {
			return fmt.Sprintf("%T %q instead of the string %q", b, b, v.s)
		}
	case "l":
		x, ok := b.(*ListElement)
		if !ok || x == nil || len(x.Value) != len(v.l) {
			return fmt.Sprintf("%T %v instead of a list of %d", b, b, len(v.l))
		}
		if string(x.Raw()) != v.raw {
			return fmt.Sprintf("raw form %q of the list %q", x.Raw(), v.raw)
		}
		for i := range v.l {
			if s := vsame(x.Value[i], v.l[i]); s != "" {
				return fmt.Sprintf("item %d: %s", i, s)
			}
		}
	case "d":
		x, ok := b.(*DictElement)
		if !ok || x == nil {
			return fmt.Sprintf("%T %v instead of a dictionary", b, b)
		}
		if string(x.Raw()) != v.raw {
			return fmt.Sprintf("raw form %q of the dictionary %q", x.Raw(), v.raw)
		}
		if len(x.value) != len(v.d) {
			return fmt.Sprintf("dictionary with %d keys instead of %d", len(x.value), len(v.d))
		}
		for k, e := range v.d {
			if x.Value(k) == nil {
				return fmt.Sprintf("key %q is missing", k)
			}
			if s := vsame(x.Value(k), e); s != "" {
				return fmt.Sprintf("value of %q: %s", k, s)
			}
		}
	}
	return ""
}

var vnumbers = []string{"0", "1", "7", "10", "42", "007", "255", "256", "65536", "2147483647", "2147483648", "4294967296", "9007199254740993",
	"922337203685477580", "9223372036854775799", "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809", "9223372036854775810",
	"9999999999999999999", "10000000000000000000", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709551630", "27670116110564327424",
	"184467440737095516160", "00000000000000000000000000012", "340282366920938463463374607431768211456", "92233720368547758070", "92233720368547758080"}

func vnum(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		return vnumbers[r.Intn(len(vnumbers))]
	}
	n := 1 + r.Intn(22)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + r.Intn(10))
	}
	return string(b)
}

var vkeys = []string{"", "a", "b", "ab", "info", "a", "\x00", "10:e", "\xff"}

// vdoc writes a document, mostly well formed.
func vdoc(r *rand.Rand, depth int) string {
	str := func(s string) string {
		z := ""
		if r.Intn(12) == 0 {
			z = strings.Repeat("0", 1+r.Intn(25))
		}
		return fmt.Sprintf("%s%d:%s", z, len(s), s)
	}
	k := r.Intn(8)
	if depth <= 0 && k >= 4 {
		k -= 4
	}
	switch k {
	case 0, 1:
		sign := ""
		if r.Intn(3) == 0 {
			sign = "-"
		}
		if r.Intn(3) > 0 {
			return fmt.Sprintf("i%s%de", sign, r.Intn(300))
		}
		return "i" + sign + vnum(r) + "e"
	case 2, 3:
		s := make([]byte, []int{0, 1, 2, 5, 9, 10, 11, 100}[r.Intn(8)])
		for i := range s {
			s[i] = "lide:-0123456789ab\x00\xff"[r.Intn(20)]
		}
		return str(string(s))
	case 4, 5:
		s := "l"
		for i := r.Intn(5); i > 0; i-- {
			s += vdoc(r, depth-1)
		}
		return s + "e"
	}
	s := "d"
	for i := r.Intn(5); i > 0; i-- {
		s += str(vkeys[r.Intn(len(vkeys))]) + vdoc(r, depth-1)
	}
	return s + "e"
}

func vmutate(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(2); n > 0 && len(b) > 0; n-- {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b = append(b[:i], append([]byte{"lide:-0123456789a\x00"[r.Intn(19-1)]}, b[i:]...)...)
		case 2:
			b[i] = "lide:-0123456789a\x00"[r.Intn(18)]
		default:
			b = b[:i]
		}
	}
	return string(b)
}

func vsorted(m map[string]*vel) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
