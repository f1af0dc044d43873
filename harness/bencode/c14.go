package bencode

import (
	"fmt"
	"strings"
	"testing"
)

func c14check(t *testing.T, doc string) {
	want, _ := vparse(doc, 0, 1)
	var b Bencode
	var err error
	if p := vpanic(func() { b, err = Parse([]byte(doc)) }); p != "" {
		vfail(t, "Parse(%q): %s", vshort(doc), p)
	}
	if (err == nil) != (want != nil) {
		vfail(t, "Parse(%q): error %v, but well formed: %v", vshort(doc), err, want != nil)
	}
	if want != nil {
		if s := vsame(b, want); s != "" {
			vfail(t, "Parse(%q): %s", vshort(doc), vshort(s))
		}
	}
}

// Every string over the bytes that matter, up to a length.
func TestVerif_C14_exhaustive(t *testing.T) {
	vc := newVCases(t)
	const alpha = "lide:-012a"
	n := 5
	if vscale() > 1 {
		n = 7
	}
	var walk func(s string)
	walk = func(s string) {
		vc.add(s)
		c14check(t, s)
		if len(s) < n {
			for i := range alpha {
				walk(s + alpha[i:i+1])
			}
		}
	}
	walk("")
}

func TestVerif_C14_documents(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 60000*vscale(); c++ {
		d := vdoc(r, 1+r.Intn(4))
		switch r.Intn(4) {
		case 0:
			d = vmutate(r, d)
		case 1:
			d += vdoc(r, 1)
		}
		vc.add(d)
		c14check(t, d)
	}
}

func TestVerif_C14_numbers(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 20000*vscale(); c++ {
		n := vnum(r)
		if c < len(vnumbers) {
			n = vnumbers[c]
		}
		for _, d := range []string{"i" + n + "e", "i-" + n + "e", "i" + n, "i--" + n + "e", n + ":", n + ":" + strings.Repeat("x", 300), "l" + n + ":e", "d" + n + ":e", "i" + n + "-e", "i+" + n + "e"} {
			vc.add(d)
			c14check(t, d)
		}
	}
}

func TestVerif_C14_nesting(t *testing.T) {
	vc := newVCases(t)
	for _, n := range []int{1, 2, 3, 9, 10, 11, 99, 100, 101, 255, 256, 257, 499, 500, 501, 511, 512, 513, 997, 998, 999, 1000, 1001, 1002, 1003, 2000, 2001, 100000, 1000000} {
		for _, open := range []string{"l", "d0:", "ld1:a"} {
			for _, in := range []string{"", "i5e", "1:x", "le", "de", "li1ei2ee", "d1:ki1ee"} {
				if open != "l" && in == "" {
					continue
				}
				cl := "e"
				if open == "ld1:a" {
					cl = "ee"
				}
				d := strings.Repeat(open, n) + in + strings.Repeat(cl, n)
				vc.add(fmt.Sprint(n, open, in))
				c14check(t, d)
				// siblings do not add up to depth
				if n < 1100 {
					c14check(t, "l"+d+d+"e")
					c14check(t, "l"+strings.Repeat("le", n)+"e")
				}
			}
		}
	}
}
