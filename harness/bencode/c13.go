package bencode

import (
	"fmt"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"github.com/anivanovic/gotit"
)

// c13run gives the bytes to every decoder of this package; each must come
// back, with a value or an error, before the deadline.
func c13run(t *testing.T, what string, data []byte) {
	type target struct {
		name string
		f    func() error
	}
	for _, x := range []target{
		{"Parse", func() error {
			b, err := Parse(data)
			if err == nil && b == nil {
				return fmt.Errorf("VERIF no element and no error")
			}
			return err
		}},
		{"Unmarshal into Metainfo", func() error {
			var m Metainfo
			if err := Unmarshal(data, &m); err != nil {
				return err
			}
			m.Hash()
			return nil
		}},
		{"Unmarshal into AnnounceResponse", func() error { return Unmarshal(data, &gotit.AnnounceResponse{}) }},
		{"Unmarshal into AnnouncePeers", func() error { return Unmarshal(data, &gotit.AnnouncePeers{}) }},
	} {
		done := make(chan string, 1)
		go func() {
			done <- vpanic(func() {
				if err := x.f(); err != nil && strings.HasPrefix(err.Error(), "VERIF") {
					panic(err.Error())
				}
			})
		}()
		select {
		case p := <-done:
			if p != "" {
				vfail(t, "%s of %s: %s", x.name, what, p)
			}
		case <-time.After(60 * time.Second):
			vfail(t, "%s of %s has not returned after a minute", x.name, what)
		}
	}
}

func q(d string) string { return fmt.Sprintf("%q", vshort(d)) }

func TestVerif_C13_documents(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 25000*vscale(); c++ {
		var d string
		switch r.Intn(5) {
		case 0, 1:
			d = vmeta(r)
		case 2:
			d = vpeers(r)
		case 3:
			d = vdoc(r, 3)
		default:
			b := make([]byte, r.Intn(12))
			for i := range b {
				b[i] = "lide:-0123456789a\x00\xff"[r.Intn(19)]
			}
			d = string(b)
		}
		if r.Intn(3) == 0 {
			d = vmutate(r, d)
		}
		if r.Intn(10) == 0 {
			d = vnum(r) + ":" + d
		}
		vc.add(d)
		c13run(t, q(d), []byte(d))
	}
}

// Every prefix of a real file, and every byte of it changed.
func TestVerif_C13_prefixes(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for n := 0; n < 12*vscale(); n++ {
		d := vmeta(r)
		if n%3 == 2 {
			d = vpeers(r)
		}
		for i := 0; i <= len(d); i++ {
			vc.add(d[:i])
			c13run(t, q(d[:i]), []byte(d[:i]))
			if i < len(d) {
				m := []byte(d)
				m[i] = "lide:-09\x00"[r.Intn(9)]
				c13run(t, q(string(m)), m)
			}
		}
	}
}

// Nesting and sizes no stack and no quadratic algorithm survives.
func TestVerif_C13_large(t *testing.T) {
	vc := newVCases(t)
	debug.SetMaxStack(64 << 20)
	rep := strings.Repeat
	n := 3000000
	long := "l" + rep("i0e", n) + "e"
	dict := "d" + rep("1:ai0e", n/2) + "e"
	for _, x := range []struct{ what, d string }{
		{"unclosed lists", rep("l", n)},
		{"unclosed dictionaries", rep("d0:", n)},
		{"unclosed pairs", rep("d1:al", n)},
		{"nested lists", rep("l", n) + rep("e", n)},
		{"nested dictionaries", rep("d1:k", n) + "i1e" + rep("e", n)},
		{"999 nested lists", rep(rep("l", 999)+rep("e", 999), 50)},
		{"many digits", "i" + rep("9", n) + "e"},
		{"many zeros", rep("0", n) + ":"},
		{"long list", long},
		{"long dictionary", dict},
		{"long list of lists", "l" + rep("le", n) + "e"},
		{"long string", fmt.Sprintf("%d:%s", n, rep("x", n))},
		{"list for the name", "d8:announce0:4:infod4:name" + long + "12:piece lengthi1e6:pieces0:ee"},
		{"list for a number", "d8:announce0:4:infod4:name0:12:piece length" + long + "6:pieces0:ee"},
		{"list for the announce url", "d8:announce" + long + "e"},
		{"dictionary for the announce url", "d8:announce" + "d" + keys(200000) + "ee"},
		{"deep list for the announce url", "d8:announce" + rep("l", 990) + rep("i0e", 100000) + rep("e", 990) + "e"},
		{"list for the failure", "d14:failure reason" + long + "5:peers0:e"},
		{"list for the interval", "d8:interval" + long + "5:peers0:e"},
		{"list for the ipv6 peers", "d6:peers6" + long + "5:peers0:e"},
		{"many peers", "d5:peersl" + rep("d2:ip9:127.0.0.14:porti80ee", n/20) + "ee"},
		{"many peers without port", "d5:peersl" + rep("d2:ip9:127.0.0.1e", n/20) + "ee"},
		{"list for the ip", "d5:peersld2:ip" + long + "4:porti80eeee"},
		{"many files", "d8:announce0:4:infod5:filesl" + rep("d6:lengthi1e4:pathl1:aee", n/20) + "e4:name0:12:piece lengthi1e6:pieces0:ee"},
		{"long announce list", "d8:announce0:13:announce-list" + "l" + rep("l1:ae", n/10) + "e4:infod4:name0:12:piece lengthi1e6:pieces0:ee"},
	} {
		vc.add(x.what)
		c13run(t, x.what, []byte(x.d))
	}
}

func keys(n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "8:%08di0e", i)
	}
	return b.String()
}
