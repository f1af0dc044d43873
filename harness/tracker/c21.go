package tracker

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"strconv"
	"testing"

	"github.com/anivanovic/gotit"
	"go.uber.org/zap"
)

func pstr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

func TestVerif_C21_addresses(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	body := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(body)) }))
	defer srv.Close()
	tr, err := New(srv.URL, zap.NewNop())
	if err != nil {
		vfail(t, "New: %v", err)
	}
	for c := 0; c < 1500*vscale(); c++ {
		var want []netip.AddrPort
		if r.Intn(2) == 0 {
			n := r.Intn(40)
			if r.Intn(10) == 0 {
				n = r.Intn(2000)
			}
			b := make([]byte, n)
			r.Read(b)
			if r.Intn(4) == 0 {
				for i := range b {
					b[i] = []byte{0, 1, 255, 127}[r.Intn(4)]
				}
			}
			body = "d5:peers" + pstr(string(b)) + "e"
			for i := 0; i+6 <= n; i += 6 {
				want = append(want, netip.AddrPortFrom(netip.AddrFrom4([4]byte(b[i:i+4])), uint16(b[i+4])<<8|uint16(b[i+5])))
			}
		} else {
			body = "d5:peersl"
			for k := r.Intn(6); k > 0; k-- {
				ip, port := peerIP(r), peerPort(r)
				_, isInt := port.(int)
				p := fmt.Sprint(port)
				e := pstr(p)
				if isInt {
					e = "i" + p + "e"
				}
				body += "d2:ip" + pstr(ip) + "4:port" + e + "e"
				a, err1 := netip.ParseAddr(ip)
				v, err2 := strconv.ParseUint(p, 10, 16)
				if err1 == nil && err2 == nil {
					want = append(want, netip.AddrPortFrom(a, uint16(v)))
				}
			}
			body += "ee"
		}
		vc.add(body)
		var got []netip.AddrPort
		var err error
		if msg := vpanic(func() {
			got, err = tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{})
		}); msg != "" {
			vfail(t, "response %q: %s", body, msg)
		}
		if err != nil {
			vfail(t, "response %q: error %v", body, err)
		}
		if len(got) != len(want) {
			vfail(t, "response %q gives %v, not %v", body, got, want)
		}
		for i := range got {
			if got[i] != want[i] {
				vfail(t, "response %q gives %v, not %v", body, got, want)
			}
		}
	}
}

func peerIP(r *rand.Rand) string {
	switch r.Intn(8) {
	case 0:
		return []string{"", "256.1.1.1", "1.2.3", "example.org", "1.2.3.4.5", " 1.2.3.4", "01.2.3.4", "::g", "[::1]"}[r.Intn(9)]
	case 1:
		return []string{"::1", "fe80::1", "2001:db8::7", "::ffff:1.2.3.4", "fe80::1%eth0"}[r.Intn(5)]
	case 2:
		return []string{"0.0.0.0", "255.255.255.255", "127.0.0.1"}[r.Intn(3)]
	}
	return fmt.Sprintf("%d.%d.%d.%d", r.Intn(256), r.Intn(256), r.Intn(256), r.Intn(256))
}

func peerPort(r *rand.Rand) any {
	switch r.Intn(6) {
	case 0:
		return []int{65535, 65536, -1, 0, 1, 1 << 17, 65536 + 80, 1<<32 + 80}[r.Intn(8)]
	case 1:
		return []string{"", "80", "http", "-80", "65535", "65536", "+80", "0x50", "080", "131152", "8_0"}[r.Intn(11)]
	}
	return r.Intn(65536)
}
