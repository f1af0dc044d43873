package tracker

import (
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit"
	"go.uber.org/zap"
)

func c13body(r *rand.Rand) string {
	str := func(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }
	val := func() string {
		return []string{"i0e", "i-1e", "i1e", "i9223372036854775807e", "i-9223372036854775808e", "i9223372036854775808e", "i65536e", "le", "de", "0:", "1:x", "5:peers", "l0:e", "li1ee", "lle", "lde", "ldee", "d2:ip0:e", "", "e", "i", "99:x"}[r.Intn(22)]
	}
	any := func(s string) string {
		if r.Intn(6) == 0 {
			return val()
		}
		return s
	}
	switch r.Intn(8) {
	case 0:
		b := make([]byte, r.Intn(30))
		for i := range b {
			b[i] = "lide:-0123456789\x00"[r.Intn(17)]
		}
		return string(b)
	case 1:
		return val()
	}
	d := "d"
	if r.Intn(6) == 0 {
		d += str("failure reason") + any(str("gone"))
	}
	if r.Intn(2) == 0 {
		d += str("interval") + any(fmt.Sprintf("i%de", r.Int63()-r.Int63()))
	}
	if r.Intn(3) == 0 {
		d += str("peers6") + any(str(strings.Repeat("z", r.Intn(40))))
	}
	switch r.Intn(3) {
	case 0, 1:
		n := r.Intn(45)
		b := make([]byte, n)
		r.Read(b)
		d += str("peers") + any(str(string(b)))
	default:
		p := "l"
		for i := r.Intn(4); i > 0; i-- {
			ip := []string{"127.0.0.1", "::1", "", "256.1.1.1", "fe80::1%eth0", "1.2.3", "host.invalid", "\x00", "::ffff:1.2.3.4", strings.Repeat("1", 100)}[r.Intn(10)]
			port := []string{"i80e", "i0e", "i-1e", "i65535e", "i65536e", "i9223372036854775807e", "2:80", "0:", "4:port", "3:-80"}[r.Intn(10)]
			e := ""
			if r.Intn(8) > 0 {
				e += str("ip") + any(str(ip))
			}
			if r.Intn(8) > 0 {
				e += str("port") + any(port)
			}
			p += any("d" + e + "e")
		}
		d += str("peers") + any(p+"e")
	}
	return d + "e"
}

func c13announce(tr gotit.Tracker, what string) (msg string) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- fmt.Sprint("panic: ", p)
			}
		}()
		tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{Port: 1})
		done <- ""
	}()
	select {
	case p := <-done:
		if p != "" {
			return fmt.Sprintf("announce answered with %s: %s", what, p)
		}
	case <-time.After(60 * time.Second):
		return fmt.Sprintf("announce answered with %s has not returned after a minute", what)
	}
	return ""
}

func TestVerif_C13_http(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	var body string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		w.Write([]byte(body))
	}))
	defer srv.Close()
	for c := 0; c < 3000*vscale(); c++ {
		tr, err := New(srv.URL+"/announce", zap.NewNop())
		if err != nil {
			t.Skip(err)
		}
		body = c13body(r)
		if c < 4 {
			body = []string{strings.Repeat("l", 2000000), strings.Repeat("d0:", 1000000), "d14:failure reason" + "l" + strings.Repeat("i0e", 1000000) + "e5:peers0:e", "d5:peersl" + strings.Repeat("d2:ip1:x4:port1:ye", 20000) + "ee"}[c]
		}
		if r.Intn(5) == 0 && len(body) > 0 {
			body = body[:r.Intn(len(body))]
		}
		vc.add(body)
		if m := c13announce(tr, fmt.Sprintf("%q", vshort(body))); m != "" {
			vfail(t, "%s", m)
		}
		tr.Close()
	}
}

// Any packets, at every length, with the right action and transaction more
// often than not.
func TestVerif_C13_udp(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	var mu sync.Mutex
	bad := ""
	var wg sync.WaitGroup
	sem := make(chan bool, 48)
	for c := 0; c < 700*vscale(); c++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		n := c % 120
		short := c%240 < 16
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			log, m := c13udp(rr, n, short)
			mu.Lock()
			defer mu.Unlock()
			vc.add(log)
			if m != "" && bad == "" {
				bad = m
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		vfail(t, "%s", bad)
	}
}

func c13udp(r *rand.Rand, n int, short bool) (log, msg string) {
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		return "", ""
	}
	defer pc.Close()
	con := make([]byte, 16+r.Intn(8))
	if short {
		con = make([]byte, n)
	}
	ann := make([]byte, n)
	r.Read(con)
	r.Read(ann)
	fill := func(b, req []byte, action uint32) []byte {
		if r.Intn(8) == 0 {
			action = uint32(r.Intn(5))
		}
		if r.Intn(8) == 0 {
			action = 3
		}
		var h [8]byte
		binary.BigEndian.PutUint32(h[:], action)
		copy(h[4:], req[12:16])
		copy(b, h[:])
		return b
	}
	go func() {
		buf := make([]byte, 4096)
		for {
			k, a, err := pc.ReadFrom(buf)
			if err != nil {
				return
			}
			if k < 16 {
				continue
			}
			if k == 16 {
				pc.WriteTo(fill(con, buf, 0), a)
			} else {
				pc.WriteTo(fill(ann, buf, 1), a)
			}
		}
	}()
	log = fmt.Sprintf("connect %x announce %x", con, ann)
	tr, err := New("udp://"+pc.LocalAddr().String(), zap.NewNop())
	if err != nil {
		return log, ""
	}
	defer tr.Close()
	msg = c13announce(tr, "packets "+log+" (action and transaction filled in)")
	return
}
