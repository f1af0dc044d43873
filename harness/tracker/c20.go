package tracker

import (
	"context"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"go.uber.org/zap"
)

func bstr(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }

// hbody is a response; what tells whether the announce may succeed.
func hbody(r *rand.Rand) (status int, body string, ok bool, interval int) {
	status, ok = 200, true
	interval = -1
	m := map[string]string{}
	if r.Intn(4) != 0 {
		interval = []int{0, 1, 2, 600, 1800, -5, 1 << 31, 1 << 40, 1 << 62, -1 << 63}[r.Intn(10)]
		m["interval"] = fmt.Sprintf("i%de", interval)
	}
	switch r.Intn(4) {
	case 0:
		m["peers"] = "le"
	case 1:
		m["peers"] = "ld2:ip9:127.0.0.14:porti80eee"
	default:
		m["peers"] = bstr(string([]byte{1, 2, 3, 4, 5, 6})[:6*r.Intn(2)])
	}
	switch r.Intn(10) {
	case 0:
		delete(m, "peers")
		ok = false
	case 1:
		m["peers"] = []string{"i5e", "de"}[r.Intn(2)]
		ok = false
	case 2, 3:
		m["failure reason"] = bstr([]string{"gone", "x", "no such torrent"}[r.Intn(3)])
		ok = false
	case 4, 5:
		status = []int{404, 500, 201, 204, 206, 400, 503, 299}[r.Intn(8)]
		ok = false
	}
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	}
	body = "d"
	for _, k := range keys {
		body += bstr(k) + m[k]
	}
	body += "e"
	if r.Intn(25) == 0 {
		body, ok = []string{"", "i5e", "le", "d", body[:len(body)-1], "4:peer"}[r.Intn(6)], false
		interval = -1
	}
	return
}

func TestVerif_C20_http_exchanges(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	var status int
	var body string
	var req *http.Request
	n := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		req, n = q, n+1
		w.WriteHeader(status)
		if status != 204 {
			w.Write([]byte(body))
		}
	}))
	defer srv.Close()
	paths := []string{"/announce", "/announce?key=abc", "/a/b?x=1&y=%20", "/"}
	for c := 0; c < 500*vscale(); c++ {
		addr := srv.URL + paths[r.Intn(len(paths))]
		tr, err := New(addr, zap.NewNop())
		if err != nil {
			vfail(t, "New(%q): %v", addr, err)
		}
		last := -1
		for k := 1 + r.Intn(3); k > 0; k-- {
			var ok bool
			var interval int
			status, body, ok, interval = hbody(r)
			h := make([]byte, 20)
			r.Read(h)
			if r.Intn(3) == 0 {
				copy(h, "& =?%+#\x00\xff")
			}
			d := gotit.AnnounceData{Downloaded: r.Uint64() >> uint(r.Intn(64)), Uploaded: r.Uint64() >> uint(r.Intn(64)), Left: r.Uint64() >> uint(r.Intn(64)), Port: 1 + r.Intn(65535)}
			vc.add(fmt.Sprintf("%s %d %q", addr[len(srv.URL):], status, body))
			n = 0
			addrs, err := tr.Announce(context.Background(), string(h), &d)
			if n != 1 {
				vfail(t, "%d requests for one announce", n)
			}
			q := req.URL.Query()
			for k, v := range map[string]string{"info_hash": string(h), "peer_id": string(peer.ClientId), "port": fmt.Sprint(d.Port), "downloaded": fmt.Sprint(d.Downloaded), "uploaded": fmt.Sprint(d.Uploaded), "left": fmt.Sprint(d.Left), "compact": "1"} {
				if len(q[k]) != 1 || q[k][0] != v {
					vfail(t, "announce of hash %x %+v: %s is %q", h, d, k, q[k])
				}
			}
			if req.Method != "GET" || !strings.HasPrefix(addr[len(srv.URL):], req.URL.Path) {
				vfail(t, "%s %s for tracker %s", req.Method, req.URL, addr)
			}
			if strings.Contains(addr, "key=abc") && q.Get("key") != "abc" || strings.Contains(addr, "y=%20") && (q.Get("y") != " " || q.Get("x") != "1") {
				vfail(t, "the query of tracker address %s is lost in %s", addr, req.URL)
			}
			if ok && err != nil {
				vfail(t, "response %q: error %v", body, err)
			}
			if !ok && err == nil {
				vfail(t, "response %d %q: %d peers and no error", status, body, len(addrs))
			}
			if ok && interval > 0 && interval < 1<<31 {
				last = interval
			}
		}
		// no response makes the client announce without a pause
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Millisecond)
		if last != 1 || c%40 != 0 {
			if tr.WaitInterval(ctx) == nil {
				vfail(t, "after response %q the wait of the tracker ends at once", body)
			}
		}
		cancel()
		tr.Close()
	}
}

// The wait is the one the tracker sent last.
func TestVerif_C20_interval(t *testing.T) {
	vc := newVCases(t)
	body := ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(body)) }))
	defer srv.Close()
	type tc struct {
		bodies []string
		one    bool
	}
	cases := []tc{
		{[]string{"d8:intervali1e5:peers0:e"}, true},
		{[]string{"d8:intervali1e5:peers0:e", "d5:peers0:e"}, true},
		{[]string{"d8:intervali1e5:peers0:e", "d8:intervali0e5:peers0:e"}, true},
		{[]string{"d8:intervali1e5:peers0:e", "d8:intervali-7e5:peers0:e"}, true},
		{[]string{"d8:intervali1e5:peers0:e", "d8:intervali9223372036854775807e5:peers0:e"}, true},
		{[]string{"d8:intervali1e5:peers0:e", "d8:intervali500e5:peers0:e"}, false},
		{[]string{"d5:peers0:e"}, false},
		{[]string{"d8:intervali0e5:peers0:e"}, false},
		{[]string{"d8:intervali1800e5:peers0:e"}, false},
	}
	type run struct {
		c tc
		d time.Duration
		e error
	}
	ch := make(chan run)
	for _, c := range cases {
		tr, err := New(srv.URL, zap.NewNop())
		if err != nil {
			vfail(t, "New: %v", err)
		}
		for _, body = range c.bodies {
			tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{})
		}
		vc.add(fmt.Sprint(c.bodies))
		go func() {
			ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
			defer cancel()
			t0 := time.Now()
			err := tr.WaitInterval(ctx)
			ch <- run{c, time.Since(t0), err}
		}()
	}
	for range cases {
		x := <-ch
		if x.c.one && (x.e != nil || x.d < 900*time.Millisecond) {
			vfail(t, "after responses %q the wait is %v (%v), not 1 s", x.c.bodies, x.d, x.e)
		}
		if !x.c.one && x.e == nil {
			vfail(t, "after responses %q the wait ends after %v", x.c.bodies, x.d)
		}
	}
}
