package tracker

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"net"
	"net/netip"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit"
	"github.com/anivanovic/gotit/pkg/peer"
	"go.uber.org/zap"
)

// uplan says how the server answers one announce.
type uplan struct {
	connect, announce []byte // the bytes sent; the transaction id is filled in when tidOK
	ctid, atid        bool
	cid               uint64
}

func u32(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func uplanOf(r *rand.Rand) (p uplan, wantAddrs []netip.AddrPort, ok bool, what string) {
	p.cid = r.Uint64()
	if r.Intn(4) == 0 {
		p.cid = []uint64{0, 1, 1<<64 - 1, 1 << 63}[r.Intn(4)]
	}
	p.connect = append(append(u32(0), u32(0)...), binary.BigEndian.AppendUint64(nil, p.cid)...)
	p.ctid, p.atid = true, true
	n := r.Intn(5)
	if r.Intn(8) == 0 {
		n = 74 + r.Intn(100)
	}
	p.announce = append(append(append(append(u32(1), u32(0)...), u32(uint32(r.Intn(3000)))...), u32(uint32(r.Intn(9)))...), u32(uint32(r.Intn(9)))...)
	for i := 0; i < n; i++ {
		a := [4]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(256))}
		port := uint16(r.Intn(65536))
		if r.Intn(6) == 0 {
			port = 0
		}
		p.announce = append(p.announce, a[:]...)
		p.announce = binary.BigEndian.AppendUint16(p.announce, port)
		wantAddrs = append(wantAddrs, netip.AddrPortFrom(netip.AddrFrom4(a), port))
	}
	for k := r.Intn(6); k > 0; k-- {
		p.announce = append(p.announce, byte(r.Intn(256)))
	}
	ok = true
	what = "good"
	switch r.Intn(14) {
	case 0:
		p.ctid, ok, what = false, false, "connect: wrong transaction"
	case 1:
		p.atid, ok, what = false, false, "announce: wrong transaction"
	case 2:
		binary.BigEndian.PutUint32(p.connect, []uint32{1, 2, 3, 7, 1 << 31, 256}[r.Intn(6)])
		ok, what = false, "connect: action"
	case 3:
		binary.BigEndian.PutUint32(p.announce, []uint32{0, 2, 3, 7, 1 << 31, 256, 1 << 24}[r.Intn(7)])
		ok, what = false, "announce: action"
	case 4:
		if r.Intn(4) == 0 {
			p.connect = p.connect[:r.Intn(16)]
			ok, what = false, "connect: short"
		}
	case 5, 6:
		p.announce = p.announce[:r.Intn(20)]
		ok, what = false, "announce: short"
	case 7:
		p.announce = append(append(u32(3), u32(0)...), []byte("no torrent")[:r.Intn(11)]...)
		ok, what = false, "announce: error"
	case 8:
		p.connect = append(append(u32(3), u32(0)...), []byte("go away!!")...)
		ok, what = false, "connect: error"
	case 9:
		// an old connect response where the announce response belongs
		p.announce = append([]byte(nil), p.connect...)
		for len(p.announce) < 20+r.Intn(20) {
			p.announce = append(p.announce, 0)
		}
		ok, what = false, "announce: a connect response"
	case 10:
		// an announce response where the connect response belongs
		p.connect = append([]byte(nil), p.announce...)
		for len(p.connect) < 16 {
			p.connect = append(p.connect, 0)
		}
		ok, what = false, "connect: an announce response"
	}
	return
}

// userve runs one udp tracker for the plans, one after another.
func userve(pc net.PacketConn, plans []uplan, r *rand.Rand, got *[][2][]byte) {
	buf := make([]byte, 4096)
	i := -1
	var tid []byte
	for {
		n, addr, err := pc.ReadFrom(buf)
		if err != nil {
			return
		}
		d := append([]byte(nil), buf[:n]...)
		out := []byte(nil)
		fill := func(b []byte, good bool) []byte {
			b = append([]byte(nil), b...)
			if len(d) >= 16 && len(b) >= 8 {
				copy(b[4:8], d[12:16])
				if !good {
					switch r.Intn(4) {
					case 0:
						copy(b[4:8], []byte{d[13], d[12] + 1, d[15], d[14]})
					case 1:
						b[4+r.Intn(4)] ^= byte(1 << r.Intn(8))
					case 2:
						if tid != nil && !bytes.Equal(tid, d[12:16]) {
							copy(b[4:8], tid) // the one of the request before
						} else {
							b[7]++
						}
					default:
						b[4]++
					}
				}
			}
			return b
		}
		if len(d) == 16 {
			i++
			if i >= len(plans) {
				return
			}
			*got = append(*got, [2][]byte{d, nil})
			out = fill(plans[i].connect, plans[i].ctid)
			tid = d[12:16]
		} else {
			if i < 0 || i >= len(plans) {
				return
			}
			(*got)[len(*got)-1][1] = d
			out = fill(plans[i].announce, plans[i].atid)
			if len(d) >= 16 {
				tid = d[12:16]
			}
		}
		pc.WriteTo(out, addr)
	}
}

func TestVerif_C19_udp_exchanges(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	var mu sync.Mutex
	var bad string
	sem := make(chan bool, 48)
	var wg sync.WaitGroup
	for c := 0; c < 300*vscale(); c++ {
		seed := r.Int63()
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			log, msg := udpCase(rand.New(rand.NewSource(seed)))
			mu.Lock()
			defer mu.Unlock()
			for _, l := range log {
				vc.add(l)
			}
			if msg != "" && bad == "" {
				bad = msg
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		vfail(t, "%s", bad)
	}
}

func udpCase(r *rand.Rand) (log []string, bad string) {
	pc, err := net.ListenPacket("udp", "127.0.0.1:0")
	if err != nil {
		return nil, ""
	}
	defer pc.Close()
	var plans []uplan
	type want struct {
		addrs []netip.AddrPort
		ok    bool
		what  string
	}
	var wants []want
	for k := 1 + r.Intn(3); k > 0; k-- {
		p, a, ok, what := uplanOf(r)
		plans = append(plans, p)
		wants = append(wants, want{a, ok, what})
		if !ok && what == "connect: short" {
			break // the rest of it may come with a later packet
		}
	}
	var got [][2][]byte
	done := make(chan bool)
	go func() { userve(pc, plans, rand.New(rand.NewSource(r.Int63())), &got); close(done) }()
	tr, err := New("udp://"+pc.LocalAddr().String(), zap.NewNop())
	if err != nil {
		return nil, fmt.Sprintf("New of a udp tracker: %v", err)
	}
	type result struct {
		addrs []netip.AddrPort
		err   error
		data  gotit.AnnounceData
		hash  string
	}
	var results []result
	for range plans {
		h := make([]byte, 20)
		r.Read(h)
		d := gotit.AnnounceData{Downloaded: r.Uint64(), Uploaded: r.Uint64(), Left: r.Uint64(), Port: 1 + r.Intn(65535)}
		if r.Intn(3) == 0 {
			d.Downloaded, d.Left = uint64(r.Intn(1000)), 0
		}
		a, err := tr.Announce(context.Background(), string(h), &d)
		results = append(results, result{a, err, d, string(h)})
	}
	tr.Close()
	pc.Close()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
	}
	for i, res := range results {
		w := wants[i]
		log = append(log, fmt.Sprintf("%s: connect %x announce %x", w.what, plans[i].connect, plans[i].announce))
		if isTimeout(res.err) && w.what != "connect: short" {
			return log, "" // a packet was late: what follows is no longer in step
		}
		if i >= len(got) {
			return log, fmt.Sprintf("announce %d sends no connect request of 16 bytes", i+1)
		}
		c := got[i][0]
		if !bytes.Equal(c[:12], []byte{0, 0, 4, 0x17, 0x27, 0x10, 0x19, 0x80, 0, 0, 0, 0}) {
			return log, fmt.Sprintf("connect request %x", c)
		}
		d := got[i][1]
		connected := w.ok || len(w.what) > 8 && w.what[:8] == "announce"
		if connected && d == nil {
			return log, fmt.Sprintf("no announce request after a good connect response %x; error %v", plans[i].connect, res.err)
		}
		if !connected && d != nil {
			return log, fmt.Sprintf("announce request sent after connect response (%s) %x", w.what, plans[i].connect)
		}
		if d != nil {
			if len(d) != 98 {
				return log, fmt.Sprintf("announce request of %d bytes", len(d))
			}
			b := binary.BigEndian
			if b.Uint64(d) != plans[i].cid || b.Uint32(d[8:]) != 1 || string(d[16:36]) != res.hash || string(d[36:56]) != string(peer.ClientId) ||
				b.Uint64(d[56:]) != res.data.Downloaded || b.Uint64(d[64:]) != res.data.Left || b.Uint64(d[72:]) != res.data.Uploaded || int(b.Uint16(d[96:])) != res.data.Port {
				return log, fmt.Sprintf("announce request %x for connection id %x, hash %x, %+v", d, plans[i].cid, res.hash, res.data)
			}
		}
		if w.ok && res.err != nil {
			return log, fmt.Sprintf("good responses %x %x: error %v", plans[i].connect, plans[i].announce, res.err)
		}
		if !w.ok && (res.err == nil || len(res.addrs) > 0) {
			return log, fmt.Sprintf("%s (connect %x, announce %x): error %v and %d peers", w.what, plans[i].connect, plans[i].announce, res.err, len(res.addrs))
		}
		if w.ok && fmt.Sprint(res.addrs) != fmt.Sprint(w.addrs) && len(res.addrs)+len(w.addrs) > 0 {
			return log, fmt.Sprintf("response %x gives peers %v, not %v", plans[i].announce, res.addrs, w.addrs)
		}
	}
	return log, ""
}

func isTimeout(err error) bool {
	e, ok := err.(net.Error)
	return ok && e.Timeout()
}
