package download

import (
	"context"
	"fmt"
	"net"
	"net/netip"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"
)

func maddr(k int) netip.AddrPort {
	if k%7 == 6 {
		return netip.MustParseAddrPort(fmt.Sprintf("[2001:db8::%x]:%d", k%5, 1000+k/35))
	}
	return netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 0, byte(k % 3), 1}), uint16(1000+k/3))
}

// started gives the manager a download that ended, so that Stop may be called.
func started(t *testing.T, m *Manager) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	done := make(chan bool)
	go func() { m.Download(ctx); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		vfail(t, "Download with a cancelled context does not return")
	}
}

func TestVerif_C23_sequences(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	tor, _ := mtorrent(t, r, 3)
	for c := 0; c < 300*vscale(); c++ {
		limit := r.Intn(8)
		if r.Intn(10) == 0 {
			limit = 40
		}
		m := NewMng(tor, zap.NewNop(), limit, 6881)
		in := map[netip.AddrPort]bool{}
		stopped := false
		log := fmt.Sprintf("limit %d:", limit)
		stop := -1
		if c%10 == 0 {
			started(t, m)
			stop = r.Intn(40)
		}
		for k := 0; k < 40; k++ {
			if k == stop || stopped && r.Intn(5) == 0 {
				m.Stop()
				stopped = true
				log += " stop"
				continue
			}
			a := maddr(r.Intn(2 + 2*limit))
			log += " " + a.String()
			want := !stopped && !in[a] && len(in) < limit
			if got := m.AddPeer(mpeer(tor, a)); got != want {
				vfail(t, "%s: AddPeer says %v, not %v", log, got, want)
			}
			if want {
				in[a] = true
			}
			if n := m.torrentStatus.PeerNum(); int(n) != len(in) {
				vfail(t, "%s: %d peers reported, %d in the pool", log, n, len(in))
			}
		}
		vc.add(log)
	}
}

func TestVerif_C23_concurrent(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	tor, _ := mtorrent(t, r, 3)
	for c := 0; c < 150*vscale(); c++ {
		limit := r.Intn(12)
		m := NewMng(tor, zap.NewNop(), limit, 6881)
		stop := c%6 == 0
		if stop {
			started(t, m)
		}
		n := 1 + r.Intn(20)
		var mu sync.Mutex
		acc := map[netip.AddrPort]int{}
		var wg sync.WaitGroup
		start := make(chan bool)
		late := 0
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < n; k++ {
					a := maddr(k)
					if m.AddPeer(mpeer(tor, a)) {
						mu.Lock()
						acc[a]++
						mu.Unlock()
					}
				}
			}()
		}
		if stop {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				m.Stop()
				for k := 0; k < 30; k++ {
					if m.AddPeer(mpeer(tor, maddr(100+k))) {
						mu.Lock()
						late++
						mu.Unlock()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		vc.add(fmt.Sprintf("limit %d, %d addresses, stop %v", limit, n, stop))
		if late > 0 {
			vfail(t, "a peer was accepted after Stop")
		}
		if len(acc) > limit {
			vfail(t, "limit %d: %d peers accepted by concurrent callers", limit, len(acc))
		}
		if !stop && len(acc) != min(limit, n) {
			vfail(t, "limit %d: %d of %d peers accepted", limit, len(acc), n)
		}
		for a, k := range acc {
			if k != 1 {
				vfail(t, "address %v accepted %d times", a, k)
			}
		}
		if got := m.torrentStatus.PeerNum(); int(got) != len(acc) {
			vfail(t, "%d peers reported, %d accepted", got, len(acc))
		}
	}
}

// Peers of a tracker that cannot be reached leave the pool; Stop closes the rest.
func TestVerif_C23_unreachable(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 4*vscale(); c++ {
		var peers []netip.AddrPort
		var once sync.Once
		var list []netip.AddrPort
		url := fakeTracker(t, func() []netip.AddrPort { once.Do(func() { list = peers }); return list })
		tor, content := mtorrent(t, r, 40, url)
		var good []*fakePeer
		bad := 0
		for k := 1 + r.Intn(5); k > 0; k-- {
			f, err := newFakePeer(tor, content)
			if err != nil {
				t.Skip(err)
			}
			defer f.l.Close()
			f.hold = make(chan bool)
			f.delay = func() time.Duration { return 0 }
			defer close(f.hold)
			switch r.Intn(3) {
			case 0:
				f.refuse = true
				bad++
			case 1:
				f.l.Close()
				bad++
			default:
				good = append(good, f)
			}
			peers = append(peers, f.addr())
		}
		m := NewMng(tor, zap.NewNop(), 20, 6881)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		go func() { m.Download(ctx); close(done) }()
		settled := func() bool {
			for _, f := range good {
				if f.get(&f.accepted) == 0 || f.get(&f.requests) == 0 {
					return false
				}
			}
			return int(m.torrentStatus.PeerNum()) == len(good)
		}
		for end := time.Now().Add(15 * time.Second); !settled() && time.Now().Before(end); {
			time.Sleep(5 * time.Millisecond)
		}
		time.Sleep(20 * time.Millisecond)
		vc.add(fmt.Sprintf("%d reachable, %d not", len(good), bad))
		if n := m.torrentStatus.PeerNum(); int(n) != len(good) {
			vfail(t, "%d reachable and %d unreachable peers: %d peers reported", len(good), bad, n)
		}
		// an address that left may come back, one in the pool may not
		for _, a := range peers {
			isGood := false
			for _, f := range good {
				isGood = isGood || f.addr() == a
			}
			if got := m.AddPeer(mpeer(tor, a)); got == isGood {
				vfail(t, "%d reachable and %d unreachable peers: adding %v (reachable: %v) says %v", len(good), bad, a, isGood, got)
			}
		}
		m.Stop()
		m.Stop()
		if m.AddPeer(mpeer(tor, netip.MustParseAddrPort("10.9.9.9:99"))) {
			vfail(t, "a peer was accepted after Stop")
		}
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			vfail(t, "Download does not end after Stop")
		}
		cancel()
	}
}

// Stop closes the connection of every peer.
func TestVerif_C23_stop_closes(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 12*vscale(); c++ {
		tor, content := mtorrent(t, r, 2)
		m := NewMng(tor, zap.NewNop(), 10, 6881)
		started(t, m)
		var fs []*fakePeer
		n := r.Intn(6)
		for k := 0; k < n; k++ {
			f, err := newFakePeer(tor, content)
			if err != nil {
				t.Skip(err)
			}
			defer f.l.Close()
			p := mpeer(tor, f.addr())
			if err := p.Announce(tor); err != nil {
				if _, ok := err.(net.Error); ok {
					t.Skip(err)
				}
				vfail(t, "announce to a good peer: %v", err)
			}
			if !m.AddPeer(p) {
				vfail(t, "peer %d of 10 not accepted", k)
			}
			fs = append(fs, f)
		}
		vc.add(fmt.Sprintf("%d connected peers", n))
		m.Stop()
		for _, f := range fs {
			end := time.Now().Add(5 * time.Second)
			for f.get(&f.eofs) == 0 && time.Now().Before(end) {
				time.Sleep(time.Millisecond)
			}
			if f.get(&f.eofs) != 1 {
				vfail(t, "Stop with %d peers leaves a connection open", n)
			}
		}
		m.Stop()
	}
}
