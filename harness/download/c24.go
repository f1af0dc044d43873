package download

import (
	"context"
	"fmt"
	"net"
	"net/netip"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"go.uber.org/zap"
)

// Under the race detector: peers come and go through several trackers while
// others are added and the manager is stopped.
func TestVerif_C24_pool(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 6*vscale(); c++ {
		var list []netip.AddrPort
		// nobody listens there
		for k := 0; k < 6; k++ {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				t.Skip(err)
			}
			list = append(list, l.Addr().(*net.TCPAddr).AddrPort())
			l.Close()
		}
		var urls []string
		var asked atomic.Int64
		for k := 0; k < 4; k++ {
			off := r.Intn(len(list))
			urls = append(urls, fakeTracker(t, func() []netip.AddrPort {
				asked.Add(1)
				return append(append([]netip.AddrPort{}, list[off:]...), list[:off]...)
			}))
		}
		tor, _ := mtorrent(t, r, 3, urls...)
		m := NewMng(tor, zap.NewNop(), 200, 6881)
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan bool)
		go func() { m.Download(ctx); close(done) }()
		var wg sync.WaitGroup
		added := make([]int, 3)
		for g := 0; g < 3; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 20; k++ {
					if m.AddPeer(mpeer(tor, netip.AddrPortFrom(netip.AddrFrom4([4]byte{10, 1, byte(g), byte(k)}), 99))) {
						added[g]++
					}
					m.UpdateStatus(1, 1)
					time.Sleep(time.Duration(k) * 50 * time.Microsecond)
				}
			}()
		}
		end := make(chan bool)
		go func() { wg.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(30 * time.Second):
			vfail(t, "AddPeer still waits for the pool after 30 s")
		}
		vc.add(fmt.Sprintf("%d trackers, %d unreachable peers", len(urls), len(list)))
		for g := range added {
			if added[g] != 20 {
				vfail(t, "goroutine %d: %d of 20 peers accepted", g, added[g])
			}
		}
		// Stop belongs after the start of Download
		for stop := time.Now().Add(20 * time.Second); asked.Load() < 4 && time.Now().Before(stop); {
			time.Sleep(time.Millisecond)
		}
		if asked.Load() < 4 {
			t.Skip("the trackers were not asked")
		}
		// the unreachable peers leave the pool
		for stop := time.Now().Add(20 * time.Second); m.torrentStatus.PeerNum() != 60 && time.Now().Before(stop); {
			time.Sleep(time.Millisecond)
		}
		stopped := make(chan bool)
		go func() {
			m.Stop()
			m.Stop()
			m.AddPeer(mpeer(tor, netip.MustParseAddrPort("10.9.9.9:99")))
			close(stopped)
		}()
		select {
		case <-stopped:
		case <-time.After(30 * time.Second):
			vfail(t, "Stop or AddPeer still waits for the pool after 30 s")
		}
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			vfail(t, "Download does not end after Stop")
		}
		cancel()
	}
}

// Under the race detector: concurrent AddPeer and Stop.
func TestVerif_C24_stop(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	tor, _ := mtorrent(t, r, 3)
	for c := 0; c < 40*vscale(); c++ {
		m := NewMng(tor, zap.NewNop(), 1+r.Intn(30), 6881)
		started(t, m)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 6; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for k := 0; k < 20; k++ {
					m.AddPeer(mpeer(tor, maddr(k)))
				}
				if g < 2 {
					m.Stop()
				}
			}()
		}
		end := make(chan bool)
		go func() { close(start); wg.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(30 * time.Second):
			vfail(t, "AddPeer or Stop still waits for the pool after 30 s")
		}
		vc.add(fmt.Sprintf("round %d", c))
	}
}
