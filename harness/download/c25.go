package download

import (
	"context"
	"fmt"
	"math/rand"
	"net/netip"
	"runtime"
	"sync"
	"testing"
	"time"

	"go.uber.org/zap"
)

// Peers answer at about the time the download is cancelled: a send on the closed
// channel would end the process.
func TestVerif_C25_cancel(t *testing.T) {
	vcancel(t, 12, 3*time.Millisecond)
}

// peers that answer long after the cancellation, but within their timeout
func TestVerif_C25_late(t *testing.T) {
	vcancel(t, 8, 950*time.Millisecond)
}

// one goroutine runs at a time
func TestVerif_C25_oneproc(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	vcancel(t, 6, 3*time.Millisecond)
}

func vcancel(t *testing.T, n int, late time.Duration) {
	vc := newVCases(t)
	r := vrng()
	n *= vscale()
	if n > 80 {
		n = 80
	}
	var wg sync.WaitGroup
	for c := 0; c < n; c++ {
		seed := r.Int63()
		var peers []netip.AddrPort
		var mu sync.Mutex
		get := func() []netip.AddrPort { mu.Lock(); defer mu.Unlock(); return peers }
		r2 := rand.New(rand.NewSource(seed))
		urls := []string{fakeTracker(t, get)}
		if r2.Intn(2) == 0 {
			urls = append(urls, fakeTracker(t, get))
		}
		if r2.Intn(3) == 0 {
			urls = append(urls, "http://127.0.0.1:1/none")
		}
		tor, content := mtorrent(t, r2, 30, urls...)
		hold := make(chan bool)
		var fs []*fakePeer
		k := 1 + r2.Intn(4)
		mu.Lock()
		for i := 0; i < k; i++ {
			f, err := newFakePeer(tor, content)
			if err != nil {
				t.Skip(err)
			}
			t.Cleanup(func() { f.l.Close() })
			f.hold = hold
			d := time.Duration(r2.Intn(30)) * time.Millisecond
			f.delay = func() time.Duration { return d }
			fs = append(fs, f)
			peers = append(peers, f.addr())
		}
		mu.Unlock()
		vc.add(fmt.Sprintf("%d peers, %d trackers, case %d", k, len(urls), c))
		m := NewMng(tor, zap.NewNop(), 50, 6881)
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			done := make(chan bool)
			go func() { m.Download(ctx); close(done) }()
			end := time.Now().Add(10 * time.Second)
			for _, f := range fs {
				for f.get(&f.requests) == 0 && time.Now().Before(end) {
					time.Sleep(time.Millisecond)
				}
			}
			cancel()
			time.Sleep(time.Duration(seed % int64(late)))
			close(hold)
			select {
			case <-done:
			case <-time.After(30 * time.Second):
			}
			// what was sent late
			time.Sleep(60 * time.Millisecond)
		}()
	}
	wg.Wait()
}
