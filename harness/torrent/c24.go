package torrent

import (
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
	"github.com/bits-and-blooms/bitset"
)

// within fails when f does not end.
func within(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		vfail(t, "%s: still waiting for a lock after 30 s", what)
	}
}

func c24torrent(n int) *Torrent {
	return &Torrent{PiecesNum: n, PieceLength: 10, Length: 10 * n, requested: bitset.New(uint(n)), downloaded: bitset.New(uint(n)), requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}}
}

func (tr *Torrent) vfree(t *testing.T, what string) {
	t.Helper()
	if !tr.requestedMu.TryLock() {
		vfail(t, "%s: requestedMu is still locked", what)
	}
	tr.requestedMu.Unlock()
	if !tr.downloadedMu.TryLock() {
		vfail(t, "%s: downloadedMu is still locked", what)
	}
	tr.downloadedMu.Unlock()
}

// Every call leaves the locks free, whatever path it takes.
func TestVerif_C24_released(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for c := 0; c < 400*vscale(); c++ {
		n := r.Intn(8)
		if r.Intn(5) == 0 {
			n = 60 + r.Intn(10)
		}
		tr := c24torrent(n)
		log := fmt.Sprintf("%d pieces:", n)
		for k := 0; k < 2*n+3; k++ {
			var call func()
			switch r.Intn(4) {
			case 0, 1:
				have := bitset.New(uint(r.Intn(n + 3)))
				for j := 0; j < n+2; j++ {
					if r.Intn(3) > 0 {
						have.Set(uint(j))
					}
				}
				log += " Next"
				call = func() { tr.Next(have) }
			case 2:
				i := uint(r.Intn(n + 1))
				log += fmt.Sprintf(" SetDownloaded(%d)", i)
				call = func() { tr.SetDownloaded(i) }
			default:
				log += " Done"
				call = func() { tr.Done() }
			}
			within(t, log, call)
			tr.vfree(t, log)
		}
		vc.add(log)
	}
}

// Under the race detector: no two goroutines touch the sets at once.
func TestVerif_C24_sets(t *testing.T) {
	vc := newVCases(t)
	for round := 0; round < 15*vscale(); round++ {
		n := 300
		tr := c24torrent(n)
		var wg sync.WaitGroup
		start := make(chan struct{})
		run := func(f func(k int)) {
			for k := 0; k < 4; k++ {
				wg.Add(1)
				go func() { defer wg.Done(); <-start; f(k) }()
			}
		}
		run(func(k int) {
			have := bitset.New(uint(n))
			for j := 0; j < n; j++ {
				if (j+k)%4 != 0 {
					have.Set(uint(j))
				}
			}
			for {
				i, ok := tr.Next(have)
				if !ok {
					return
				}
				tr.SetDownloaded(i)
			}
		})
		run(func(k int) {
			for j := k; j < n; j += 4 {
				tr.SetDownloaded(uint(j))
			}
		})
		run(func(k int) {
			for j := 0; j < n; j++ {
				tr.Done()
			}
		})
		within(t, "concurrent Next, SetDownloaded, Done", func() { close(start); wg.Wait() })
		tr.vfree(t, "after concurrent calls")
		vc.add(fmt.Sprintf("round %d", round))
		if !tr.Done() {
			vfail(t, "all %d pieces were set as downloaded by concurrent goroutines, but Done says no", n)
		}
	}
}

func TestVerif_C24_failed_queue(t *testing.T) {
	vc := newVCases(t)
	for round := 0; round < 30*vscale(); round++ {
		pq := NewPiecesQueue()
		const w, n = 6, 300
		var wg sync.WaitGroup
		start := make(chan struct{})
		var got [w * n]atomic.Int32
		var popped atomic.Int32
		msgs := map[*util.PeerMessage]int{}
		var list []*util.PeerMessage
		for k := 0; k < w*n; k++ {
			m := &util.PeerMessage{}
			msgs[m] = k
			list = append(list, m)
		}
		take := func(m *util.PeerMessage) {
			if i, ok := msgs[m]; ok {
				got[i].Add(1)
				popped.Add(1)
			}
		}
		for k := 0; k < w; k++ {
			wg.Add(2)
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < n; j++ {
					pq.RequestFailed(list[k*n+j])
				}
			}()
			go func() {
				defer wg.Done()
				<-start
				for j := 0; j < n; j++ {
					if m := pq.FailedPieceMessage(); m != nil {
						take(m)
					}
				}
			}()
		}
		within(t, "concurrent RequestFailed and FailedPieceMessage", func() {
			close(start)
			wg.Wait()
			for {
				m := pq.FailedPieceMessage()
				if m == nil {
					break
				}
				take(m)
			}
		})
		vc.add(fmt.Sprintf("round %d", round))
		for i := range got {
			if got[i].Load() != 1 {
				vfail(t, "failed request %d of %d was handed out %d times", i, w*n, got[i].Load())
			}
		}
	}
}
