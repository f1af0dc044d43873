package stats

import (
	"fmt"
	"sync"
	"testing"
)

// Under the race detector: every counter is read and written atomically.
func TestVerif_C24_counters(t *testing.T) {
	vc := newVCases(t)
	for round := 0; round < 10*vscale(); round++ {
		s := NewStats(1 << 30)
		const w, n = 8, 300
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n; i++ {
					s.AddDownload(3)
					s.AddUpload(5)
					s.AddPeer()
					s.RemovePeer()
					s.AddTracker()
					s.RemoveTracker()
					s.Left()
					s.Download()
					s.Upload()
					s.PeerNum()
					s.TrackerNum()
					s.PercentCompleted()
					s.Speed()
				}
			}()
		}
		close(start)
		wg.Wait()
		vc.add(fmt.Sprintf("round %d", round))
		if s.Download() != 3*w*n || s.Upload() != 5*w*n || s.PeerNum() != 0 || s.TrackerNum() != 0 {
			vfail(t, "%d goroutines, %d times each: downloaded %d, uploaded %d, peers %d, trackers %d", w, n, s.Download(), s.Upload(), s.PeerNum(), s.TrackerNum())
		}
	}
}
