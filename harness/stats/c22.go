package stats

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
)

func TestVerif_C22_histories(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 3000*vscale(); i++ {
		size := vsize(r)
		s := NewStats(size)
		var down, up, peers, trackers uint64
		var hist []string
		for k := 0; k < r.Intn(40); k++ {
			switch r.Intn(8) {
			case 0, 1:
				n := vamount(r, size)
				s.AddDownload(n)
				down += n
				hist = append(hist, fmt.Sprintf("down %d", n))
			case 2:
				n := vamount(r, size)
				s.AddUpload(n)
				up += n
				hist = append(hist, fmt.Sprintf("up %d", n))
			case 3:
				s.AddPeer()
				peers++
				hist = append(hist, "peer+")
			case 4:
				if peers > 0 {
					s.RemovePeer()
					peers--
					hist = append(hist, "peer-")
				}
			case 5:
				s.AddTracker()
				trackers++
				hist = append(hist, "tracker+")
			case 6:
				if trackers > 0 {
					s.RemoveTracker()
					trackers--
					hist = append(hist, "tracker-")
				}
			}
			vc.add(fmt.Sprintf("size %d: %v", size, hist))
			left := uint64(0)
			if down < size {
				left = size - down
			}
			if s.Download() != down || s.Upload() != up || s.PeerNum() != peers || s.TrackerNum() != trackers || s.Left() != left {
				vfail(t, "size %d after %v: downloaded %d (want %d), uploaded %d (%d), peers %d (%d), trackers %d (%d), left %d (%d)",
					size, hist, s.Download(), down, s.Upload(), up, s.PeerNum(), peers, s.TrackerNum(), trackers, s.Left(), left)
			}
			p := s.PercentCompleted()
			want := 0.0
			if size > 0 {
				want = math.Min(100, 100*float64(down)/float64(size))
			}
			if p < 0 || p > 100 || math.Abs(float64(p)-want) > 1 || (size > 0 && down >= size && p != 100) {
				vfail(t, "size %d after %v (downloaded %d): completed %d percent, expected %.2f", size, hist, down, p, want)
			}
			if m := vpanic(func() { s.Speed() }); m != "" {
				vfail(t, "Speed: %s", m)
			}
		}
	}
}

func vsize(r *rand.Rand) uint64 {
	switch r.Intn(5) {
	case 0:
		return uint64(r.Intn(4))
	case 1:
		return uint64(r.Intn(1000))
	case 2:
		return uint64(r.Int63n(1 << 40))
	case 3:
		return []uint64{1 << 31, 1 << 32, 1 << 53, 1<<53 + 1, 1 << 62, 1<<63 - 1, 99, 100, 101}[r.Intn(9)]
	}
	return uint64(r.Int63n(1 << 31))
}

func vamount(r *rand.Rand, size uint64) uint64 {
	switch r.Intn(5) {
	case 0:
		return size
	case 1:
		if size > 0 {
			return uint64(r.Int63n(int64(min(size, 1<<62)) + 1))
		}
		return 0
	case 2:
		return size/100 + 1
	case 3:
		return uint64(r.Intn(1 << 17))
	}
	return uint64(r.Int63n(1 << 55))
}

func TestVerif_C22_concurrent(t *testing.T) {
	vc := newVCases(t)
	for round := 0; round < 10*vscale(); round++ {
		s := NewStats(1 << 40)
		const w, n = 8, 4000
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < n; i++ {
					s.AddDownload(3)
					s.AddUpload(5)
					s.AddPeer()
					s.AddPeer()
					s.RemovePeer()
					s.AddTracker()
					s.AddTracker()
					s.RemoveTracker()
					_ = s.Left()
				}
			}()
		}
		close(start)
		wg.Wait()
		vc.add(fmt.Sprintf("round %d", round))
		if s.Download() != 3*w*n || s.Upload() != 5*w*n || s.PeerNum() != w*n || s.TrackerNum() != w*n || s.Left() != 1<<40-3*w*n {
			vfail(t, "%d goroutines report %d times each 3 bytes down, 5 up, 2 peers more 1 less, 2 trackers more 1 less: downloaded %d, uploaded %d, peers %d, trackers %d, left %d",
				w, n, s.Download(), s.Upload(), s.PeerNum(), s.TrackerNum(), s.Left())
		}
	}
}

// what is left never grows while only downloads are reported
func TestVerif_C22_left(t *testing.T) {
	vc := newVCases(t)
	rounds := 30000 * vscale()
	const size = 400
	for round := 0; round < rounds; round++ {
		s := NewStats(size)
		var wg sync.WaitGroup
		var ready atomic.Int32
		wg.Add(1)
		go func() {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < 2 {
			}
			for i := 0; i < 45; i++ {
				s.AddDownload(10)
			}
			ready.Add(1)
		}()
		ready.Add(1)
		for ready.Load() < 2 {
		}
		last := uint64(size)
		for ready.Load() < 3 && last > 0 {
			l := s.Left()
			if l > last {
				vfail(t, "size %d, downloads of 10 bytes reported one after another: left %d after left %d", size, l, last)
				wg.Wait()
				return
			}
			last = l
		}
		wg.Wait()
		if round%100 == 0 {
			vc.add(fmt.Sprintf("left, round %d", round))
		}
	}
}
