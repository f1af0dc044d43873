package torrent

import (
	"fmt"
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
)

func TestVerif_C04_sequential(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 1500*vscale(); i++ {
		n := 1 + r.Intn(12)
		switch r.Intn(6) {
		case 0:
			n = []int{63, 64, 65, 127, 128, 129, 200}[r.Intn(7)]
		case 1:
			n = 1 + r.Intn(300)
		}
		tr := &Torrent{PiecesNum: n, PieceLength: 10, Length: 10 * n, requested: bitset.New(uint(n)), downloaded: bitset.New(uint(n)), requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}}
		given := map[uint]bool{}
		var peers []*bitset.BitSet
		for k := 0; k < 1+r.Intn(4); k++ {
			// bitsets as peers send them: shorter, longer, with spare bits
			b := bitset.New(uint(r.Intn(n + 70)))
			dens := r.Intn(4)
			for j := 0; j < n+r.Intn(70); j++ {
				if r.Intn(4) <= dens {
					b.Set(uint(j))
				}
			}
			peers = append(peers, b)
		}
		var hist []string
		for k := 0; k < 3*n+5; k++ {
			p := r.Intn(len(peers))
			have := peers[p]
			if r.Intn(4) == 0 {
				have.Set(uint(r.Intn(n)))
			}
			before := have.Clone()
			want, wantOK := uint(0), false
			for j := 0; j < n; j++ {
				if have.Test(uint(j)) && !given[uint(j)] {
					want, wantOK = uint(j), true
					break
				}
			}
			got, ok := tr.Next(have)
			vc.add(fmt.Sprintf("%d pieces, history %v, peer %d", n, vshort(fmt.Sprint(hist)), p))
			if ok != wantOK || ok && got != want {
				vfail(t, "torrent of %d pieces, given out so far %v, peer has %v: Next gives %d %v, expected %d %v", n, hist, have, got, ok, want, wantOK)
			}
			if !before.Equal(have) {
				vfail(t, "Next changed the peer's set from %v to %v", before, have)
			}
			if ok {
				given[got] = true
				hist = append(hist, fmt.Sprintf("%d->peer%d", got, p))
			}
			if r.Intn(10) == 0 && ok {
				// a finished piece is not given out again either
				tr.SetDownloaded(got)
			}
		}
	}
}

func TestVerif_C04_concurrent(t *testing.T) {
	vc := newVCases(t)
	for round := 0; round < 60*vscale(); round++ {
		n := 2000
		tr := &Torrent{PiecesNum: n, PieceLength: 10, Length: 10 * n, requested: bitset.New(uint(n)), downloaded: bitset.New(uint(n)), requestedMu: &sync.Mutex{}, downloadedMu: &sync.Mutex{}}
		const w = 8
		got := make([][]uint, w)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < w; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				have := bitset.New(uint(n))
				for j := 0; j < n; j++ {
					if (j+k+round)%3 != 0 {
						have.Set(uint(j))
					}
				}
				<-start
				for {
					i, ok := tr.Next(have)
					if !ok {
						return
					}
					got[k] = append(got[k], i)
				}
			}()
		}
		close(start)
		wg.Wait()
		vc.add(fmt.Sprintf("round %d", round))
		owner := map[uint]int{}
		for k := range got {
			last := -1
			for _, i := range got[k] {
				if o, dup := owner[i]; dup {
					vfail(t, "piece %d is given to goroutine %d and goroutine %d", i, o, k)
				}
				owner[i] = k
				if int(i) <= last {
					vfail(t, "goroutine %d is given piece %d after piece %d", k, i, last)
				}
				last = int(i)
				if (int(i)+k+round)%3 == 0 {
					vfail(t, "goroutine %d is given piece %d it does not have", k, i)
				}
			}
		}
		if len(owner) != n {
			vfail(t, "%d of %d pieces given out", len(owner), n)
		}
	}
}
