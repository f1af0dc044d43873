package peer

import (
	"fmt"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"github.com/bits-and-blooms/bitset"
)

// every piece assigned to a peer ends up accepted or on the queue, once
func TestVerif_C06_sessions(t *testing.T) {
	vc := newVCases(t)
	vsessions(t, vc, 120*vscale(), 6*time.Second, func(v *vremote, p *Peer, pq *torrent.PiecesQueue, ch chan *util.PeerMessage) {
		v.fails = nil // what may be requested when is not C06
		close(ch)
		accepted := map[uint32]int{}
		for m := range ch {
			accepted[m.Index()]++
		}
		queued := map[uint32]int{}
		for m := pq.FailedPieceMessage(); m != nil; m = pq.FailedPieceMessage() {
			queued[m.Index()]++
			if want := min(v.pl, len(v.data)-int(m.Index())*v.pl); m.Type != util.RequestMessageType || m.Offset() != 0 || int(m.BlockLength()) != want {
				v.fail("queue holds a request for piece %d offset %d length %d", m.Index(), m.Offset(), m.BlockLength())
			}
		}
		all := bitset.New(uint(v.t.PiecesNum))
		for i := 0; i < v.t.PiecesNum; i++ {
			all.Set(uint(i))
		}
		free := map[uint32]bool{}
		for {
			i, ok := v.t.Next(all)
			if !ok {
				break
			}
			free[uint32(i)] = true
		}
		for i := uint32(0); int(i) < v.t.PiecesNum; i++ {
			if free[i] {
				if accepted[i]+queued[i] > 0 && !v.good[i] {
					v.fail("piece %d was never assigned, but accepted %d times, queued %d times", i, accepted[i], queued[i])
				}
				continue
			}
			if accepted[i]+queued[i] != 1 {
				v.fail("the request for piece %d was assigned once; accepted %d times, on the queue of failed requests %d times", i, accepted[i], queued[i])
			}
		}
	})
}

func TestVerif_C06_queue_through_peers(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 300*vscale(); i++ {
		pq := torrent.NewPiecesQueue()
		var model []*util.PeerMessage
		steps, bias := 200, 1
		if i%20 == 19 {
			// a queue that gets long
			steps, bias = 4000, 3
		}
		for k := 0; k < steps; k++ {
			if k == steps/2 {
				bias = 1
			}
			if r.Intn(bias+1) > 0 {
				m := util.CreatePieceMessage(r.Uint32(), r.Uint32(), r.Uint32())
				if len(model) > 0 && r.Intn(4) == 0 {
					m = model[r.Intn(len(model))]
				}
				pq.RequestFailed(m)
				model = append(model, m)
			} else {
				got := pq.FailedPieceMessage()
				var want *util.PeerMessage
				if len(model) > 0 {
					want = model[len(model)-1]
					model = model[:len(model)-1]
				}
				if got != want {
					vfail(t, "operation %d: queue gives %+v, expected %+v", k, got, want)
				}
			}
			vc.add(fmt.Sprintf("%d %d", i, k))
		}
	}
}
