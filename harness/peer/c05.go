package peer

import (
	"fmt"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

const c05block = 128 * 1024

func TestVerif_C05_blocks(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 150*vscale(); i++ {
		pl := 1 + r.Intn(3*c05block)
		switch r.Intn(6) {
		case 0:
			pl = c05block * (1 + r.Intn(4))
		case 1:
			pl = c05block*(1+r.Intn(3)) + []int{-1, 1, 2, -2}[r.Intn(4)]
		case 2:
			pl = 1 + r.Intn(100)
		case 3:
			pl = 16384 * (1 + r.Intn(20))
		}
		num := 1 + r.Intn(5)
		total := pl*num - r.Intn(pl)
		if r.Intn(4) == 0 {
			total = pl * num
		}
		content := make([]byte, total)
		tr, _, err := vtorrentOf(content, pl)
		if err != nil {
			t.Fatal(err)
		}
		pq := torrent.NewPiecesQueue()
		p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, pq, make(chan *util.PeerMessage, 100), zap.NewNop())
		have := map[int]bool{}
		for j := 0; j < num; j++ {
			if r.Intn(5) > 0 {
				p.handlePeerMessage(util.NewPeerMessage(vhave(uint32(j))))
				have[j] = true
			}
		}
		// expected: the requests of a piece in order, then failed ones, then the lowest free piece
		given := map[int]bool{}
		var failed []*util.PeerMessage
		cur, off := -1, 0
		var hist []string
		for k := 0; k < 40; k++ {
			if r.Intn(5) == 0 {
				m := util.CreatePieceMessage(uint32(r.Intn(num)), uint32(r.Intn(pl)), uint32(1+r.Intn(pl)))
				pq.RequestFailed(m)
				failed = append(failed, m)
			}
			got := p.nextRequestMessage()
			vc.add(fmt.Sprintf("%d bytes, pieces of %d, peer has %v, %v", total, pl, have, hist))
			bad := func(want string) {
				g := "none"
				if got != nil {
					g = fmt.Sprintf("piece %d offset %d length %d", got.Index(), got.Offset(), got.BlockLength())
				}
				vfail(t, "torrent of %d bytes in pieces of %d, peer has %v, requests so far %v, %d failed: next request is %s, expected %s", total, pl, have, hist, len(failed), g, want)
			}
			if cur < 0 {
				if len(failed) > 0 {
					want := failed[len(failed)-1]
					failed = failed[:len(failed)-1]
					if got != want {
						bad(fmt.Sprintf("failed request piece %d offset %d", want.Index(), want.Offset()))
					}
					hist = append(hist, "failed one")
					continue
				}
				for j := 0; j < num; j++ {
					if have[j] && !given[j] {
						cur, off = j, 0
						given[j] = true
						break
					}
				}
				if cur < 0 {
					if got != nil {
						bad("none")
					}
					continue
				}
			}
			size := min(pl, total-cur*pl)
			l := min(c05block, size-off)
			if got == nil || got.Type != util.RequestMessageType || int(got.Index()) != cur || int(got.Offset()) != off || int(got.BlockLength()) != l {
				bad(fmt.Sprintf("piece %d offset %d length %d", cur, off, l))
			}
			hist = append(hist, fmt.Sprintf("piece %d %d+%d", cur, off, l))
			off += l
			if off == size {
				cur = -1
			}
		}
	}
}

// answers to single block requests are accepted
func TestVerif_C05_answers(t *testing.T) {
	vc := newVCases(t)
	vsessions(t, vc, 60*vscale(), 4*time.Second, func(v *vremote, p *Peer, pq *torrent.PiecesQueue, ch chan *util.PeerMessage) {
		v.fails = nil
		close(ch)
		got := map[uint32]bool{}
		for m := range ch {
			got[m.Index()] = true
		}
		for i := range v.good {
			if !got[i] {
				v.fail("piece %d was answered correctly, but not accepted", i)
			}
		}
		for _, q := range v.reqs {
			if q[1] != 0 || int(q[2]) != min(v.pl, len(v.data)-int(q[0])*v.pl) {
				v.fail("request %v does not cover its piece of %d", q, v.pl)
			}
		}
	})
}
