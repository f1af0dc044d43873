package peer

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestVerif_C07_sessions(t *testing.T) {
	vc := newVCases(t)
	vsessions(t, vc, 120*vscale(), 6*time.Second, nil)
}

// flags follow the last message of each kind
func TestVerif_C07_flags(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	tr, content, err := vtorrent(r, 640, 16)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 400*vscale(); i++ {
		ch := make(chan *util.PeerMessage, 1000)
		p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, torrent.NewPiecesQueue(), ch, zap.NewNop())
		cc, ci, pc, pi := p.ClientStatus.Choked, p.ClientStatus.Interested, p.PeerStatus.Choked, p.PeerStatus.Interested
		if !cc || ci || !pc || pi {
			vfail(t, "a new connection is choked %v, interested %v; peer choked %v, interested %v", cc, ci, pc, pi)
		}
		var hist []string
		if i%3 > 0 {
			// a connection that has been used: the flags have any values
			cc, ci, pc, pi = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
			p.ClientStatus.Choked, p.ClientStatus.Interested, p.PeerStatus.Choked, p.PeerStatus.Interested = cc, ci, pc, pi
			hist = append(hist, fmt.Sprintf("(choked %v interested %v, peer choked %v interested %v)", cc, ci, pc, pi))
		}
		for k := 0; k < 60; k++ {
			var b []byte
			switch r.Intn(8) {
			case 0:
				b = nil
			case 1:
				b = vhave(uint32(r.Intn(60)))
			case 2:
				b = make([]byte, r.Intn(30))
				r.Read(b)
			case 3:
				q := uint32(r.Intn(40))
				b = vpieceBody(q, 0, content[q*16:q*16+16])
			case 4:
				b = binary.BigEndian.AppendUint32([]byte{byte(4 + r.Intn(5))}, uint32(r.Intn(40)))
				b = append(b, make([]byte, r.Intn(12))...)
			default:
				b = []byte{byte(r.Intn(4))}
				if r.Intn(8) == 0 {
					b = append(b, 0, 1)
				}
			}
			hist = append(hist, fmt.Sprintf("%.14x", b))
			m := util.NewPeerMessage(append([]byte{}, b...))
			p.handlePeerMessage(m)
			if len(b) > 0 {
				switch b[0] {
				case 0:
					cc = true
				case 1:
					cc = false
				case 2:
					pi = true
				case 3:
					pi = false
				}
			}
			vc.add(fmt.Sprint(i, hist))
			if p.ClientStatus.Choked != cc || p.ClientStatus.Interested != ci || p.PeerStatus.Choked != pc || p.PeerStatus.Interested != pi {
				vfail(t, "after messages %v: choked %v (expected %v), interested %v (%v), peer choked %v (%v), peer interested %v (%v)", hist,
					p.ClientStatus.Choked, cc, p.ClientStatus.Interested, ci, p.PeerStatus.Choked, pc, p.PeerStatus.Interested, pi)
			}
			for len(ch) > 0 {
				<-ch
			}
		}
	}
}
