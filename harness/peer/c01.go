package peer

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"net/netip"
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestVerif_C01_pieces(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 250*vscale(); i++ {
		pl := 1 + r.Intn(40)
		num := 1 + r.Intn(12)
		if i%5 == 4 {
			num = 50 + r.Intn(250)
		}
		if i%25 == 24 {
			// blocks of some hundred kilobytes
			pl, num = 100000+r.Intn(400000), 1+r.Intn(3)
		}
		content := make([]byte, pl*num-r.Intn(pl))
		r.Read(content)
		if r.Intn(3) == 0 {
			// equal pieces: the same digest for several indexes
			for j := range content {
				content[j] = byte(j % pl)
			}
		}
		tr, _, err := vtorrentOf(content, pl)
		if err != nil {
			t.Fatal(err)
		}
		var sums [][20]byte
		for p := 0; p < len(content); p += pl {
			sums = append(sums, sha1.Sum(content[p:min(p+pl, len(content))]))
		}
		ch := make(chan *util.PeerMessage, 10)
		pq := torrent.NewPiecesQueue()
		p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, pq, ch, zap.NewNop())
		if i%2 == 1 {
			// a session that has gone on for a while
			full := r.Intn(2) == 0
			for k := 0; k < num; k++ {
				if full || r.Intn(2) == 0 {
					p.Bitset.Set(uint(k))
				}
			}
			p.ClientStatus.Choked, p.ClientStatus.Interested = r.Intn(2) == 0, r.Intn(2) == 0
			p.PeerStatus.Choked, p.PeerStatus.Interested = r.Intn(2) == 0, r.Intn(2) == 0
		}
		msgs := 60
		if pl > 1000 {
			msgs = 12
		}
		for k := 0; k < msgs; k++ {
			idx := uint32(r.Intn(num))
			data := append([]byte{}, content[int(idx)*pl:min(len(content), int(idx)*pl+pl)]...)
			off := uint32(0)
			switch r.Intn(9) {
			case 0:
				data[r.Intn(len(data))] ^= byte(1 << r.Intn(8))
			case 1:
				data = data[:r.Intn(len(data))]
			case 2:
				data = append(data, byte(r.Intn(256)))
			case 3:
				off = []uint32{1, uint32(pl), 131072, 1 << 31, 1<<32 - 1, 256, 65536, 1 << 24}[r.Intn(8)]
			case 4:
				idx = []uint32{uint32(num), uint32(num) + 1, 1 << 31, 1<<32 - 1, idx + 256, idx + 65536, idx + 1<<24}[r.Intn(7)]
			case 5:
				idx = uint32(r.Intn(num))
			case 6:
				data = []byte{}
			}
			want := int(idx) < num && off == 0 && sha1.Sum(data) == sums[idx]
			before := p.Bitset.Clone()
			cs, ps := *p.ClientStatus, *p.PeerStatus
			vc.add(fmt.Sprintf("%d pieces of %d: index %d offset %d data %.100x", num, pl, idx, off, data))
			if msg := vpanic(func() { p.handlePeerMessage(util.NewPeerMessage(vpieceBody(idx, off, data))) }); msg != "" {
				vfail(t, "piece message index %d offset %d data %.100x (%d pieces of %d): %s", idx, off, data, num, pl, msg)
			}
			if want != (len(ch) == 1) {
				vfail(t, "piece message index %d offset %d with %d bytes %.100x (torrent of %d pieces of length %d, content %.200x, peer said it has %d pieces): %d messages passed on, expected %v", idx, off, len(data), data, num, pl, content, before.Count(), len(ch), want)
			}
			if want {
				m := <-ch
				if m.Index() != idx || m.Offset() != 0 || !bytes.Equal(m.Data(), data) {
					vfail(t, "piece message index %d data %.100x is passed on as index %d offset %d data %.100x", idx, data, m.Index(), m.Offset(), m.Data())
				}
			} else if !before.Equal(p.Bitset) {
				vfail(t, "dropped piece message index %d offset %d data %.100x changes the peer's pieces from %v to %v", idx, off, data, before, p.Bitset)
			}
			if cs != *p.ClientStatus || ps != *p.PeerStatus {
				vfail(t, "piece message index %d changes the choke or interest flags", idx)
			}
			if tr.Done() {
				vfail(t, "piece message index %d marks pieces as downloaded", idx)
			}
			if m := pq.FailedPieceMessage(); m != nil {
				vfail(t, "piece message puts %+v on the queue of failed requests", m)
			}
		}
		// other messages pass nothing on
		for k := 0; k < 30; k++ {
			b := make([]byte, 1+r.Intn(40))
			r.Read(b)
			b[0] = byte(r.Intn(12))
			if b[0] == 7 {
				continue
			}
			p.handlePeerMessage(util.NewPeerMessage(b))
			if len(ch) != 0 {
				vfail(t, "message %x is passed on for writing", b)
			}
		}
	}
}

// peers of one torrent whose blocks are checked at the same time
func TestVerif_C01_concurrent(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	const pl, num = 100000, 6
	content := make([]byte, pl*num)
	r.Read(content)
	tr, _, err := vtorrentOf(content, pl)
	if err != nil {
		t.Fatal(err)
	}
	bad := make(chan string, 100)
	var wg sync.WaitGroup
	for g := 0; g < num; g++ {
		ch := make(chan *util.PeerMessage, 10)
		p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, torrent.NewPiecesQueue(), ch, zap.NewNop())
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 60*vscale() && len(bad) == 0; k++ {
				idx := (g + k) % num
				data := append([]byte{}, content[idx*pl:idx*pl+pl]...)
				good := k%3 != 2
				if !good {
					data = append([]byte{}, content[(idx+1)%num*pl:(idx+1)%num*pl+pl]...)
				}
				if msg := vpanic(func() { p.handlePeerMessage(util.NewPeerMessage(vpieceBody(uint32(idx), 0, data))) }); msg != "" {
					bad <- fmt.Sprintf("%d peers check blocks at the same time: the block of piece %d sent by peer %d: %s", num, idx, g, msg)
					return
				}
				if got := len(ch) == 1; got != good {
					bad <- fmt.Sprintf("%d peers check blocks at the same time: the block of piece %d sent by peer %d has the right digest %v, passed on %v", num, idx, g, good, got)
					return
				}
				if good {
					<-ch
				}
			}
		}()
	}
	wg.Wait()
	for k := 0; k < 60*vscale(); k++ {
		vc.add(fmt.Sprint("concurrent blocks ", k))
	}
	if len(bad) > 0 {
		vfail(t, "%s", <-bad)
	}
}
