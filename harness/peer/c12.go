package peer

import (
	"encoding/binary"
	"fmt"
	"net/netip"
	"runtime"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func c12body(n func(int) int, num int) []byte {
	b := make([]byte, n(30))
	for i := range b {
		b[i] = byte(n(256))
	}
	if len(b) == 0 {
		return b
	}
	if n(4) > 0 {
		b[0] = byte(n(10))
	}
	if len(b) >= 5 && n(2) == 0 {
		binary.BigEndian.PutUint32(b[1:], []uint32{0, uint32(num) - 1, uint32(num), uint32(num) + 1, 1 << 31, 1<<31 - 1, 1<<32 - 1, 1 << 30, 63, 64, uint32(n(1 << 12)), uint32(n(1 << 21)), uint32(n(1 << 28))}[n(13)])
	}
	if len(b) >= 9 && n(2) == 0 {
		binary.BigEndian.PutUint32(b[5:], 0)
	}
	return b
}

func TestVerif_C12_messages(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 200*vscale(); i++ {
		num := 1 + r.Intn(100)
		pl := 1 + r.Intn(10)
		tr, _, err := vtorrent(r, num*pl, pl)
		if err != nil {
			t.Fatal(err)
		}
		ch := make(chan *util.PeerMessage, 1000)
		p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, torrent.NewPiecesQueue(), ch, zap.NewNop())
		var hist []string
		var a, b runtime.MemStats
		for k := 0; k < 100; k++ {
			body := c12body(r.Intn, num)
			hist = append(hist, fmt.Sprintf("%x", body))
			vc.add(fmt.Sprintf("%d pieces: %v", num, hist[max(0, len(hist)-3):]))
			measure := k%20 == 0 || len(body) > 4 && body[0] == 4
			if measure {
				runtime.ReadMemStats(&a)
			}
			if m := vpanic(func() {
				m := util.NewPeerMessage(append([]byte{}, body...))
				m.Index()
				m.Offset()
				m.BlockLength()
				m.Data()
				m.Bitfield()
				p.handlePeerMessage(m)
				// and what we do with it afterwards
				p.nextRequestMessage()
			}); m != "" {
				vfail(t, "%d pieces, messages %v: %s", num, hist, m)
			}
			if measure {
				runtime.ReadMemStats(&b)
				if b.TotalAlloc-a.TotalAlloc > 1<<16 {
					vfail(t, "%d pieces: message %x makes the client allocate %d bytes", num, body, b.TotalAlloc-a.TotalAlloc)
				}
			}
			for len(ch) > 0 {
				<-ch
			}
		}
	}
}

func TestVerif_C12_close(t *testing.T) {
	vc := newVCases(t)
	tr, _, err := vtorrent(vrng(), 100, 10)
	if err != nil {
		t.Fatal(err)
	}
	p := NewPeer(netip.MustParseAddrPort("127.0.0.1:1"), tr, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 1), zap.NewNop())
	vc.add("close before connecting")
	if m := vpanic(func() { p.Close() }); m != "" {
		vfail(t, "closing a peer that never connected: %s", m)
	}
	vc.add("close after failed connect")
	if m := vpanic(func() { p.Announce(tr); p.Close(); p.Close() }); m != "" {
		vfail(t, "closing a peer whose connection failed: %s", m)
	}
}

// a peer that sends arbitrary bytes after the handshake
func TestVerif_C12_streams(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 30*vscale(); i++ {
		num := 1 + r.Intn(40)
		tr, data, err := vtorrent(r, num*7, 7)
		if err != nil {
			t.Fatal(err)
		}
		ch := make(chan *util.PeerMessage, 10000)
		var sent []string
		v, _, err := vsession(tr, data, 7, torrent.NewPiecesQueue(), ch, 900*time.Millisecond, func(v *vremote) {
			for k := 0; k < 60; k++ {
				var b []byte
				if r.Intn(10) == 0 {
					b = make([]byte, r.Intn(40))
					r.Read(b)
				} else {
					body := c12body(r.Intn, num)
					b = append(binary.BigEndian.AppendUint32(nil, uint32(len(body))), body...)
				}
				if k == 0 {
					b = []byte{0, 0, 0, 1, 1}
				}
				sent = append(sent, fmt.Sprintf("%x", b))
				if _, err := v.c.Write(b); err != nil {
					return
				}
			}
			time.Sleep(100 * time.Millisecond)
		})
		if err != nil {
			continue
		}
		vc.add(fmt.Sprint(sent))
		if len(v.fails) > 0 {
			vfail(t, "%s after the peer sent %v", v.fails[0], sent)
		}
	}
}
