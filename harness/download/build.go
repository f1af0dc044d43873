package download

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/netip"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/peer"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

// mtorrent builds a torrent with the given trackers in a scratch directory.
func mtorrent(t *testing.T, r *rand.Rand, pieces int, trackers ...string) (*torrent.Torrent, []byte) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "mng")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	const pl = 16384
	content := make([]byte, pieces*pl)
	r.Read(content)
	m := &bencode.Metainfo{}
	for i, u := range trackers {
		if i == 0 {
			m.Announce = u
		} else {
			m.AnnounceList = append(m.AnnounceList, []string{u})
		}
	}
	if len(trackers) == 0 {
		m.Announce = "nothing://nowhere"
	}
	var digests []byte
	for p := 0; p < len(content); p += pl {
		h := sha1.Sum(content[p : p+pl])
		digests = append(digests, h[:]...)
	}
	m.Info.Name = "content"
	m.Info.PieceLength = pl
	m.Info.Pieces = string(digests)
	m.Info.Length = int64(len(content))
	m.InfoDictRaw = []byte("d4:name7:contente")
	tor, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		vfail(t, "torrent.New: %v", err)
	}
	t.Cleanup(func() { tor.Close() })
	return tor, content
}

// fakePeer listens and acts as a peer that has every piece.
type fakePeer struct {
	l        net.Listener
	tor      *torrent.Torrent
	content  []byte
	hold     chan bool // answers wait for it, when not nil
	delay    func() time.Duration
	refuse   bool // hang up at the handshake
	mu       sync.Mutex
	accepted int
	requests int
	eofs     int
}

func newFakePeer(tor *torrent.Torrent, content []byte) (*fakePeer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	f := &fakePeer{l: l, tor: tor, content: content}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f, nil
}

func (f *fakePeer) addr() netip.AddrPort { return f.l.Addr().(*net.TCPAddr).AddrPort() }

func (f *fakePeer) count(n *int) {
	f.mu.Lock()
	*n++
	f.mu.Unlock()
}

func (f *fakePeer) get(n *int) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return *n
}

func (f *fakePeer) serve(c net.Conn) {
	defer c.Close()
	f.count(&f.accepted)
	hs := make([]byte, 68)
	if _, err := io.ReadFull(c, hs); err != nil {
		return
	}
	if f.refuse {
		return
	}
	out := append([]byte{19}, "BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"...)
	out = append(append(out, f.tor.Hash...), "-XX0000-000000000000"...)
	c.Write(out)
	frame := func(b []byte) {
		c.Write(append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...))
	}
	for i := 0; i < f.tor.PiecesNum; i++ {
		frame(binary.BigEndian.AppendUint32([]byte{4}, uint32(i)))
	}
	frame([]byte{1})
	for {
		var h [4]byte
		if _, err := io.ReadFull(c, h[:]); err != nil {
			f.count(&f.eofs)
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[:]))
		if _, err := io.ReadFull(c, b); err != nil {
			f.count(&f.eofs)
			return
		}
		if len(b) == 13 && b[0] == 6 {
			f.count(&f.requests)
			i, o, n := binary.BigEndian.Uint32(b[1:]), binary.BigEndian.Uint32(b[5:]), binary.BigEndian.Uint32(b[9:])
			if f.hold != nil {
				<-f.hold
				time.Sleep(f.delay())
			}
			p := []byte{7}
			p = binary.BigEndian.AppendUint32(p, i)
			p = binary.BigEndian.AppendUint32(p, o)
			at := int(i)*int(f.tor.PieceLength) + int(o)
			if at+int(n) > len(f.content) {
				return
			}
			frame(append(p, f.content[at:at+int(n)]...))
		}
	}
}

// fakeTracker answers announces with a compact list.
func fakeTracker(t *testing.T, peers func() []netip.AddrPort) string {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
		var b []byte
		for _, p := range peers() {
			a := p.Addr().As4()
			b = append(b, a[:]...)
			b = binary.BigEndian.AppendUint16(b, p.Port())
		}
		fmt.Fprintf(w, "d5:peers%d:%se", len(b), b)
	}))
	t.Cleanup(srv.Close)
	return srv.URL
}

func mpeer(tor *torrent.Torrent, a netip.AddrPort) *peer.Peer {
	return peer.NewPeer(a, tor, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 64), zap.NewNop())
}
