package peer

import (
	"context"
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/netip"
	"os"
	"sync"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

var vhash = sha1.Sum([]byte("d4:name7:contente"))

// vtorrent builds a single file torrent of random content through torrent.New.
func vtorrent(r *rand.Rand, total, pl int) (*torrent.Torrent, []byte, error) {
	content := make([]byte, total)
	r.Read(content)
	return vtorrentOf(content, pl)
}

func vtorrentOf(content []byte, pl int) (*torrent.Torrent, []byte, error) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "peer")
	if err != nil {
		return nil, nil, err
	}
	defer os.RemoveAll(dir)
	m := &bencode.Metainfo{Announce: "http://tracker.invalid/a"}
	var digests []byte
	for p := 0; p < len(content); p += pl {
		h := sha1.Sum(content[p:min(p+pl, len(content))])
		digests = append(digests, h[:]...)
	}
	m.Info.Name = "content"
	m.Info.PieceLength = int64(pl)
	m.Info.Pieces = string(digests)
	m.Info.Length = int64(len(content))
	m.InfoDictRaw = []byte("d4:name7:contente")
	t, err := torrent.New(m, dir, zap.NewNop())
	if err != nil {
		return nil, nil, err
	}
	t.Close()
	return t, content, nil
}

func vpieceBody(i, o uint32, data []byte) []byte {
	b := []byte{7}
	b = binary.BigEndian.AppendUint32(b, i)
	b = binary.BigEndian.AppendUint32(b, o)
	return append(b, data...)
}

func vhave(i uint32) []byte { return binary.BigEndian.AppendUint32([]byte{4}, i) }

// vremote is the other side of a session.
type vremote struct {
	c     net.Conn
	t     *torrent.Torrent
	data  []byte
	pl    int
	log   []string
	mu    sync.Mutex
	fails []string

	interested  bool
	choked      bool // we choke the client
	outstanding map[[3]uint32]time.Time
	good        map[uint32]bool // pieces answered correctly
	reqs        [][3]uint32
}

func (v *vremote) fail(format string, a ...any) {
	v.mu.Lock()
	v.fails = append(v.fails, fmt.Sprintf(format, a...))
	v.mu.Unlock()
}

func (v *vremote) send(body []byte) error {
	v.log = append(v.log, fmt.Sprintf("send %.12x(%d)", body, len(body)))
	b := binary.BigEndian.AppendUint32(nil, uint32(len(body)))
	_, err := v.c.Write(append(b, body...))
	return err
}

// read returns the next message of the client; nil, nil when none came in d.
func (v *vremote) read(d time.Duration) ([]byte, error) {
	v.c.SetReadDeadline(time.Now().Add(d))
	h := make([]byte, 4)
	n, err := io.ReadFull(v.c, h)
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() && n == 0 {
			return nil, nil
		}
		return nil, err
	}
	v.c.SetReadDeadline(time.Now().Add(5 * time.Second))
	b := make([]byte, binary.BigEndian.Uint32(h))
	if _, err := io.ReadFull(v.c, b); err != nil {
		return nil, err
	}
	v.log = append(v.log, fmt.Sprintf("got %.13x", b))
	return b, nil
}

// vsession connects a real peer to script and runs it until script returns
// or limit has passed. It returns the remote side after Run has returned.
func vsession(t *torrent.Torrent, data []byte, pl int, pq *torrent.PiecesQueue, ch chan *util.PeerMessage, limit time.Duration, script func(v *vremote)) (*vremote, *Peer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	v := &vremote{t: t, data: data, pl: pl, choked: true, outstanding: map[[3]uint32]time.Time{}, good: map[uint32]bool{}}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			done <- err
			return
		}
		v.c = c
		h := make([]byte, 68)
		c.SetReadDeadline(time.Now().Add(5 * time.Second))
		if _, err := io.ReadFull(c, h); err != nil {
			done <- err
			return
		}
		c.Write(append(append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"), t.Hash...), "-XX0000-000000000000"...))
		script(v)
		done <- nil
		cancel()
	}()
	ap := netip.MustParseAddrPort(l.Addr().String())
	p := NewPeer(ap, t, pq, ch, zap.NewNop())
	if err := p.Announce(t); err != nil {
		return nil, nil, fmt.Errorf("announce: %v", err)
	}
	ran := make(chan string, 1)
	go func() {
		ran <- vpanic(func() { p.Run(ctx) })
	}()
	var msg string
	select {
	case msg = <-ran:
	case <-time.After(limit + 20*time.Second):
		v.fail("Run does not return after its context ended")
	}
	p.Close()
	if msg != "" {
		v.fail("Run: %s", msg)
	}
	select {
	case err := <-done:
		if err != nil {
			return nil, nil, err
		}
	case <-time.After(20 * time.Second):
	}
	if v.c != nil {
		v.c.Close()
	}
	return v, p, nil
}
