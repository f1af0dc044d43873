package peer

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/netip"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestVerif_C11_valid(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	check := func(h, hash []byte) {
		want := len(h) >= 68 && h[0] == 19 && string(h[1:20]) == "BitTorrent protocol" && bytes.Equal(h[28:48], hash)
		var got bool
		id := make([]byte, 20)
		r.Read(id)
		if m := vpanic(func() { got = isHandshakeValid(h, hash, id) }); m != "" {
			vfail(t, "handshake %x, hash %x: %s", h, hash, m)
		}
		vc.add(fmt.Sprintf("%x %x", h, hash))
		if got != want {
			vfail(t, "handshake %x, hash %x: accepted %v, expected %v", h, hash, got, want)
		}
	}
	for i := 0; i < 300*vscale(); i++ {
		hash := make([]byte, 20)
		r.Read(hash)
		h := make([]byte, 68)
		r.Read(h)
		h[0] = 19
		copy(h[1:], "BitTorrent protocol")
		copy(h[28:], hash)
		check(h, hash)
		for j := range h { // one byte off
			b := append([]byte{}, h...)
			b[j] ^= byte(1 + r.Intn(255))
			check(b, hash)
		}
		for _, n := range []int{0, 1, 19, 20, 28, 47, 48, 67} {
			check(h[:n], hash)
		}
		check(append(h, make([]byte, r.Intn(100))...), hash)
		g := make([]byte, r.Intn(100))
		r.Read(g)
		check(g, hash)
	}
}

func TestVerif_C11_handshake(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 300*vscale(); i++ {
		hash := make([]byte, 20)
		r.Read(hash)
		vc.add(fmt.Sprintf("%x", hash))
		want := append(append(append([]byte("\x13BitTorrent protocol"), make([]byte, 8)...), hash...), ClientId...)
		if h := createHandshake(hash); !bytes.Equal(h, want) || len(h) != 68 {
			vfail(t, "handshake for hash %x is %x, expected %x", hash, h, want)
		}
	}
	if len(ClientId) != 20 || string(ClientId[:8]) != "-GO0100-" {
		vfail(t, "client id %q", ClientId)
	}
	for i := 0; i < 50; i++ {
		if id := createClientId(); len(id) != 20 || string(id[:8]) != "-GO0100-" {
			vfail(t, "client id %q", id)
		}
	}
}

// the exchange with a real connection
func TestVerif_C11_announce(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	tr, _, err := vtorrent(r, 100, 10)
	if err != nil {
		t.Fatal(err)
	}
	good := append(append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"), tr.Hash...), "-XX0000-000000000000"...)
	type tc struct {
		name  string
		reply []byte
		ok    bool
	}
	cases := []tc{{"valid", good, true}, {"valid, more after it", append(append([]byte{}, good...), 0, 0, 0, 1, 1), true}, {"no reply", nil, false}, {"short", good[:60], false}, {"one byte short", good[:67], false}}
	for _, j := range []int{0, 1, 19, 28, 40, 47} {
		b := append([]byte{}, good...)
		b[j] ^= 0x20
		cases = append(cases, tc{fmt.Sprintf("byte %d wrong", j), b, false})
	}
	for _, j := range []int{20, 27, 48, 67} {
		b := append([]byte{}, good...)
		b[j] ^= 0x20
		cases = append(cases, tc{fmt.Sprintf("byte %d different", j), b, true})
	}
	type out struct {
		sent   []byte
		closed bool
	}
	for _, c := range cases {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Skip(err)
		}
		res := make(chan out, 1)
		go func() {
			c0, err := l.Accept()
			if err != nil {
				res <- out{}
				return
			}
			defer c0.Close()
			c0.SetDeadline(time.Now().Add(4 * time.Second))
			b := make([]byte, 68)
			n, _ := io.ReadFull(c0, b)
			c0.Write(c.reply)
			_, err = c0.Read(make([]byte, 1))
			ne, to := err.(net.Error)
			res <- out{b[:n], err != nil && !(to && ne.Timeout())}
		}()
		p := NewPeer(netip.MustParseAddrPort(l.Addr().String()), tr, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 1), zap.NewNop())
		err = p.Announce(tr)
		vc.add(c.name)
		if (err == nil) != c.ok {
			vfail(t, "reply %s (%x): announce returns %v", c.name, c.reply, err)
		}
		if c.ok {
			// stays open until it is closed
			time.Sleep(20 * time.Millisecond)
			select {
			case o := <-res:
				vfail(t, "reply %s: accepted peer is disconnected (%v)", c.name, o.closed)
			default:
			}
			p.Close()
		}
		o := <-res
		want := append(append([]byte("\x13BitTorrent protocol\x00\x00\x00\x00\x00\x00\x00\x00"), tr.Hash...), ClientId...)
		if !bytes.Equal(o.sent, want) {
			vfail(t, "we send %x, expected %x", o.sent, want)
		}
		if !c.ok && !o.closed {
			vfail(t, "reply %s: the peer is not accepted, but the connection stays open", c.name)
		}
		l.Close()
	}
}
