package util

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
)

type recWriter struct{ writes [][]byte }

func (w *recWriter) Write(p []byte) (int, error) {
	w.writes = append(w.writes, append([]byte{}, p...))
	return len(p), nil
}

func c08be4(v uint32) []byte { return binary.BigEndian.AppendUint32(nil, v) }

func c08decode(t *testing.T, vc *vcases, d []byte) {
	in := append([]byte{}, d...)
	var m *PeerMessage
	if p := vpanic(func() { m = NewPeerMessage(d) }); p != "" {
		vfail(t, "NewPeerMessage(%.200x): %s", in, p)
	}
	vc.add(fmt.Sprintf("decode %.300x", in))
	if !bytes.Equal(in, d) {
		vfail(t, "NewPeerMessage(%.200x) changed its input to %x", in, d)
	}
	if len(in) == 0 {
		if m == nil || m.Type != KeepaliveMessageType {
			vfail(t, "empty body decodes to %+v", m)
		}
		return
	}
	need := map[byte]int{4: 5, 6: 13, 7: 9, 8: 13}
	if len(in) < need[in[0]] {
		if m == nil || m.Type == MessageType(in[0]) {
			vfail(t, "truncated body %.200x decodes to %+v", in, m)
		}
		return
	}
	if m == nil || byte(m.Type) != in[0] {
		vfail(t, "body %.200x decodes to %+v", in, m)
	}
	if !bytes.Equal(m.payload, in[1:]) {
		vfail(t, "body %.200x decodes to payload %.200x", in, m.payload)
	}
	switch in[0] {
	case 4:
		if m.Index() != binary.BigEndian.Uint32(in[1:]) {
			vfail(t, "have %x decodes to index %d", in, m.Index())
		}
	case 6, 8:
		if m.Index() != binary.BigEndian.Uint32(in[1:]) || m.Offset() != binary.BigEndian.Uint32(in[5:]) || m.BlockLength() != binary.BigEndian.Uint32(in[9:]) {
			vfail(t, "message %.200x decodes to index %d offset %d length %d", in, m.Index(), m.Offset(), m.BlockLength())
		}
	case 7:
		if m.Index() != binary.BigEndian.Uint32(in[1:]) || m.Offset() != binary.BigEndian.Uint32(in[5:]) || !bytes.Equal(m.Data(), in[9:]) {
			vfail(t, "piece %.200x decodes to index %d offset %d data %.200x", in, m.Index(), m.Offset(), m.Data())
		}
	}
	if in[0] != 7 && len(m.Data()) != 0 {
		vfail(t, "message %x has data %x", in, m.Data())
	}
}

func TestVerif_C08_decode(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	c08decode(t, vc, nil)
	c08decode(t, vc, []byte{})
	for ty := 0; ty < 256; ty++ {
		for n := 0; n < 40; n++ {
			d := make([]byte, 1+n)
			d[0] = byte(ty)
			for _, fill := range []byte{0, 0x7f, 0x80, 0xff} {
				for i := 1; i < len(d); i++ {
					d[i] = fill
				}
				c08decode(t, vc, d)
			}
		}
	}
	for i := 0; i < 20000*vscale(); i++ {
		n := r.Intn(64)
		if i%50 == 0 {
			n = r.Intn(20000)
		}
		if i%500 == 0 {
			n = r.Intn(2 << 20)
		}
		d := make([]byte, 1+n)
		r.Read(d)
		if r.Intn(4) > 0 {
			d[0] = byte(r.Intn(10))
		}
		c08decode(t, vc, d)
	}
}

func c08send(t *testing.T, vc *vcases, what string, m *PeerMessage, want []byte) {
	w := &recWriter{}
	vc.add("send " + what)
	if p := vpanic(func() { m.Send(w) }); p != "" {
		vfail(t, "sending %s: %s", what, p)
	}
	if len(w.writes) != 1 || !bytes.Equal(w.writes[0], want) {
		vfail(t, "%s is sent as %.200x in %d writes, expected %.200x in one", what, bytes.Join(w.writes, nil), len(w.writes), want)
	}
	if len(want) > 4 {
		got := NewPeerMessage(want[4:])
		if got.Type != m.Type || !bytes.Equal(got.payload, m.payload) || got.Index() != m.Index() && m.Type != HaveMessageType || got.Offset() != m.Offset() && m.Type != PieceMessageType || got.BlockLength() != m.BlockLength() {
			vfail(t, "%s (%.200v) decodes to %.200v after encoding", what, m, got)
		}
	}
}

func TestVerif_C08_encode(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	c08send(t, vc, "keepalive", KeepalivePeerMessage, []byte{0, 0, 0, 0})
	c08send(t, vc, "interested", CreateInterestedMessage(), []byte{0, 0, 0, 1, 2})
	c08send(t, vc, "choke", CreateChokeMessage(), []byte{0, 0, 0, 1, 0})
	c08send(t, vc, "unchoke", CreateUnchokeMessage(), []byte{0, 0, 0, 1, 1})
	vals := []uint32{0, 1, 2, 127, 128, 255, 256, 65535, 65536, 1 << 17, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}
	req := func(i, o, l uint32) {
		want := append([]byte{0, 0, 0, 13, 6}, bytes.Join([][]byte{c08be4(i), c08be4(o), c08be4(l)}, nil)...)
		m := CreatePieceMessage(i, o, l)
		if m.Index() != i || m.Offset() != o || m.BlockLength() != l || m.Type != RequestMessageType {
			vfail(t, "request %d %d %d is %+v", i, o, l, m)
		}
		c08send(t, vc, fmt.Sprintf("request %d %d %d", i, o, l), m, want)
	}
	for _, i := range vals {
		for _, o := range vals {
			for _, l := range vals {
				req(i, o, l)
			}
		}
	}
	for i := 0; i < 5000*vscale(); i++ {
		req(r.Uint32(), r.Uint32(), r.Uint32())
	}
	// received messages sent on
	for i := 0; i < 5000*vscale(); i++ {
		d := make([]byte, 1+r.Intn(200))
		r.Read(d)
		d[0] = byte(r.Intn(12))
		m := NewPeerMessage(append([]byte{}, d...))
		if m.Type == InvalidMessageType {
			continue
		}
		c08send(t, vc, fmt.Sprintf("message %x", d), m, append(c08be4(uint32(len(d))), d...))
	}
	for n := 0; n < 350; n++ {
		d := make([]byte, 1+n*37)
		if n >= 300 {
			d = make([]byte, 1+r.Intn(2<<20))
		}
		r.Read(d)
		d[0] = byte([]int{5, 7}[n%2])
		if d[0] == 7 && len(d) < 9 {
			continue
		}
		c08send(t, vc, fmt.Sprintf("message of type %d, payload of %d bytes", d[0], len(d)-1), NewPeerMessage(append([]byte{}, d...)), append(c08be4(uint32(len(d))), d...))
	}
}
