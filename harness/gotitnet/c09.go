package gotitnet

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"runtime"
	"testing"
	"time"
)

func c09chunks(r *rand.Rand, n int) []int {
	var c []int
	for k := 0; k < n; {
		s := 1 + r.Intn(7)
		if r.Intn(4) == 0 {
			s = 1 + r.Intn(3000)
		}
		c = append(c, s)
		k += s
	}
	if r.Intn(5) == 0 {
		return nil
	}
	return c
}

func TestVerif_C09_messages(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 3000*vscale(); i++ {
		var data []byte
		var bodies [][]byte
		for k := 1 + r.Intn(4); k > 0; k-- {
			n := r.Intn(40)
			switch r.Intn(12) {
			case 0:
				n = 0
			case 1:
				n = 255 + r.Intn(3)
			case 2:
				n = r.Intn(70000)
			case 3:
				n = []int{1, 2, 65535, 65536, 131072 + 9, 131073}[r.Intn(6)]
			}
			b := make([]byte, n)
			r.Read(b)
			bodies = append(bodies, b)
			data = binary.BigEndian.AppendUint32(data, uint32(n))
			data = append(data, b...)
		}
		tail := make([]byte, r.Intn(100))
		r.Read(tail)
		c := &vconn{data: append(data, tail...), chunks: c09chunks(r, len(data)), failRd: -1}
		tc := &TimeoutConn{c: c, timeout: time.Second}
		for k, b := range bodies {
			got, err := tc.ReadPeerMessage()
			vc.add(fmt.Sprintf("message of %d bytes, chunks %v", len(b), vshort(fmt.Sprint(c.chunks))))
			if err != nil || !bytes.Equal(got, b) {
				vfail(t, "message %d: sent %d bytes %s, read %d bytes %s error %v (chunks %v)", k, len(b), vshort(fmt.Sprintf("%x", b)), len(got), vshort(fmt.Sprintf("%x", got)), err, c.chunks)
			}
		}
		if c.pos != len(data) {
			vfail(t, "messages take %d bytes of the stream, %d consumed", len(data), c.pos)
		}
		// a stream that ends inside of the message, or fails
		cut := r.Intn(len(data) - len(bodies[len(bodies)-1]) + len(bodies[len(bodies)-1]))
		c = &vconn{data: data[:cut], chunks: c09chunks(r, cut), failRd: -1, eof: i%2 == 0}
		tc = &TimeoutConn{c: c, timeout: time.Second}
		end := 0
		for k, b := range bodies {
			end += 4 + len(b)
			got, err := tc.ReadPeerMessage()
			if (err == nil) != (end <= cut) {
				vfail(t, "stream cut at %d, message %d ends at %d: read %d bytes, error %v", cut, k, end, len(got), err)
			}
			if err != nil {
				break
			}
		}
	}
}

func TestVerif_C09_limit(t *testing.T) {
	vc := newVCases(t)
	for _, n := range []uint32{2<<20 - 1, 2 << 20, 2<<20 + 1, 3 << 20, 1 << 24, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1} {
		body := make([]byte, min(uint64(n), 2<<20))
		for i := range body {
			body[i] = byte(i * 7)
		}
		c := &vconn{data: append(binary.BigEndian.AppendUint32(nil, n), body...), failRd: -1}
		tc := &TimeoutConn{c: c, timeout: time.Second}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		got, err := tc.ReadPeerMessage()
		runtime.ReadMemStats(&b)
		vc.add(fmt.Sprintf("length %d", n))
		if n <= 2<<20 {
			if err != nil || !bytes.Equal(got, body) {
				vfail(t, "message of %d bytes: read %d bytes, error %v", n, len(got), err)
			}
			continue
		}
		if err == nil {
			vfail(t, "message of %d bytes is read, %d bytes returned", n, len(got))
		}
		if b.TotalAlloc-a.TotalAlloc > 1<<20 {
			vfail(t, "message of %d bytes: %d bytes allocated", n, b.TotalAlloc-a.TotalAlloc)
		}
	}
}

func TestVerif_C09_handshake(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 3000*vscale(); i++ {
		n := 60 + r.Intn(20)
		if i < 140 {
			n = i / 2
		}
		if r.Intn(3) == 0 {
			n = 68 + r.Intn(200)
		}
		d := make([]byte, n)
		r.Read(d)
		if r.Intn(2) == 0 && n > 20 {
			d[0] = 19
			copy(d[1:], "BitTorrent protocol")
		}
		c := &vconn{data: d, chunks: c09chunks(r, n), failRd: -1, eof: r.Intn(2) == 0}
		tc := &TimeoutConn{c: c, timeout: time.Second}
		got, err := tc.ReadPeerHandshake()
		vc.add(fmt.Sprintf("handshake stream of %d bytes, chunks %v", n, vshort(fmt.Sprint(c.chunks))))
		if n < 68 {
			if err == nil {
				vfail(t, "handshake of %d bytes read from a stream of %d bytes", len(got), n)
			}
			continue
		}
		if err != nil || !bytes.Equal(got, d[:68]) || c.pos != 68 {
			vfail(t, "handshake %x (chunks %v): read %x, consumed %d, error %v", d[:68], c.chunks, got, c.pos, err)
		}
	}
}

func TestVerif_C09_packet(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 500*vscale(); i++ {
		var data []byte
		var sizes []int
		for k := 1 + r.Intn(4); k > 0; k-- {
			n := 1 + r.Intn(300)
			switch r.Intn(8) {
			case 0:
				n = []int{1, 8, 16, 20, 26, 65507, 65506, 4096, 512, 511, 513}[r.Intn(11)]
			case 1:
				n = 1 + r.Intn(65507)
			}
			b := make([]byte, n)
			r.Read(b)
			data = append(data, b...)
			sizes = append(sizes, n)
		}
		c := &vconn{data: data, chunks: sizes, packet: true, failRd: -1}
		tc := &TimeoutConn{c: c, timeout: time.Second}
		pos := 0
		for _, n := range sizes {
			got, err := tc.ReadPacket()
			vc.add(fmt.Sprintf("packet of %d bytes", n))
			if err != nil || !bytes.Equal(got, data[pos:pos+n]) {
				vfail(t, "packet of %d bytes (of %v): read %d bytes, error %v", n, sizes, len(got), err)
			}
			pos += n
		}
		if got, err := tc.ReadPacket(); err == nil {
			vfail(t, "a failing read gives %d bytes and no error", len(got))
		}
	}
}
