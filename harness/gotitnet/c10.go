package gotitnet

import (
	"encoding/binary"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/util"
)

var c10ops = []struct {
	name  string
	write bool
	do    func(c *TimeoutConn) error
}{
	{"ReadPeerMessage", false, func(c *TimeoutConn) error { _, err := c.ReadPeerMessage(); return err }},
	{"ReadPeerHandshake", false, func(c *TimeoutConn) error { _, err := c.ReadPeerHandshake(); return err }},
	{"ReadAll", false, func(c *TimeoutConn) error { _, err := c.ReadAll(); return err }},
	{"ReadPacket", false, func(c *TimeoutConn) error { _, err := c.ReadPacket(); return err }},
	{"ReadUdpHandshake", false, func(c *TimeoutConn) error { _, err := c.ReadUdpHandshake(); return err }},
	{"WriteMsg", true, func(c *TimeoutConn) error { _, err := c.WriteMsg(util.CreatePieceMessage(1, 2, 3)); return err }},
	{"WriteMsg keepalive", true, func(c *TimeoutConn) error { _, err := c.WriteMsg(util.KeepalivePeerMessage); return err }},
	{"Write", true, func(c *TimeoutConn) error { _, err := c.Write([]byte("hello")); return err }},
}

func TestVerif_C10_deadlines(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 400*vscale(); i++ {
		timeout := time.Duration(r.Intn(100000)+1) * time.Millisecond
		if r.Intn(3) == 0 {
			timeout = time.Duration(r.Int63n(int64(1000 * time.Hour)))
		}
		n := r.Intn(200)
		data := binary.BigEndian.AppendUint32(nil, uint32(n))
		for len(data) < 2000 {
			data = append(data, byte(r.Intn(20)))
		}
		var chunks []int
		for k := r.Intn(60); k > 0; k-- {
			chunks = append(chunks, 1+r.Intn(9))
		}
		c := &vconn{data: data, chunks: chunks, failRd: r.Intn(30) - 5, failWr: r.Intn(5) == 0, short: r.Intn(5) == 0}
		tc := &TimeoutConn{c: c, timeout: timeout}
		// a history of operations on one connection
		for k := 0; k < 12; k++ {
			op := c10ops[r.Intn(len(c10ops))]
			c.failDl = r.Intn(6) == 0
			from := len(c.ops)
			pos := c.pos
			before := time.Now()
			err := op.do(tc)
			after := time.Now()
			vc.add(fmt.Sprintf("%s timeout %v deadline fails %v chunks %v", op.name, timeout, c.failDl, chunks))
			set := false
			for _, o := range c.ops[from:] {
				switch o.kind {
				case "rdl", "wdl", "dl":
					if o.kind == "rdl" && op.write || o.kind == "wdl" && !op.write {
						continue
					}
					if o.t.Before(before.Add(timeout)) || o.t.After(after.Add(timeout)) {
						vfail(t, "%s with timeout %v sets deadline %v after now", op.name, timeout, o.t.Sub(o.at))
					}
					set = o.ok
				case "read", "write":
					if (o.kind == "write") != op.write {
						vfail(t, "%s does a %s", op.name, o.kind)
					}
					if !set {
						vfail(t, "%s (timeout %v, setting the deadline fails: %v) does a %s without a fresh deadline; calls %v", op.name, timeout, c.failDl, o.kind, c10kinds(c.ops[from:]))
					}
				}
			}
			if c.failDl {
				if err == nil {
					vfail(t, "%s returns no error when the deadline cannot be set", op.name)
				}
				if c.pos != pos {
					vfail(t, "%s read %d bytes without deadline", op.name, c.pos-pos)
				}
			}
		}
	}
}

// writes of every size when the deadline cannot be set
func TestVerif_C10_sizes(t *testing.T) {
	vc := newVCases(t)
	for n := 0; n < 3000; n++ {
		if n > 300 && n%61 != 0 {
			continue
		}
		for _, fail := range []bool{true, false} {
			c := &vconn{failRd: -1, failDl: fail}
			tc := &TimeoutConn{c: c, timeout: time.Second}
			ops := map[string]func() error{"Write": func() error { _, err := tc.Write(make([]byte, n)); return err }}
			if n > 9 {
				body := make([]byte, n)
				body[0] = 7
				ops["WriteMsg"] = func() error { _, err := tc.WriteMsg(util.NewPeerMessage(body)); return err }
			}
			for name, op := range ops {
				c.ops, c.out = nil, nil
				err := op()
				vc.add(fmt.Sprintf("%s of %d bytes, setting the deadline fails: %v", name, n, fail))
				kinds := fmt.Sprint(c10kinds(c.ops))
				if fail && (err == nil || len(c.out) > 0) {
					vfail(t, "%s of %d bytes when the deadline cannot be set: error %v, calls %v", name, n, err, kinds)
				}
				if !fail && (err != nil || len(c.ops) == 0 || c.ops[0].kind == "write") {
					vfail(t, "%s of %d bytes: error %v, calls %v", name, n, err, kinds)
				}
			}
		}
	}
}

func c10kinds(ops []vop) []string {
	var s []string
	for _, o := range ops {
		s = append(s, o.kind)
	}
	return s
}

func TestVerif_C10_timeout_of_new_connection(t *testing.T) {
	vc := newVCases(t)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		t.Skip(err)
	}
	defer l.Close()
	for _, d := range []time.Duration{PeerTimeout, TrackerTimeout, time.Hour, 7 * time.Millisecond} {
		c, err := NewTimeoutConn("tcp", l.Addr().String(), d)
		if err != nil {
			vfail(t, "connect: %v", err)
		}
		vc.add(fmt.Sprint(d))
		rec := &vconn{data: make([]byte, 100), failRd: -1}
		c.Close()
		c.c = rec
		before := time.Now()
		c.ReadPeerHandshake()
		after := time.Now()
		if len(rec.ops) == 0 || rec.ops[0].t.Before(before.Add(d)) || rec.ops[0].t.After(after.Add(d)) {
			vfail(t, "connection made with timeout %v reads with %+v", d, rec.ops)
		}
	}
}
