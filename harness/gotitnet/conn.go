package gotitnet

import (
	"errors"
	"io"
	"net"
	"time"
)

var errV = errors.New("verif: i/o error")

type vop struct {
	kind string // read write rdl wdl dl close
	at   time.Time
	t    time.Time
	n    int
	data []byte
	ok   bool
}

// vconn is a connection whose stream, chunks and errors are scripted.
type vconn struct {
	data   []byte
	pos    int
	chunks []int // sizes of successive reads, then everything
	packet bool  // a read takes at most one packet of size chunks[i]
	failRd int   // read with this number fails (-1: none)
	failDl bool
	failWr bool
	eof    bool // the stream ends instead of failing
	short  bool // writes report and take only half
	nread  int
	ops    []vop
	out    [][]byte
}

func (c *vconn) Read(p []byte) (int, error) {
	i := c.nread
	c.nread++
	if c.failRd == i {
		c.ops = append(c.ops, vop{kind: "read", at: time.Now()})
		return 0, errV
	}
	n := len(c.data) - c.pos
	want := n
	if i < len(c.chunks) && c.chunks[i] < n {
		n = c.chunks[i]
		want = n
	}
	if n > len(p) {
		n = len(p)
	}
	if n == 0 && len(p) > 0 && c.pos == len(c.data) {
		c.ops = append(c.ops, vop{kind: "read", at: time.Now()})
		if c.eof {
			return 0, io.EOF
		}
		return 0, errV
	}
	copy(p, c.data[c.pos:c.pos+n])
	if c.packet {
		c.pos += want
	} else {
		c.pos += n
	}
	c.ops = append(c.ops, vop{kind: "read", at: time.Now(), n: n, ok: true})
	return n, nil
}

func (c *vconn) Write(p []byte) (int, error) {
	c.ops = append(c.ops, vop{kind: "write", at: time.Now(), n: len(p), data: append([]byte{}, p...)})
	if c.failWr {
		return 0, errV
	}
	if c.short {
		return len(p) / 2, errV
	}
	c.out = append(c.out, append([]byte{}, p...))
	return len(p), nil
}
func (c *vconn) Close() error                       { c.ops = append(c.ops, vop{kind: "close"}); return nil }
func (c *vconn) LocalAddr() net.Addr                { return nil }
func (c *vconn) RemoteAddr() net.Addr               { return nil }
func (c *vconn) SetDeadline(t time.Time) error      { return c.dl("dl", t) }
func (c *vconn) SetReadDeadline(t time.Time) error  { return c.dl("rdl", t) }
func (c *vconn) SetWriteDeadline(t time.Time) error { return c.dl("wdl", t) }
func (c *vconn) dl(kind string, t time.Time) error {
	c.ops = append(c.ops, vop{kind: kind, at: time.Now(), t: t, ok: !c.failDl})
	if c.failDl {
		return errV
	}
	return nil
}
