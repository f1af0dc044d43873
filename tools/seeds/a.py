SEEDS = [
dict(id="s01", property="C04", pkg="pkg/torrent", needs="a peer whose lowest piece not below the first unassigned one was already assigned",
 what="only one candidate is looked at: when it was given out before, no piece is given although the peer has others that were never given out",
 edits=[("pkg/torrent/torrent.go", """	for i, exists := t.requested.NextClear(0); exists; i, exists = t.requested.NextClear(i + 1) {
		if !have.Test(i) {
			continue
		}

		t.requested.Set(i)
		return i, true
	}

	return 0, false""", """	i, exists := t.requested.NextClear(0)
	if exists {
		// first piece of the peer from there on
		i, exists = have.NextSet(i)
	}
	if !exists || i >= uint(t.PiecesNum) || t.requested.Test(i) {
		return 0, false
	}

	t.requested.Set(i)
	return i, true""")],
 test='''package torrent

import (
	"sync"
	"testing"

	"github.com/bits-and-blooms/bitset"
)

func TestDemoNext(t *testing.T) {
	tr := &Torrent{PiecesNum: 40, requested: bitset.New(40), requestedMu: &sync.Mutex{}}
	have := bitset.New(40)
	have.Set(11)
	have.Set(30)
	for _, want := range []uint{11, 30} {
		if i, ok := tr.Next(have); !ok || i != want {
			t.Fatal(i, ok)
		}
	}
}
'''),
dict(id="s02", property="C04", pkg="pkg/torrent", needs="two peers asking for a piece at the same time", race=True,
 what="the search runs under the lock, but the piece is marked as assigned after it was released and taken again, so two concurrent peers can be given the same piece",
 edits=[("pkg/torrent/torrent.go", '''	t.requestedMu.Lock()
	defer t.requestedMu.Unlock()

	for i, exists := t.requested.NextClear(0); exists; i, exists = t.requested.NextClear(i + 1) {
		if !have.Test(i) {
			continue
		}

		t.requested.Set(i)
		return i, true
''', '''	t.requestedMu.Lock()
	next, exists := t.requested.NextClear(0)
	t.requestedMu.Unlock()

	for i := next; exists && i < uint(t.PiecesNum); i++ {
		if !have.Test(i) || t.isRequested(i) {
			continue
		}

		t.requestedMu.Lock()
		t.requested.Set(i)
		t.requestedMu.Unlock()
		return i, true
'''), ("pkg/torrent/torrent.go", '''func (t *Torrent) Done() bool {''', '''func (t *Torrent) isRequested(i uint) bool {
	t.requestedMu.Lock()
	defer t.requestedMu.Unlock()
	return t.requested.Test(i)
}

func (t *Torrent) Done() bool {''')],
 test='''package torrent

import (
	"fmt"
	"os"
	"sync"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/bits-and-blooms/bitset"
	"go.uber.org/zap"
)

func TestDemoNext(t *testing.T) {
	dir := t.TempDir()
	for round := 0; round < 300; round++ {
		m := &bencode.Metainfo{}
		n := 2000
		m.Info.Name = fmt.Sprint("f", round)
		m.Info.Length = int64(n)
		m.Info.PieceLength = 1
		m.Info.Pieces = string(make([]byte, 20*n))
		tr, err := New(m, dir, zap.NewNop())
		if err != nil {
			t.Fatal(err)
		}
		tr.Close()
		os.Remove(dir + "/" + m.Info.Name)
		var mu sync.Mutex
		seen := map[uint]bool{}
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				have := bitset.New(uint(n))
				for i := 0; i < n; i++ {
					have.Set(uint(i))
				}
				for {
					i, ok := tr.Next(have)
					if !ok {
						return
					}
					mu.Lock()
					if seen[i] {
						t.Errorf("piece %d twice", i)
					}
					seen[i] = true
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if t.Failed() {
			return
		}
	}
}
'''),
dict(id="s03", property="C08", pkg="pkg/util", needs="a piece message whose offset is not 0",
 what="the offset of a received piece message is decoded from the wrong bytes when the piece carries more than one block of 16 KiB",
 edits=[("pkg/util/peer_message.go", """		msg.offset = binary.BigEndian.Uint32(msg.payload[4:8])
	default:""", """		msg.offset = uint32(binary.BigEndian.Uint16(msg.payload[6:8]))
		if len(msg.payload) <= 8+1<<14 {
			msg.offset |= uint32(binary.BigEndian.Uint16(msg.payload[4:6])) << 16
		}
	default:""")],
 test='''package util

import "testing"

func TestDemoPiece(t *testing.T) {
	d := make([]byte, 9+20000)
	copy(d, []byte{7, 0, 0, 0, 1, 0, 2, 0, 0})
	if m := NewPeerMessage(d); m.Offset() != 2<<16 {
		t.Fatal(m.Offset())
	}
}
'''),
dict(id="s04", property="C09", pkg="pkg/gotitnet", needs="a peer whose message arrives in more than one segment, cut inside of the body",
 what="a message body that arrives in pieces is returned with its end missing (zeros)",
 edits=[("pkg/gotitnet/connection.go", '''	if _, err := io.ReadFull(c.c, buf); err != nil {
		return nil, err
	}
	return buf, nil''', '''	n, err := io.ReadAtLeast(c.c, buf, min(len, 512))
	if err != nil {
		return nil, err
	}
	if n < len {
		// rest of the data is on its way
		if m, err := c.c.Read(buf[n:]); err != nil {
			return nil, err
		} else if m == 0 {
			return nil, io.ErrUnexpectedEOF
		}
	}
	return buf, nil''')],
 test='''package gotitnet

import (
	"bytes"
	"net"
	"testing"
	"time"
)

func TestDemoSegments(t *testing.T) {
	a, b := net.Pipe()
	body := bytes.Repeat([]byte{7}, 3000)
	go func() {
		a.Write([]byte{0, 0, 0x0b, 0xb8})
		for i := 0; i < 3000; i += 600 {
			a.Write(body[i : i+600])
		}
		a.Close()
	}()
	c := &TimeoutConn{c: b, timeout: time.Second}
	got, err := c.ReadPeerMessage()
	if err != nil || !bytes.Equal(got, body) {
		t.Fatal(err, got)
	}
}
'''),
dict(id="s05", property="C10", pkg="pkg/gotitnet", needs="a peer message whose length was read but whose body never comes, long after the deadline was set once",
 what="the read deadline of a peer message is set only when the previous one has passed half of the timeout, so a read can run with a nearly used up or stale deadline",
 edits=[("pkg/gotitnet/connection.go", '''	timeout time.Duration
}
''', '''	timeout time.Duration
	// last read deadline
	deadline time.Time
}
'''), ("pkg/gotitnet/connection.go", '''	return c.c.SetReadDeadline(time.Now().Add(c.timeout))''', '''	if left := time.Until(c.deadline); left > c.timeout/2 {
		return nil
	}
	c.deadline = time.Now().Add(c.timeout)
	return c.c.SetReadDeadline(c.deadline)''')],
 test='''package gotitnet

import (
	"net"
	"testing"
	"time"
)

type recConn struct {
	net.Conn
	set int
}

func (r *recConn) SetReadDeadline(t time.Time) error { r.set++; return nil }
func (r *recConn) Read(b []byte) (int, error)        { clear(b); return len(b), nil }

func TestDemoDeadline(t *testing.T) {
	r := &recConn{}
	c := &TimeoutConn{c: r, timeout: time.Second}
	c.ReadPeerMessage()
	c.ReadPeerMessage()
	if r.set != 2 {
		t.Fatal(r.set, "deadlines for 2 reads")
	}
}
'''),
dict(id="s06", property="C02", pkg="pkg/torrent", needs="an empty file after the first file a block is written to",
 what="a block that spans an empty file in the middle is shifted by a byte in the file after it",
 edits=[("pkg/torrent/torrent.go", """		data = data[toWrite:]
		piecePoss = 0
		fileIdx++
	}
""", """		data = data[toWrite:]
		if available > 0 {
			piecePoss = 0
		}
		fileIdx++
		if len(data) > 0 && fileIdx < len(t.TorrentFiles) && t.TorrentFiles[fileIdx].Length == 0 {
			// nothing to write to an empty file
			piecePoss = 1
			fileIdx++
		}
	}
""")],
 test='''package torrent

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemoEmptyFile(t *testing.T) {
	dir := t.TempDir()
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 6
	m.Info.Pieces = string(make([]byte, 40))
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"a"}, Length: 4}, {Path: []string{"b"}}, {Path: []string{"c"}, Length: 5}}
	tr, err := New(m, dir, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	ch := make(chan *util.PeerMessage, 1)
	ch <- util.NewPeerMessage(append([]byte{7, 0, 0, 0, 0, 0, 0, 0, 0}, "abcdef"...))
	close(ch)
	tr.WritePiece(ch, stats.NewStats(9))
	c, err := os.ReadFile(filepath.Join(dir, "x", "c"))
	if err != nil || string(c) != "ef" {
		t.Fatalf("%q %v", c, err)
	}
}
'''),
dict(id="s07", property="C03", pkg="pkg/torrent", needs="a write error on a block that ends its piece",
 what="a piece whose last block could not be written is marked as downloaded",
 edits=[("pkg/torrent/torrent.go", '''				zap.Int("offset", int(msg.Offset())),
				zap.Error(err))
			continue
		}''', '''				zap.Int("offset", int(msg.Offset())),
				zap.Error(err))
			if msg.Offset() == 0 && piecePoss+len(msg.Data()) > t.PieceLength {
				continue
			}
		}''')],
 test='''package torrent

import (
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
	"go.uber.org/zap"
)

func TestDemoFailedWrite(t *testing.T) {
	m := &bencode.Metainfo{}
	m.Info.Name = "x"
	m.Info.PieceLength = 6
	m.Info.Length = 6
	m.Info.Pieces = string(make([]byte, 20))
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	tr.Close() // every write fails
	ch := make(chan *util.PeerMessage, 1)
	ch <- util.NewPeerMessage(append([]byte{7, 0, 0, 0, 0, 0, 0, 0, 0}, "abcdef"...))
	close(ch)
	tr.WritePiece(ch, stats.NewStats(6))
	if tr.Done() {
		t.Fatal("done, but nothing was written")
	}
}
'''),
]
