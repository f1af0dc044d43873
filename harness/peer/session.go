package peer

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/torrent"
	"github.com/anivanovic/gotit/pkg/util"
)

// vstep handles one message of the client: checks what may be said at this point.
func (v *vremote) vcheck(b []byte) {
	if len(b) == 0 {
		return // keepalive
	}
	switch b[0] {
	case 2:
		v.interested = true
	case 3:
		v.interested = false
	case 6:
		if len(b) != 13 {
			v.fail("request of %d bytes", len(b))
			return
		}
		q := [3]uint32{binary.BigEndian.Uint32(b[1:]), binary.BigEndian.Uint32(b[5:]), binary.BigEndian.Uint32(b[9:])}
		v.reqs = append(v.reqs, q)
		if v.choked {
			v.fail("block %v requested while choked", q)
		}
		if !v.interested {
			v.fail("block %v requested before we were told of interest", q)
		}
		for o, at := range v.outstanding {
			// the client gives a request up after its timeout of a second
			if time.Since(at) < 700*time.Millisecond {
				v.fail("block %v requested while %v is unanswered", q, o)
			}
			delete(v.outstanding, o)
		}
		v.outstanding[q] = time.Now()
	}
}

// vrandomScript acts as a peer that answers, garbles, chokes, stalls and hangs up.
func vrandomScript(r *rand.Rand, end time.Time) func(v *vremote) {
	return func(v *vremote) {
		num := v.t.PiecesNum
		for i := 0; i < num; i++ {
			if r.Intn(4) > 0 {
				if v.send(vhave(uint32(i))) != nil {
					return
				}
			}
		}
		unchoke := func() error {
			v.choked = false
			return v.send([]byte{1})
		}
		for time.Now().Before(end) {
			if v.choked {
				b, err := v.read(300 * time.Millisecond)
				if err != nil {
					return
				}
				if b != nil {
					v.vcheck(b)
				}
				if v.interested && r.Intn(3) > 0 {
					if unchoke() != nil {
						return
					}
				}
				continue
			}
			b, err := v.read(1500 * time.Millisecond)
			if err != nil {
				return
			}
			if b == nil {
				if v.send(vhave(uint32(r.Intn(num)))) != nil {
					return
				}
				continue
			}
			v.vcheck(b)
			if len(b) == 0 || b[0] != 6 {
				continue
			}
			q := v.reqs[len(v.reqs)-1]
			from := int(q[0])*v.pl + int(q[1])
			if from+int(q[2]) > len(v.data) {
				v.fail("request %v is past the end of the torrent (%d pieces of %d, %d bytes)", q, num, v.pl, len(v.data))
				return
			}
			block := append([]byte{}, v.data[from:from+int(q[2])]...)
			switch k := r.Intn(20); {
			case k < 10: // answer
				delete(v.outstanding, q)
				if v.send(vpieceBody(q[0], q[1], block)) != nil {
					return
				}
				v.good[q[0]] = true
			case k < 12: // garbled answer
				off := q[1]
				if r.Intn(3) == 0 {
					off += 1 << r.Intn(32)
				} else {
					block[r.Intn(len(block))] ^= 1
				}
				delete(v.outstanding, q)
				if v.send(vpieceBody(q[0], off, block)) != nil {
					return
				}
			case k < 13: // something else first, then the answer
				for j := r.Intn(3); j >= 0; j-- {
					v.send([][]byte{{}, {2}, {3}, {6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, vhave(uint32(r.Intn(num))), {8, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, {20, 1, 2}}[r.Intn(7)])
				}
				delete(v.outstanding, q)
				if v.send(vpieceBody(q[0], q[1], block)) != nil {
					return
				}
				v.good[q[0]] = true
			case k < 14: // an unasked for piece, no answer
				o := uint32(r.Intn(num))
				if o == q[0] {
					continue
				}
				v.send(vpieceBody(o, 0, []byte("junk")))
				v.vquiet(1300 * time.Millisecond)
			case k < 16: // stall
				if !v.vquiet(time.Duration(800+r.Intn(900)) * time.Millisecond) {
					return
				}
			case k < 19: // choke instead of an answer
				v.choked = true
				if v.send([]byte{0}) != nil {
					return
				}
				delete(v.outstanding, q)
				v.interested = true
				if !v.vquietChoked(200*time.Millisecond, r) {
					return
				}
			default: // hang up
				return
			}
		}
	}
}

// vquiet reads what the client says for d without answering.
func (v *vremote) vquiet(d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end); {
		b, err := v.read(time.Until(end))
		if err != nil {
			return false
		}
		if b != nil {
			v.vcheck(b)
		}
	}
	return true
}

func (v *vremote) vquietChoked(d time.Duration, r *rand.Rand) bool {
	return v.vquiet(d)
}

// vsessions runs n random sessions in parallel and returns their failures.
func vsessions(t *testing.T, vc *vcases, n int, length time.Duration, check func(v *vremote, p *Peer, pq *torrent.PiecesQueue, ch chan *util.PeerMessage)) {
	seed := vrng().Int63()
	var wg sync.WaitGroup
	var mu sync.Mutex
	sem := make(chan bool, 150)
	var fails []string
	for i := 0; i < n; i++ {
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := rand.New(rand.NewSource(seed + int64(i)))
			pl := 1 + r.Intn(60)
			if r.Intn(3) == 0 {
				pl = 1 + r.Intn(131072)
			}
			num := 1 + r.Intn(14)
			total := pl*num - r.Intn(pl)
			tr, data, err := vtorrent(r, total, pl)
			if err != nil {
				t.Error(err)
				return
			}
			pq := torrent.NewPiecesQueue()
			ch := make(chan *util.PeerMessage, 10000)
			v, p, err := vsession(tr, data, pl, pq, ch, length, vrandomScript(r, time.Now().Add(length-500*time.Millisecond)))
			if err != nil {
				// connecting failed: nothing was shown
				return
			}
			if check != nil {
				check(v, p, pq, ch)
			}
			mu.Lock()
			defer mu.Unlock()
			vc.add(fmt.Sprintf("session %d: %d pieces of %d, %d requests, log %v", i, num, pl, len(v.reqs), v.log))
			for _, f := range v.fails {
				fails = append(fails, fmt.Sprintf("session %d (%d bytes, piece length %d): %s; log %v", i, total, pl, f, vtail(v.log, 40)))
			}
		}()
	}
	wg.Wait()
	if len(fails) > 0 {
		vfail(t, "%s", fails[0])
	}
}

func vtail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
