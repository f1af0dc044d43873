package torrent

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"testing"

	"github.com/anivanovic/gotit/pkg/stats"
	"github.com/anivanovic/gotit/pkg/util"
)

func vpieceMsg(i, o int, data []byte) *util.PeerMessage {
	b := []byte{7}
	b = binary.BigEndian.AppendUint32(b, uint32(i))
	b = binary.BigEndian.AppendUint32(b, uint32(o))
	return util.NewPeerMessage(append(b, data...))
}

func vwrite(t *Torrent, s *stats.Stats, msgs ...*util.PeerMessage) {
	ch := make(chan *util.PeerMessage, len(msgs))
	for _, m := range msgs {
		ch <- m
	}
	close(ch)
	t.WritePiece(ch, s)
}

// vlayout draws file lengths: many small ones, empty ones, long ones.
func vlayout(next func(int) int) []int {
	var lens []int
	for k := 1 + next(7); k > 0; k-- {
		switch next(5) {
		case 0:
			lens = append(lens, 0)
		case 1:
			lens = append(lens, 1+next(3))
		case 2:
			lens = append(lens, 1+next(200))
		default:
			lens = append(lens, 1+next(40))
		}
	}
	return lens
}

func c02run(t *testing.T, vc *vcases, single bool, lens []int, pl int, blocks [][3]int) {
	r := vrng()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c02")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	tr, content, err := vtorrent(r, dir, single, lens, pl)
	if err != nil {
		t.Fatalf("torrent %v: %v", lens, err)
	}
	defer tr.Close()
	// model: bytes of every file, -1 for bytes never written
	model := make([][]int, len(lens))
	for i, l := range lens {
		model[i] = make([]int, l)
		for j := range model[i] {
			model[i][j] = -1
		}
	}
	for _, b := range blocks {
		i, o, n := b[0], b[1], b[2]
		P := i*pl + o
		data := make([]byte, n)
		for k := range data {
			if P+k < len(content) {
				data[k] = content[P+k]
			} else {
				data[k] = byte(r.Intn(256))
			}
		}
		vwrite(tr, stats.NewStats(uint64(len(content))), vpieceMsg(i, o, data))
		vc.add(fmt.Sprintf("single %v files %v piece length %d block %v", single, lens, pl, b))
		start := 0
		for f, l := range lens {
			for x := 0; x < l; x++ {
				if start+x >= P && start+x < P+n {
					model[f][x] = int(data[start+x-P])
				}
			}
			start += l
		}
		fits := P+n <= start
		got, err := vfiles(dir, single, lens)
		if err != nil {
			t.Fatal(err)
		}
		for f := range lens {
			if !single && len(got[f]) > lens[f] {
				vfail(t, "files %v, piece length %d, blocks %v: file %d is %d bytes long after block %v", lens, pl, blocks, f, len(got[f]), b)
			}
			for x, v := range model[f] {
				have := -1
				if x < len(got[f]) {
					have = int(got[f][x])
				}
				switch {
				case v >= 0 && have != v && fits:
					vfail(t, "files %v, piece length %d: after block (piece %d, offset %d, %d bytes) byte %d of file %d is %d, expected %d", lens, pl, i, o, n, x, f, have, v)
				case v < 0 && have > 0:
					vfail(t, "files %v, piece length %d: after block (piece %d, offset %d, %d bytes) byte %d of file %d is %d, was never written", lens, pl, i, o, n, x, f, have)
				case v >= 0 && have >= 0 && have != v && have != 0:
					vfail(t, "files %v, piece length %d: block (piece %d, offset %d, %d bytes) that does not fit puts %d at byte %d of file %d, belongs %d", lens, pl, i, o, n, have, x, f, v)
				}
				if !fits && have >= 0 {
					model[f][x] = have
				}
			}
		}
	}
	_ = bytes.Equal
}

func TestVerif_C02_placement(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 400*vscale(); i++ {
		lens := vlayout(r.Intn)
		single := r.Intn(5) == 0
		total := 0
		for _, l := range lens {
			total += l
		}
		if total == 0 {
			continue
		}
		if single {
			lens = []int{total}
		}
		pl := 1 + r.Intn(total+3)
		if r.Intn(3) == 0 {
			pl = 1 + r.Intn(9)
		}
		num := (total + pl - 1) / pl
		var blocks [][3]int
		for k := 1 + r.Intn(6); k > 0; k-- {
			p := r.Intn(num)
			end := min(total, (p+1)*pl)
			o := 0
			if r.Intn(3) == 0 {
				o = r.Intn(end - p*pl)
			}
			n := end - p*pl - o
			if r.Intn(4) == 0 {
				n = r.Intn(n + 1)
			}
			blocks = append(blocks, [3]int{p, o, n})
		}
		if !single && r.Intn(4) == 0 {
			// past the end
			blocks = append(blocks, [3]int{num - 1, r.Intn(pl), 1 + r.Intn(total+pl)})
		}
		c02run(t, vc, single, lens, pl, blocks)
	}
}

// torrents of many gigabytes in sparse files; blocks of up to some megabytes
func TestVerif_C02_large(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 12*vscale(); i++ {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c02")
		if err != nil {
			t.Fatal(err)
		}
		tr, lens, total, pl := vlarge(t, r, dir, i%3 == 0)
		num := tr.PiecesNum
		ends := make([]int, len(lens))
		for k := 0; k < 12; k++ {
			p := r.Intn(num)
			end := min(total, (p+1)*pl)
			n := min(1+r.Intn(30000), end-p*pl)
			if k == 0 {
				n = min(1+r.Intn(6<<20), end-p*pl)
			}
			o := r.Intn(end - p*pl - n + 1)
			P := p*pl + o
			// aim at the border of two files
			if s := 0; k%2 == 1 {
				for _, l := range lens[:r.Intn(len(lens))] {
					s += l
				}
				if q := s - r.Intn(n); q > 0 && q+n <= total {
					P = q
					p, o = P/pl, P%pl
				}
			}
			data := make([]byte, n)
			r.Read(data)
			for j := range data {
				data[j] |= 1
			}
			vc.add(fmt.Sprintf("files %v piece length %d block (%d, %d, %d)", lens, pl, p, o, n))
			vwrite(tr, stats.NewStats(uint64(total)), vpieceMsg(p, o, data))
			start := 0
			for f, l := range lens {
				lo, hi := max(P, start), min(P+n, start+l)
				if lo < hi {
					ends[f] = max(ends[f], hi-start)
					got := make([]byte, hi-lo)
					tr.OsFiles[f].ReadAt(got, int64(lo-start))
					if !bytes.Equal(got, data[lo-P:hi-P]) {
						vfail(t, "files of %v bytes, piece length %d: block (piece %d, offset %d, %d bytes) is not found at byte %d of file %d", lens, pl, p, o, n, lo-start, f)
					}
				}
				start += l
				fi, err := tr.OsFiles[f].Stat()
				if err != nil {
					t.Fatal(err)
				}
				if fi.Size() != int64(ends[f]) {
					vfail(t, "files of %v bytes, piece length %d: after block (piece %d, offset %d, %d bytes) file %d is %d bytes long, last written byte is %d", lens, pl, p, o, n, f, fi.Size(), ends[f])
				}
			}
		}
		tr.Close()
		os.RemoveAll(dir)
	}
}

// every layout of up to four files of up to three bytes, every block
func TestVerif_C02_small_layouts(t *testing.T) {
	vc := newVCases(t)
	max := 3
	var lens []int
	var rec func(d int)
	n := 0
	rec = func(d int) {
		if len(lens) > 0 {
			total := 0
			for _, l := range lens {
				total += l
			}
			if total > 0 {
				n++
				for _, pl := range []int{1, 2, 3, 5} {
					num := (total + pl - 1) / pl
					var blocks [][3]int
					for p := 0; p < num; p++ {
						blocks = append(blocks, [3]int{(p*7 + n) % num, 0, min(total, ((p*7+n)%num+1)*pl) - ((p*7+n)%num)*pl})
					}
					if n%2 == 0 {
						blocks = append(blocks, [3]int{0, 0, total}, [3]int{0, 0, total + 1})
					}
					c02run(t, vc, false, append([]int{}, lens...), pl, blocks)
				}
			}
		}
		if d == 0 {
			return
		}
		for l := 0; l <= max; l++ {
			lens = append(lens, l)
			rec(d - 1)
			lens = lens[:len(lens)-1]
		}
	}
	rec(4)
}
