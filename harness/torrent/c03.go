package torrent

import (
	"fmt"
	"os"
	"testing"

	"github.com/anivanovic/gotit/pkg/stats"
)

func c03marks(tr *Torrent) []bool {
	m := make([]bool, tr.PiecesNum)
	for i := range m {
		m[i] = tr.downloaded.Test(uint(i))
	}
	return m
}

func TestVerif_C03_marks(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 500*vscale(); i++ {
		lens := vlayout(r.Intn)
		total := 0
		for _, l := range lens {
			total += l
		}
		if total == 0 {
			continue
		}
		single := r.Intn(4) == 0
		if single {
			lens = []int{total}
		}
		pl := 1 + r.Intn(total+3)
		if r.Intn(2) == 0 {
			pl = 1 + r.Intn(9)
		}
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c03")
		if err != nil {
			t.Fatal(err)
		}
		tr, content, err := vtorrent(r, dir, single, lens, pl)
		if err != nil {
			t.Fatal(err)
		}
		num := tr.PiecesNum
		want := make([]bool, num)
		var hist []string
		broken := -1
		for k := 0; k < 3*num+4 && k < 60; k++ {
			if r.Intn(12) == 0 && broken < 0 {
				// the disk fails for one file from here on
				broken = r.Intn(len(lens))
				if lens[broken] == 0 {
					broken = -1
					continue
				}
				tr.OsFiles[broken].Close()
				hist = append(hist, fmt.Sprintf("file %d fails", broken))
			}
			p := r.Intn(num)
			if r.Intn(2) == 0 {
				p = k % num
			}
			end := min(total, (p+1)*pl)
			o := 0
			if r.Intn(4) == 0 {
				o = r.Intn(end - p*pl)
			}
			n := end - p*pl - o
			if r.Intn(4) == 0 {
				n = r.Intn(n + 1)
			}
			if r.Intn(8) == 0 && end < total-1 {
				// runs on into the next pieces
				n = end - p*pl - o + 1 + r.Intn(total-end-1)
			}
			P := p*pl + o
			// does the write succeed
			ok := true
			s := 0
			for f, l := range lens {
				if f == broken && P < s+l && s < P+n {
					ok = false
				}
				s += l
			}
			if n == 0 {
				// writing nothing: skip, nothing is said about it
				continue
			}
			if ok && P+n == end {
				want[p] = true
			}
			vwrite(tr, stats.NewStats(uint64(total)), vpieceMsg(p, o, content[P:P+n]))
			hist = append(hist, fmt.Sprintf("(piece %d offset %d length %d)", p, o, n))
			vc.add(fmt.Sprintf("files %v piece length %d: %v", lens, pl, hist))
			got := c03marks(tr)
			all := true
			for j := range want {
				if got[j] != want[j] {
					vfail(t, "files %v (single %v), piece length %d, history %v: piece %d marked %v, expected %v", lens, single, pl, hist, j, got[j], want[j])
				}
				all = all && want[j]
			}
			if tr.Done() != all {
				vfail(t, "files %v (single %v), piece length %d, history %v: done %v with marks %v", lens, single, pl, hist, tr.Done(), got)
			}
		}
		tr.Close()
		os.RemoveAll(dir)
	}
}

// a block that does not fit is not written and marks nothing
func TestVerif_C03_unwritten(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 300*vscale(); i++ {
		lens := vlayout(r.Intn)
		total := 0
		for _, l := range lens {
			total += l
		}
		if total == 0 {
			continue
		}
		single := r.Intn(3) == 0
		if single {
			lens = []int{total}
		}
		pl := 1 + r.Intn(total+20)
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c03")
		if err != nil {
			t.Fatal(err)
		}
		tr, _, err := vtorrent(r, dir, single, lens, pl)
		if err != nil {
			t.Fatal(err)
		}
		p := tr.PiecesNum - 1
		// ends at the piece length, but past the torrent
		n := pl
		if single || r.Intn(2) == 0 {
			n = total - p*pl + 1 + r.Intn(2*pl)
		}
		if p*pl+n > total && !(single && n == pl) {
			vwrite(tr, stats.NewStats(uint64(total)), vpieceMsg(p, 0, make([]byte, n)))
			vc.add(fmt.Sprintf("files %v piece length %d", lens, pl))
			for j, m := range c03marks(tr) {
				if m {
					vfail(t, "files %v (single %v), piece length %d: block of %d bytes of piece %d past the end marks piece %d", lens, single, pl, n, p, j)
				}
			}
		}
		tr.Close()
		os.RemoveAll(dir)
	}
}

// torrents of many gigabytes in sparse files
func TestVerif_C03_large(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for i := 0; i < 12*vscale(); i++ {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c03")
		if err != nil {
			t.Fatal(err)
		}
		tr, lens, total, pl := vlarge(t, r, dir, i%3 == 0)
		num := tr.PiecesNum
		want := make([]bool, num)
		var hist []string
		for k := 0; k < 12; k++ {
			p := r.Intn(num)
			end := min(total, (p+1)*pl)
			n := min(1+r.Intn(30000), end-p*pl)
			o := end - p*pl - n
			full := r.Intn(3) > 0
			if !full {
				o = r.Intn(o + 1)
			}
			if p*pl+o+n == end {
				want[p] = true
			}
			vwrite(tr, stats.NewStats(uint64(total)), vpieceMsg(p, o, make([]byte, n)))
			hist = append(hist, fmt.Sprintf("(piece %d offset %d length %d)", p, o, n))
			vc.add(fmt.Sprintf("files %v piece length %d: %v", lens, pl, hist))
			for j, m := range c03marks(tr) {
				if m != want[j] {
					vfail(t, "files %v, piece length %d, history %v: piece %d marked %v, expected %v", lens, pl, hist, j, m, want[j])
				}
			}
		}
		tr.Close()
		os.RemoveAll(dir)
	}
}

func TestVerif_C03_done(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	for n := 1; n <= 200; n++ {
		tr := makeC03(t, r.Intn, n)
		perm := r.Perm(n)
		for k, p := range perm {
			if tr.Done() {
				vfail(t, "%d pieces, %d marked: done", n, k)
			}
			before := c03marks(tr)
			tr.SetDownloaded(uint(p))
			before[p] = true
			for j, m := range c03marks(tr) {
				if m != before[j] {
					vfail(t, "%d pieces: marking piece %d makes mark %d %v", n, p, j, m)
				}
			}
			vc.add(fmt.Sprintf("%d pieces, marks %v", n, perm[:k+1]))
		}
		if !tr.Done() {
			vfail(t, "%d pieces, all marked: not done", n)
		}
	}
}

func makeC03(t *testing.T, next func(int) int, n int) *Torrent {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c03")
	if err != nil {
		t.Fatal(err)
	}
	pl := 1 + next(5)
	tr, _, err := vtorrent(vrng(), dir, true, []int{n*pl - next(pl)}, pl)
	if err != nil {
		t.Fatal(err)
	}
	tr.Close()
	os.RemoveAll(dir)
	return tr
}
