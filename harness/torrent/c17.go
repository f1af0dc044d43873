package torrent

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

func vlength(r *rand.Rand) int64 {
	switch r.Intn(12) {
	case 0:
		return -int64(r.Intn(1000)) - 1
	case 1:
		return []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt64/2 + 1, math.MinInt64, -1, 1 << 32, 1<<32 + 1, 1 << 31, 1 << 53}[r.Intn(9)]
	case 2:
		return 0
	}
	return int64(r.Intn(3000))
}

func TestVerif_C17_geometry(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c17")
	if err != nil {
		t.Skip(err)
	}
	defer os.RemoveAll(dir)
	okN := 0
	for c := 0; c < 3000*vscale(); c++ {
		m := &bencode.Metainfo{}
		m.Info.Name = "t"
		m.InfoDictRaw = []byte("de")
		total := new(big.Int)
		bad := false
		single := r.Intn(2) == 0
		log := ""
		if single {
			m.Info.Length = vlength(r)
			if r.Intn(3) > 0 {
				m.Info.Length = 1 + int64(r.Intn(5000))
			}
			single = m.Info.Length != 0
			total.SetInt64(m.Info.Length)
			log = fmt.Sprintf("length %d", m.Info.Length)
		} else {
			nice := r.Intn(3) > 0
			for k := r.Intn(7); k > 0; k-- {
				l := vlength(r)
				if nice {
					l = int64(r.Intn(2000))
				}
				m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprintf("f%d", k)}, Length: int(l)})
				bad = bad || l < 0
				total.Add(total, big.NewInt(l))
			}
			log = fmt.Sprintf("files %v", m.Info.Files)
		}
		bad = bad || total.Sign() < 0 || !total.IsInt64()
		// piece length
		switch r.Intn(8) {
		case 0:
			m.Info.PieceLength = []int64{0, -1, -16384, math.MinInt64, math.MaxInt64}[r.Intn(5)]
		case 1:
			m.Info.PieceLength = 1 + int64(r.Intn(4))
		case 2:
			m.Info.PieceLength = 1 << 18
		case 3:
			if total.IsInt64() && total.Sign() > 0 {
				// the length itself, or a divisor or about half of it
				m.Info.PieceLength = []int64{total.Int64(), total.Int64()/2 + 1, max(1, total.Int64()-1), max(1, total.Int64()/3)}[r.Intn(4)]
			}
		default:
			m.Info.PieceLength = 1 + int64(r.Intn(600))
		}
		pl := m.Info.PieceLength
		bad = bad || pl <= 0
		pieces := 0
		if !bad {
			n := new(big.Int).Add(total, big.NewInt(pl-1))
			n.Div(n, big.NewInt(pl))
			if n.Cmp(big.NewInt(20000)) > 0 {
				bad = true // never as many digests
				pieces = r.Intn(50)
			} else {
				pieces = int(n.Int64())
			}
		} else {
			pieces = r.Intn(50)
			if pl <= 0 && r.Intn(2) == 0 {
				pieces = 0
			}
		}
		nd := 20 * pieces
		switch r.Intn(8) {
		case 0:
			nd = max(0, nd+r.Intn(41)-20)
		case 1:
			nd += 20 * (r.Intn(3) - 1)
		}
		nd = max(nd, 0)
		bad = bad || nd != 20*pieces
		d := make([]byte, nd)
		r.Read(d)
		m.Info.Pieces = string(d)
		// trackers
		want := map[string]bool{}
		url := func() string {
			u := fmt.Sprintf("http://tr%d.invalid/a", r.Intn(8))
			want[u] = true
			return u
		}
		m.Announce = url()
		for k := r.Intn(4); k > 0; k-- {
			var l []string
			for j := r.Intn(4); j > 0; j-- {
				l = append(l, url())
			}
			m.AnnounceList = append(m.AnnounceList, l)
		}
		for k := r.Intn(4); k > 0; k-- {
			m.UrlList = append(m.UrlList, url())
		}
		log = fmt.Sprintf("%s, piece length %d, %d bytes of digests, announce %q, announce-list %q, url-list %q", log, pl, nd, m.Announce, m.AnnounceList, m.UrlList)
		vc.add(log)
		var tr *Torrent
		var err error
		if p := vpanic(func() { tr, err = New(m, dir, zap.NewNop()) }); p != "" {
			vfail(t, "%s: New panics: %s", log, p)
		}
		if tr != nil {
			for _, f := range tr.OsFiles {
				f.Close()
			}
		}
		os.RemoveAll(dir + "/t")
		if bad {
			if err == nil {
				vfail(t, "%s: accepted with length %d and %d pieces", log, tr.Length, tr.PiecesNum)
			}
			continue
		}
		if err != nil {
			vfail(t, "%s: rejected: %v", log, err)
		}
		okN++
		if int64(tr.Length) != total.Int64() || int64(tr.PieceLength) != pl || tr.PiecesNum != pieces || len(tr.Pieces) != pieces || tr.IsDirectory == single {
			vfail(t, "%s: length %d (want %v), piece length %d, %d pieces and %d digests (want %d), directory %v", log, tr.Length, total, tr.PieceLength, tr.PiecesNum, len(tr.Pieces), pieces, tr.IsDirectory)
		}
		for i, p := range tr.Pieces {
			if !bytes.Equal(p.sha1, d[20*i:20*i+20]) {
				vfail(t, "%s: digest %d is %x, not %x", log, i, p.sha1, d[20*i:20*i+20])
			}
		}
		if n := tr.requested.Count() + tr.downloaded.Count(); n != 0 {
			vfail(t, "%s: %d pieces marked at the start", log, n)
		}
		if int(tr.requested.Len()) != pieces || int(tr.downloaded.Len()) != pieces {
			vfail(t, "%s: sets of %d and %d pieces, not %d", log, tr.requested.Len(), tr.downloaded.Len(), pieces)
		}
		tr.requested.Set(0)
		if tr.downloaded.Count() != 0 {
			vfail(t, "%s: assigning a piece marks it as downloaded", log)
		}
		for u := range tr.Trackers {
			if !want[u] {
				vfail(t, "%s: tracker %q is not in the metainfo", log, u)
			}
		}
		for u := range want {
			if _, ok := tr.Trackers[u]; !ok {
				vfail(t, "%s: tracker %q is missing", log, u)
			}
		}
	}
	if okN < 300 {
		t.Fatal("too few valid cases")
	}
}
