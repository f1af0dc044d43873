package torrent

import (
	"crypto/sha1"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

// vtorrent builds a torrent through New: lens are the file lengths, one number
// with single set gives a single file torrent. Returns the torrent's content too.
func vtorrent(r *rand.Rand, dir string, single bool, lens []int, pl int) (*Torrent, []byte, error) {
	m := &bencode.Metainfo{Announce: "http://tracker.invalid/a"}
	total := 0
	for _, l := range lens {
		total += l
	}
	content := make([]byte, total)
	r.Read(content)
	var digests []byte
	for p := 0; p < total; p += pl {
		h := sha1.Sum(content[p:min(p+pl, total)])
		digests = append(digests, h[:]...)
	}
	m.Info.Name = "content"
	m.Info.PieceLength = int64(pl)
	m.Info.Pieces = string(digests)
	m.InfoDictRaw = []byte("d4:name7:contente")
	if single {
		m.Info.Length = int64(total)
	} else {
		for i, l := range lens {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprintf("f%d", i)}, Length: l})
		}
	}
	t, err := New(m, dir, zap.NewNop())
	return t, content, err
}

// vfiles reads the files of a torrent built by vtorrent.
func vfiles(dir string, single bool, lens []int) ([][]byte, error) {
	if single {
		b, err := os.ReadFile(filepath.Join(dir, "content"))
		return [][]byte{b}, err
	}
	var out [][]byte
	for i := range lens {
		b, err := os.ReadFile(filepath.Join(dir, "content", fmt.Sprintf("f%d", i)))
		if err != nil {
			return nil, err
		}
		out = append(out, b)
	}
	return out, nil
}

// vlarge builds a torrent of several gigabytes whose files are sparse and whose
// digests are not those of any content.
func vlarge(t *testing.T, r *rand.Rand, dir string, single bool) (tr *Torrent, lens []int, total, pl int) {
	pl = []int{1 << 20, 1 << 24, 1 << 28, 1 << 30, 3 << 28, 1<<30 - 1, 1<<31 - 1, 1<<29 + 12345}[r.Intn(8)]
	total = 5<<30 + r.Intn(4<<30)
	rest := total
	if !single {
		for k := 1 + r.Intn(5); k > 0; k-- {
			l := []int{r.Intn(100), r.Intn(1 << 20), r.Intn(rest), 1 << 31, 1 << 32, pl}[r.Intn(6)]
			l = min(l, rest-1)
			lens = append(lens, l)
			rest -= l
		}
	}
	lens = append(lens, rest)
	m := &bencode.Metainfo{Announce: "http://tracker.invalid/a"}
	m.Info.Name = "content"
	m.Info.PieceLength = int64(pl)
	m.Info.Pieces = string(make([]byte, 20*((total+pl-1)/pl)))
	m.InfoDictRaw = []byte("d4:name7:contente")
	if single {
		m.Info.Length = int64(total)
	} else {
		for i, l := range lens {
			m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: []string{fmt.Sprintf("f%d", i)}, Length: l})
		}
	}
	tr, err := New(m, dir, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	return tr, lens, total, pl
}
