package torrent

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

// c13dir makes this process unable to write outside a directory of its own.
func c13dir(t *testing.T) string {
	dir, err := os.MkdirTemp("/tmp", "verif-c13-")
	if err != nil {
		t.Skip(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	if os.Geteuid() == 0 {
		const nobody = 65534
		if os.Chown(dir, nobody, nobody) != nil || syscall.Setgroups(nil) != nil || syscall.Setgid(nobody) != nil || syscall.Setuid(nobody) != nil {
			t.Skip("cannot drop privileges")
		}
		os.Setenv("TMPDIR", dir)
	}
	return dir
}

func c13torrent(r *rand.Rand) string {
	str := func(s string) string { return fmt.Sprintf("%d:%s", len(s), s) }
	num := func() string {
		return "i" + []string{"0", "1", "-1", "7", "16384", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "4611686018427387904", "3", "20", "100"}[r.Intn(16)] + "e"
	}
	small := func() string { return fmt.Sprintf("i%de", r.Intn(60)) }
	if r.Intn(3) == 0 {
		small = num
	}
	name := func() string {
		return str([]string{"a", "b", "", ".", "..", "/", "x/y", "a/../b", "\x00", strings.Repeat("n", 300), "c", "d", "e"}[r.Intn(13)])
	}
	d := "d8:announce" + str([]string{"http://h.invalid/a", "udp://h.invalid:80", "", "://", "wss://x", "udp://\x00", "http://[::1", "%zz"}[r.Intn(8)])
	if r.Intn(2) == 0 {
		d += "13:announce-listl"
		for i := r.Intn(4); i > 0; i-- {
			d += "l"
			for k := r.Intn(3); k > 0; k-- {
				d += str([]string{"http://h.invalid/b", "", "udp://127.0.0.1:1", ":", "http://h\x7f"}[r.Intn(5)])
			}
			d += "e"
		}
		d += "e"
	}
	d += "4:infod"
	if r.Intn(2) == 0 {
		d += "5:filesl"
		for i := r.Intn(5); i > 0; i-- {
			d += "d6:length" + small() + "4:pathl"
			for k := r.Intn(3); k > 0; k-- {
				d += name()
			}
			d += "ee"
		}
		d += "e"
	}
	if r.Intn(3) > 0 {
		d += "6:length" + small()
	}
	p := "i7e"
	if r.Intn(2) == 0 {
		p = num()
	}
	return d + "4:name" + name() + "12:piece length" + p + "6:pieces" + str(strings.Repeat("p", []int{0, 1, 19, 20, 21, 40, 60, 100, 180, 400}[r.Intn(10)])) + "ee"
}

func TestVerif_C13_torrent(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	dir := c13dir(t)
	built := 0
	for c := 0; c < 4000*vscale(); c++ {
		d := c13torrent(r)
		if r.Intn(4) == 0 {
			b := []byte(d)
			b[r.Intn(len(b))] = "lide:0129-"[r.Intn(10)]
			d = string(b)
		}
		vc.add(d)
		out := filepath.Join(dir, fmt.Sprint(c))
		if err := os.Mkdir(out, 0o777); err != nil {
			t.Fatal(err)
		}
		done := make(chan string, 1)
		go func() {
			done <- vpanic(func() {
				var m bencode.Metainfo
				if bencode.Unmarshal([]byte(d), &m) != nil {
					return
				}
				tr, err := New(&m, out, zap.NewNop())
				if err == nil && tr == nil {
					panic("no torrent and no error")
				}
				if err == nil {
					built++
					tr.Close()
				}
			})
		}()
		select {
		case p := <-done:
			if p != "" {
				vfail(t, "torrent file %q: %s", d, p)
			}
		case <-time.After(60 * time.Second):
			vfail(t, "torrent file %q: not built after a minute", d)
		}
		os.RemoveAll(out)
	}
	if built < 20 {
		t.Skipf("only %d torrents could be built", built)
	}
}
