package torrent

import (
	"fmt"
	"io/fs"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/anivanovic/gotit/pkg/bencode"
	"go.uber.org/zap"
)

// unprivileged makes this process unable to write outside a directory of its
// own: the code under test is what keeps files inside the output directory.
func unprivileged(t *testing.T) string {
	dir, err := os.MkdirTemp("/tmp", "verif-c18-")
	if err != nil {
		t.Skip(err)
	}
	const nobody = 65534
	if os.Geteuid() == 0 {
		if err := os.Chown(dir, nobody, nobody); err != nil {
			os.RemoveAll(dir)
			t.Skip(err)
		}
		if err := syscall.Setgroups(nil); err != nil {
			os.RemoveAll(dir)
			t.Skip(err)
		}
		if err := syscall.Setgid(nobody); err != nil {
			os.RemoveAll(dir)
			t.Skip(err)
		}
		if err := syscall.Setuid(nobody); err != nil {
			os.RemoveAll(dir)
			t.Skip(err)
		}
		os.Setenv("TMPDIR", dir)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	return dir
}

// vlocal resolves a relative path; false when it is empty or leads outside.
func vlocal(p string) (string, bool) {
	if p == "" || strings.HasPrefix(p, "/") {
		return "", false
	}
	var out []string
	for _, c := range strings.Split(p, "/") {
		switch c {
		case "", ".":
		case "..":
			if len(out) == 0 {
				return "", false
			}
			out = out[:len(out)-1]
		default:
			out = append(out, c)
		}
	}
	if len(out) == 0 {
		return ".", true
	}
	return strings.Join(out, "/"), true
}

func vtree(dir string) []string {
	var out []string
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		if d.IsDir() {
			rel += "/"
		}
		out = append(out, rel)
		return nil
	})
	sort.Strings(out)
	return out
}

func vcomponent(r *rand.Rand, guard string, evil bool) string {
	plain := []string{"a", "b", "c", "ab", "A", "a.b", "...", "x y", "-", "a\\b", "é", "..a", "a.."}
	if !evil || r.Intn(2) == 0 {
		return plain[r.Intn(len(plain))]
	}
	list := []string{"..", ".", "", "/", "../..", "a/..", "a/../..", "a/b", "/a", "./a", "../a", "a//b", "a/", "../../..", guard + "/abs", "..//a", "./.."}
	return list[r.Intn(len(list))]
}

func TestVerif_C18_paths(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	guard := unprivileged(t)
	accepted := 0
	for c := 0; c < 2500*vscale(); c++ {
		// the output directory lies deeper than any escape tried
		base := filepath.Join(guard, fmt.Sprintf("g%d", c))
		root := filepath.Join(base, "1/2/3/4/5/6/7/8/9/out")
		if err := os.MkdirAll(root, 0o777); err != nil {
			t.Fatal(err)
		}
		up := strings.Repeat("../", r.Intn(8))
		m := &bencode.Metainfo{Announce: "http://tr.invalid/a"}
		m.InfoDictRaw = []byte("de")
		evil := r.Intn(3) == 0
		m.Info.Name = vcomponent(r, guard, evil && r.Intn(2) == 0)
		if evil && r.Intn(8) == 0 {
			m.Info.Name = up + m.Info.Name
		}
		m.Info.PieceLength = 7
		single := r.Intn(4) == 0
		var paths []string
		valid := true
		clash := false
		own, ok := vlocal(m.Info.Name)
		nameOK := ok
		valid = valid && ok
		log := fmt.Sprintf("name %q", m.Info.Name)
		if single {
			m.Info.Length = 7
			m.Info.Pieces = strings.Repeat("x", 20)
			paths = []string{own}
			clash = own == "." || strings.Contains(own, "/")
		} else {
			clash = strings.Contains(own, "/")
			for k := r.Intn(6); k > 0; k-- {
				var comp []string
				for j := 1 + r.Intn(4); j > 0; j-- {
					comp = append(comp, vcomponent(r, guard, evil))
				}
				if r.Intn(12) == 0 {
					for j := 3 + r.Intn(12); j > 0; j-- {
						comp = append(comp, vcomponent(r, guard, false))
					}
				}
				if r.Intn(40) == 0 {
					comp = nil
				}
				if evil && r.Intn(10) == 0 && len(comp) > 0 {
					comp[0] = up + comp[0]
				}
				m.Info.Files = append(m.Info.Files, bencode.TorrentFile{Path: comp})
				// empty components count for nothing
				var nz []string
				for _, x := range comp {
					if x != "" {
						nz = append(nz, x)
					}
				}
				p, ok := vlocal(strings.Join(nz, "/"))
				valid = valid && ok
				full, _ := vlocal(own + "/" + p)
				for _, q := range paths {
					if q == full {
						valid = false
					}
					if strings.HasPrefix(q, full+"/") || strings.HasPrefix(full, q+"/") {
						clash = true
					}
				}
				if p == "." {
					clash = true
				}
				paths = append(paths, full)
				log += fmt.Sprintf(" file %q", comp)
			}
		}
		vc.add(log)
		before := vtree(base)
		outside := vtree(guard)
		var tr *Torrent
		var err error
		if p := vpanic(func() { tr, err = New(m, root, zap.NewNop()) }); p != "" {
			vfail(t, "%s: New panics: %s", log, p)
		}
		after := vtree(base)
		if !evil && valid && !clash && err != nil {
			vfail(t, "%s: rejected: %v", log, err)
		}
		inRoot := "1/2/3/4/5/6/7/8/9/out/"
		made := map[string]bool{}
		old := map[string]bool{}
		for _, p := range before {
			old[p] = true
		}
		for _, p := range after {
			if old[p] {
				continue
			}
			if !strings.HasPrefix(p, inRoot) {
				vfail(t, "%s: %q was created outside the output directory %q", log, p, root)
			}
			p = strings.TrimPrefix(p, inRoot)
			if !single && nameOK && own != "." && p != own+"/" && !strings.HasPrefix(p, own+"/") {
				vfail(t, "%s: %q was created outside the torrent's own directory", log, p)
			}
			made[p] = true
		}
		if n := len(vtree(guard)) - len(after); n != len(outside)-len(before) {
			vfail(t, "%s: something was created outside the output directory", log)
		}
		if !valid && err == nil {
			vfail(t, "%s: accepted, created %v", log, after[len(before):])
		}
		if !nameOK && len(made) > 0 {
			vfail(t, "%s: rejected, but %v was created", log, made)
		}
		if err == nil {
			accepted++
			if len(tr.OsFiles) != len(paths) {
				vfail(t, "%s: %d files opened, not %d", log, len(tr.OsFiles), len(paths))
			}
			files := 0
			for p := range made {
				if !strings.HasSuffix(p, "/") {
					files++
				}
			}
			if files != len(paths) {
				vfail(t, "%s: %d files created, not %d: %v", log, files, len(paths), made)
			}
			for i, p := range paths {
				a, err1 := tr.OsFiles[i].Stat()
				b, err2 := os.Stat(filepath.Join(root, p))
				if err1 != nil || err2 != nil || !os.SameFile(a, b) {
					vfail(t, "%s: file %d is %q, not %q", log, i, tr.OsFiles[i].Name(), p)
				}
			}
		}
		if tr != nil {
			for _, f := range tr.OsFiles {
				f.Close()
			}
		}
		os.RemoveAll(base)
	}
	if accepted < 200 {
		t.Fatal("too few accepted torrents")
	}
}
