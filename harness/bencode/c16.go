package bencode

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"reflect"
	"strings"
	"testing"
)

// c16check compares Unmarshal with the reference; it tells whether the file
// was one that must be accepted.
func c16check(t *testing.T, doc string) bool {
	var want vwant
	v, _ := vparse(doc, 0, 1)
	ok, sure := false, true
	if v != nil {
		ok, sure = vfit(v, reflect.ValueOf(&want).Elem(), "")
	}
	var m Metainfo
	var err error
	data := []byte(doc)
	if p := vpanic(func() { err = Unmarshal(data, &m) }); p != "" {
		vfail(t, "Unmarshal(%q): %s", doc, p)
	}
	if !sure {
		return false
	}
	if !ok {
		if err == nil {
			vfail(t, "Unmarshal(%q) accepts it: %+v", doc, m)
		}
		return false
	}
	if err != nil {
		vfail(t, "Unmarshal(%q): %v", doc, err)
	}
	same := func(field string, got, want any) {
		if !reflect.DeepEqual(got, want) {
			vfail(t, "Unmarshal(%q): %s is %#v, not %#v", doc, field, got, want)
		}
	}
	same("Announce", m.Announce, want.Announce)
	same("AnnounceList", m.AnnounceList, want.AnnounceList)
	same("UrlList", m.UrlList, want.UrlList)
	same("Comment", m.Comment, want.Comment)
	same("CreatedBy", m.CreatedBy, want.CreatedBy)
	same("CreationDate", m.CreationDate, want.CreationDate)
	same("Encoding", m.Encoding, want.Encoding)
	same("Info.Name", m.Info.Name, want.Info.Name)
	same("Info.Length", m.Info.Length, want.Info.Length)
	same("Info.PieceLength", m.Info.PieceLength, want.Info.PieceLength)
	same("Info.Pieces", m.Info.Pieces, want.Info.Pieces)
	same("number of Info.Files", len(m.Info.Files), len(want.Info.Files))
	for i, f := range want.Info.Files {
		same(fmt.Sprintf("Info.Files[%d].Path", i), m.Info.Files[i].Path, f.Path)
		same(fmt.Sprintf("Info.Files[%d].Length", i), m.Info.Files[i].Length, f.Length)
	}
	sum := sha1.Sum(want.Raw)
	for k := 0; k < 2; k++ {
		if !bytes.Equal(m.InfoDictRaw, want.Raw) {
			vfail(t, "Unmarshal(%q): InfoDictRaw is %q, not %q", doc, m.InfoDictRaw, want.Raw)
		}
		if h := m.Hash(); !bytes.Equal(h, sum[:]) {
			vfail(t, "Unmarshal(%q): the info hash is %x, not %x", doc, h, sum)
		}
		if !bytes.Equal(data, []byte(doc)) {
			vfail(t, "the file's bytes %q became %q", doc, data)
		}
	}
	return true
}

func TestVerif_C16_metainfo(t *testing.T) {
	vc := newVCases(t)
	r := vrng()
	accepted := 0
	for c := 0; c < 20000*vscale(); c++ {
		d := vmeta(r)
		if r.Intn(8) == 0 {
			d = vmutate(r, d)
		}
		vc.add(d)
		if c16check(t, d) {
			accepted++
		}
	}
	if accepted < 2000 {
		t.Skip("few files accepted")
	}
}

// Every value for every key.
func TestVerif_C16_types(t *testing.T) {
	vc := newVCases(t)
	values := []string{"", "i0e", "i5e", "i-5e", "i9223372036854775807e", "i-9223372036854775808e", "0:", "1:x", "5:hello", "le", "l1:ae", "li1ee", "lle1:ae", "lleee", "ll1:a1:bel1:cee", "de", "d1:ai1ee",
		"ldee", "ld6:lengthi3e4:pathl1:aeee", "ld4:pathl1:a1:be6:lengthi3eed4:pathle6:lengthi0eee", "ld4:pathl1:aeee", "ld6:lengthi3eee", "ld6:lengthi3e4:path1:aee", "ld6:length1:x4:pathl1:aeee", "d6:lengthi3e4:pathl1:aee",
		"d4:name1:n12:piece lengthi16e6:pieces0:e", "d6:pieces20:aaaaabbbbbcccccddddd4:name0:12:piece lengthi16e6:lengthi33ee"}
	top := []string{"announce", "announce-list", "url-list", "info", "comment", "created by", "creation date", "encoding", "other"}
	inner := []string{"files", "length", "name", "piece length", "pieces", "private"}
	good := map[string]string{"announce": "3:udp", "name": "1:n", "piece length": "i16384e", "pieces": "4:abcd"}
	write := func(keys []string, sub map[string]string) string {
		s := "d"
		for _, k := range keys {
			v := good[k]
			if x, ok := sub[k]; ok {
				v = x
			}
			if v != "" {
				s += fmt.Sprintf("%d:%s%s", len(k), k, v)
			}
		}
		return s + "e"
	}
	both := func(sub map[string]string) {
		for k := 0; k < 2; k++ {
			info := write(inner, sub)
			m := map[string]string{"info": info}
			for k, v := range sub {
				m[k] = v
			}
			d := write(top, m)
			vc.add(d)
			c16check(t, d)
			for i, j := 0, len(top)-1; i < j; i, j = i+1, j-1 {
				top[i], top[j] = top[j], top[i]
			}
			for i, j := 0, len(inner)-1; i < j; i, j = i+1, j-1 {
				inner[i], inner[j] = inner[j], inner[i]
			}
		}
	}
	both(nil)
	for _, k := range append(append([]string{}, top...), inner...) {
		for _, v := range values {
			both(map[string]string{k: v})
			for _, l := range append(append([]string{}, top...), inner...) {
				if vscale() > 1 || strings.HasPrefix(v, "i") {
					both(map[string]string{k: v, l: "i7e"})
					both(map[string]string{k: v, l: ""})
				}
			}
		}
	}
}

func TestVerif_C16_real(t *testing.T) {
	vc := newVCases(t)
	for _, f := range []string{"tears-of-steel.torrent", "ubuntu-21.04-desktop-amd64.iso.torrent"} {
		b, err := os.ReadFile("testdata/" + f)
		if err != nil {
			continue
		}
		vc.add(f)
		if !c16check(t, string(b)) {
			t.Skip("not a torrent for the reference")
		}
	}
}
