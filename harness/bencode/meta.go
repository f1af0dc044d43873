package bencode

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
)

// vmeta writes a torrent file: mostly right, with extra keys, any order,
// repeated keys, odd but legal spellings, and values of the wrong type.
func vmeta(r *rand.Rand) string {
	odd := r.Intn(3) == 0
	str := func(s string) string {
		z := ""
		if odd && r.Intn(6) == 0 {
			z = strings.Repeat("0", 1+r.Intn(3))
		}
		return fmt.Sprintf("%s%d:%s", z, len(s), s)
	}
	num := func() string {
		if odd && r.Intn(4) == 0 {
			return []string{"i-0e", "i007e", "i-1e", "i9223372036854775807e", "i-9223372036854775808e", "i2147483648e", "i4294967296e", "i0e", "i00e"}[r.Intn(9)]
		}
		return fmt.Sprintf("i%de", r.Int63n(1<<uint(1+r.Intn(62))))
	}
	text := func() string {
		if odd && r.Intn(8) == 0 {
			return num()
		}
		s := make([]byte, []int{0, 1, 2, 5, 9, 10, 20, 100}[r.Intn(8)])
		for i := range s {
			s[i] = "lide:-0123456789ab\x00\xff\n\t{["[r.Intn(24)]
		}
		return str(string(s))
	}
	list := func(max int, f func() string) string {
		s := "l"
		for i := r.Intn(max + 1); i > 0; i-- {
			s += f()
		}
		return s + "e"
	}
	bad := 0
	if r.Intn(3) == 0 {
		bad = 60
	}
	dict := func(kv ...[2]string) string {
		for i := r.Intn(3); i > 0; i-- {
			kv = append(kv, [2]string{[]string{"private", "", "zz", "a", "nodes", "Name", "info ", "length "}[r.Intn(8)], vdoc(r, 2)})
		}
		if r.Intn(2) == 0 {
			r.Shuffle(len(kv), func(i, j int) { kv[i], kv[j] = kv[j], kv[i] })
		}
		s := "d"
		for _, e := range kv {
			if bad > 0 && r.Intn(bad) == 0 {
				continue
			}
			v := e[1]
			if bad > 0 && r.Intn(bad) == 0 {
				v = vdoc(r, 2)
			}
			s += str(e[0]) + v
			if odd && r.Intn(15) == 0 {
				s += str(e[0]) + vdoc(r, 2) + str(e[0]) + v
			}
		}
		return s + "e"
	}
	info := [][2]string{{"name", text()}, {"piece length", num()}, {"pieces", text()}}
	if r.Intn(2) == 0 {
		info = append(info, [2]string{"length", num()})
	}
	if r.Intn(2) == 0 {
		info = append(info, [2]string{"files", list(4, func() string {
			return dict([2]string{"length", num()}, [2]string{"path", list(3, text)})
		})})
	}
	top := [][2]string{{"announce", text()}, {"info", dict(info...)}}
	for _, o := range [][2]string{{"announce-list", list(3, func() string { return list(3, text) })}, {"url-list", list(3, text)},
		{"comment", text()}, {"created by", text()}, {"creation date", num()}, {"encoding", text()}} {
		if r.Intn(2) == 0 {
			top = append(top, o)
		}
	}
	return dict(top...)
}

// vfit puts the element into a field of the given type; ok is false when it
// does not fit, sure is false when the property leaves that open.
func vfit(v *vel, f reflect.Value, tag string) (ok, sure bool) {
	switch f.Kind() {
	case reflect.String:
		switch v.kind {
		case "s":
			f.SetString(v.s)
			return true, true
		case "i":
			f.SetString(v.i.String())
			return true, true
		}
		return false, true
	case reflect.Int, reflect.Int64:
		switch v.kind {
		case "i":
			f.SetInt(v.i.Int64())
			return true, true
		case "s":
			// a number written as a string
			return false, strings.Trim(v.s, "+-_0123456789abcdefABCDEFxXoO") != "" || v.s == ""
		}
		return false, true
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Uint8 {
			if v.kind != "l" && v.kind != "d" {
				return false, false
			}
			f.SetBytes([]byte(v.raw))
			return true, true
		}
		if v.kind != "l" {
			return false, true
		}
		f.Set(reflect.MakeSlice(f.Type(), len(v.l), len(v.l)))
		ok, sure = true, true
		for i, x := range v.l {
			o, s := vfit(x, f.Index(i), "")
			if !o && s {
				return false, true
			}
			ok, sure = ok && o, sure && s
		}
		return ok, sure
	case reflect.Struct:
		if v.kind != "d" {
			return false, true
		}
		ok, sure = true, true
		for i := 0; i < f.NumField(); i++ {
			key, opt, _ := strings.Cut(f.Type().Field(i).Tag.Get("ben"), ",")
			x := v.d[key]
			if x == nil {
				if opt != "optional" {
					return false, true
				}
				continue
			}
			o, s := vfit(x, f.Field(i), key)
			if !o && s {
				return false, true
			}
			ok, sure = ok && o, sure && s
		}
		return ok, sure
	}
	return false, false
}

// vwant is Metainfo as the property gives it, written independently of the
// structure in the code under test.
type vwant struct {
	Announce     string     `ben:"announce"`
	AnnounceList [][]string `ben:"announce-list,optional"`
	UrlList      []string   `ben:"url-list,optional"`
	Info         struct {
		Files []struct {
			Path   []string `ben:"path"`
			Length int      `ben:"length"`
		} `ben:"files,optional"`
		Length      int64  `ben:"length,optional"`
		Name        string `ben:"name"`
		PieceLength int64  `ben:"piece length"`
		Pieces      string `ben:"pieces"`
	} `ben:"info"`
	Raw          []byte `ben:"info"`
	Comment      string `ben:"comment,optional"`
	CreatedBy    string `ben:"created by,optional"`
	CreationDate int64  `ben:"creation date,optional"`
	Encoding     string `ben:"encoding,optional"`
}

// vpeers writes a tracker's response.
func vpeers(r *rand.Rand) string {
	any := func(s string) string {
		if r.Intn(8) == 0 {
			return vdoc(r, 2)
		}
		return s
	}
	d := "d"
	if r.Intn(4) == 0 {
		d += "14:failure reason" + any("4:gone")
	}
	if r.Intn(3) > 0 {
		d += "8:interval" + any("i"+vnum(r)+"e")
	}
	if r.Intn(3) == 0 {
		d += "6:peers6" + any("3:abc")
	}
	switch r.Intn(3) {
	case 0:
		n := r.Intn(40)
		d += fmt.Sprintf("5:peers%d:%s", n, strings.Repeat("x", n))
	case 1:
		p := "l"
		for i := r.Intn(4); i > 0; i-- {
			p += any("d2:ip" + any([]string{"9:127.0.0.1", "3:::1", "0:", "1:x"}[r.Intn(4)]) + "4:port" + any("i"+vnum(r)+"e") + "e")
		}
		d += "5:peers" + any(p+"e")
	}
	return d + "e"
}
