HDR = lambda pkg, *imps: "package %s\n\nimport (\n%s)\n" % (pkg, "".join('\t"%s"\n' % i for i in imps))
SEEDS = [
dict(id="s11", property="C01", pkg="pkg/torrent", race=True, needs="two peers whose blocks are checked at the same time",
 what="the hasher is shared by all peers instead of made anew, so blocks checked concurrently are hashed into each other: good blocks are dropped, and the digest does not belong to the data",
 edits=[("pkg/torrent/torrent.go", "	done   *abool.AtomicBool\n", "	hasher hash.Hash\n	done   *abool.AtomicBool\n"),
        ("pkg/torrent/torrent.go", '	"fmt"\n', '	"fmt"\n	"hash"\n'),
        ("pkg/torrent/torrent.go", "	hasher := sha1.New()\n	hasher.Write(data)\n	hash := hasher.Sum(nil)\n",
         "	if t.hasher == nil {\n		t.hasher = sha1.New()\n	}\n	t.hasher.Reset()\n	t.hasher.Write(data)\n	hash := t.hasher.Sum(nil)\n")],
 test=HDR("torrent", "crypto/sha1", "sync", "testing") + '''
func TestDemoCheck(t *testing.T) {
	tr := &Torrent{}
	var data [][]byte
	for i := 0; i < 4; i++ {
		d := make([]byte, 200000)
		d[0] = byte(i)
		s := sha1.Sum(d)
		data = append(data, d)
		tr.Pieces = append(tr.Pieces, newPiece(s[:], i))
	}
	var wg sync.WaitGroup
	for i := range data {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				if !tr.CheckPiece(data[i], i) || tr.CheckPiece(data[i], (i+1)%4) {
					t.Error("wrong verdict for piece", i)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
dict(id="s12", property="C05", pkg="pkg/peer", needs="a piece whose length is no multiple of the block size",
 what="the block counter advances by the length in whole blocks, so it stays put after a shorter last block, which is then requested again and again",
 edits=[("pkg/peer/peer.go", "	p.blockIdx++\n", "	p.blockIdx += length / torrent.BlockLength\n")],
 test=HDR("peer", "net/netip", "testing", "github.com/anivanovic/gotit/pkg/torrent", "github.com/anivanovic/gotit/pkg/util", "go.uber.org/zap", "github.com/anivanovic/gotit/pkg/bencode", "strings") + '''
func TestDemoBlocks(t *testing.T) {
	m := &bencode.Metainfo{Announce: "http://x.invalid/"}
	m.Info.Name = "a"
	m.Info.PieceLength = 200000
	m.Info.Length = 400000
	m.Info.Pieces = strings.Repeat("x", 40)
	tr, err := torrent.New(m, t.TempDir(), zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	defer tr.Close()
	p := NewPeer(netip.AddrPort{}, tr, torrent.NewPiecesQueue(), make(chan *util.PeerMessage, 9), zap.NewNop())
	p.Bitset.Set(0).Set(1)
	for _, want := range [][3]uint32{{0, 0, 131072}, {0, 131072, 68928}, {1, 0, 131072}, {1, 131072, 68928}} {
		r := p.nextRequestMessage()
		if r == nil || r.Index() != want[0] || r.Offset() != want[1] || r.BlockLength() != want[2] {
			t.Fatal(r, want)
		}
	}
}
'''),
dict(id="s13", property="C06", pkg="pkg/torrent", needs="two failed requests for different blocks of one piece",
 what="the queue takes a failed request only when it holds none of the same piece, so a second block of the piece is lost",
 edits=[("pkg/torrent/pieces_queue.go", "	pq.failedMu.Lock()\n	pq.failedMessages = append(pq.failedMessages, msg)\n	pq.failedMu.Unlock()\n",
 """	pq.failedMu.Lock()
	defer pq.failedMu.Unlock()
	for _, m := range pq.failedMessages {
		// already waiting for another peer
		if m.Index() == msg.Index() {
			return
		}
	}
	pq.failedMessages = append(pq.failedMessages, msg)
""")],
 test=HDR("torrent", "testing", "github.com/anivanovic/gotit/pkg/util") + '''
func TestDemoQueue(t *testing.T) {
	q := NewPiecesQueue()
	a, b := util.CreatePieceMessage(3, 0, 131072), util.CreatePieceMessage(3, 131072, 10)
	q.RequestFailed(a)
	q.RequestFailed(b)
	if q.FailedPieceMessage() != b || q.FailedPieceMessage() != a || q.FailedPieceMessage() != nil {
		t.Fatal("a request is lost")
	}
}
'''),
dict(id="s15", property="C07", pkg="pkg/peer", needs="a peer that says not interested after we unchoked it",
 what="a not-interested message clears the peer's interest only while we choke it",
 edits=[("pkg/peer/peer.go", "		p.PeerStatus.Interested = false\n", "		// an unchoked peer may just be between two requests\n		p.PeerStatus.Interested = !p.PeerStatus.Choked && p.PeerStatus.Interested\n")],
 test=HDR("peer", "testing", "github.com/anivanovic/gotit/pkg/util", "go.uber.org/zap") + '''
func TestDemoInterest(t *testing.T) {
	p := &Peer{PeerStatus: newPeerStatus(), ClientStatus: newPeerStatus(), logger: zap.NewNop()}
	p.PeerStatus.Choked = false
	for _, m := range []byte{2, 3} {
		p.handlePeerMessage(util.NewPeerMessage([]byte{m}))
		if p.PeerStatus.Interested != (m == 2) {
			t.Fatal(m)
		}
	}
}
'''),
dict(id="s16", property="C11", pkg="pkg/peer", needs="a handshake whose protocol name differs in letter case only",
 what="the protocol name of a received handshake is compared without regard to case",
 edits=[("pkg/peer/peer.go", "		protocolSignature == string(bittorrentProto[:]) &&\n", "		bytes.EqualFold([]byte(protocolSignature), bittorrentProto[:]) &&\n")],
 test=HDR("peer", "testing", "bytes") + '''
func TestDemoHandshake(t *testing.T) {
	hash := bytes.Repeat([]byte{7}, 20)
	h := createHandshake(hash)
	if !isHandshakeValid(h, hash, ClientId) {
		t.Fatal("own handshake rejected")
	}
	h[1] = 'b'
	if isHandshakeValid(h, hash, ClientId) {
		t.Fatal("accepted")
	}
}
'''),
dict(id="s17", property="C12", pkg="pkg/util", needs="a bitfield whose length is no multiple of 8 bytes, and a byte count above one word",
 what="a bitfield is padded only when it is shorter than a word",
 edits=[("pkg/util/peer_message.go", "	if rem := len(payload) % 8; rem != 0 {\n		payload = append(payload, make([]byte, 8-rem)...)\n	}\n	set := make([]uint64, len(payload)/8)\n",
 "	if len(payload) < 8 {\n		payload = append(payload, make([]byte, 8-len(payload))...)\n	}\n	set := make([]uint64, (len(payload)+7)/8)\n")],
 test=HDR("util", "testing") + '''
func TestDemoBitfield(t *testing.T) {
	for n := 0; n < 40; n++ {
		m := NewPeerMessage(append([]byte{5}, make([]byte, n)...))
		if m.Bitfield() == nil {
			t.Fatal(n)
		}
	}
}
'''),
dict(id="s18", property="C13", pkg="pkg/bencode", needs="an empty string where a list belongs",
 what="an empty string is let through as an empty list, but the list is then read through a nil pointer",
 edits=[("pkg/bencode/tag_parser.go", "		values, ok := value.(*ListElement)\n		if !ok {\n", "		values, ok := value.(*ListElement)\n		if !ok && value != StringElement(\"\") {\n")],
 test=HDR("bencode", "testing") + '''
func TestDemoList(t *testing.T) {
	var m Metainfo
	if Unmarshal([]byte("d8:announce1:a8:url-list0:4:infod4:name1:n12:piece lengthi1e6:pieces0:ee"), &m) == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="s19", property="C14", pkg="pkg/bencode", needs="a dictionary with a repeated key",
 what="the first of several values of a key wins instead of the last",
 edits=[("pkg/bencode/parse.go", "		dict[k] = v\n", "		if _, ok := dict[k]; !ok {\n			dict[k] = v\n		}\n")],
 test=HDR("bencode", "testing") + '''
func TestDemoDict(t *testing.T) {
	e, err := Parse([]byte("d1:ai1e1:ai2ee"))
	if err != nil || e.(*DictElement).Value("a") != IntElement(2) {
		t.Fatal(e, err)
	}
}
'''),
dict(id="s20", property="C15", pkg="pkg/bencode", needs="a string that holds a character of several bytes",
 what="the length prefix of a string counts characters instead of bytes",
 edits=[("pkg/bencode/elements.go", "	return strconv.Itoa(len(bencode)) + \":\" + bencode.String()\n", "	return strconv.Itoa(utf8.RuneCountInString(bencode.String())) + \":\" + bencode.String()\n"),
        ("pkg/bencode/elements.go", '	"strconv"\n', '	"strconv"\n	"unicode/utf8"\n')],
 test=HDR("bencode", "testing") + '''
func TestDemoString(t *testing.T) {
	for _, s := range []string{"", "abc", "caf\\u00e9"} {
		e, err := Parse([]byte(StringElement(s).Encode()))
		if err != nil || e != StringElement(s) {
			t.Fatal(e, err)
		}
	}
}
'''),
dict(id="s21", property="C16", pkg="pkg/bencode", needs="an info dictionary that is not written canonically",
 what="raw fields get the element encoded anew instead of its bytes in the file, so the info hash is wrong for info dictionaries with unsorted or repeated keys or leading zeros",
 edits=[("pkg/bencode/tag_parser.go", "			f.Set(reflect.ValueOf(value.Raw()))\n", "			f.Set(reflect.ValueOf([]byte(value.Encode())))\n")],
 test=HDR("bencode", "testing", "crypto/sha1", "bytes") + '''
func TestDemoHash(t *testing.T) {
	for _, info := range []string{"d4:name1:n12:piece lengthi1e6:pieces0:e", "d12:piece lengthi1e4:name1:n6:pieces0:e"} {
		var m Metainfo
		if err := Unmarshal([]byte("d8:announce1:a4:info"+info+"e"), &m); err != nil {
			t.Fatal(err)
		}
		h := sha1.Sum([]byte(info))
		if !bytes.Equal(m.Hash(), h[:]) {
			t.Fatal(info)
		}
	}
}
'''),
dict(id="s22", property="C17", pkg="pkg/torrent", needs="an announce list with a tier of several trackers",
 what="only the first tracker of each tier of the announce list is taken",
 edits=[("pkg/torrent/torrent.go", "		for _, e := range el {\n			announceSet.Add(e)\n		}\n", "		if len(el) > 0 {\n			announceSet.Add(el[0])\n		}\n")],
 test=HDR("torrent", "testing", "github.com/anivanovic/gotit/pkg/bencode", "go.uber.org/zap") + '''
func TestDemoTrackers(t *testing.T) {
	m := &bencode.Metainfo{Announce: "http://a/", AnnounceList: [][]string{{"http://a/"}, {"http://b/", "http://c/"}}}
	m.Info.Name, m.Info.PieceLength, m.Info.Length, m.Info.Pieces = "x", 1, 1, "01234567890123456789"
	tr, err := New(m, t.TempDir(), zap.NewNop())
	if err != nil || !tr.Trackers.Contains("http://c/") || len(tr.Trackers) != 3 {
		t.Fatal(tr, err)
	}
	tr.Close()
}
'''),
dict(id="s23", property="C18", pkg="pkg/torrent", needs="a torrent of several files one of which lies above the output directory",
 what="the directory of a file is made before its path is judged, so directories appear outside the output directory",
 edits=[("pkg/torrent/torrent.go", '''			if !filepath.IsLocal(name) {
				return fmt.Errorf("invalid torrent file path: %q", tf.Path)
			}
			filePath := filepath.Join(path, name)
			if !seen.Add(filePath) {
				return fmt.Errorf("duplicate torrent file path: %q", tf.Path)
			}
			if err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm); err != nil {
				return err
			}
''', '''			filePath := filepath.Join(path, name)
			if err := os.MkdirAll(filepath.Dir(filePath), 0o777); err != nil {
				return err
			}
			if !filepath.IsLocal(name) {
				return fmt.Errorf("invalid torrent file path: %q", tf.Path)
			}
			if !seen.Add(filePath) {
				return fmt.Errorf("duplicate torrent file path: %q", tf.Path)
			}
'''), ("pkg/torrent/torrent.go", "		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {\n			return err\n		}\n",
 "		if err := os.MkdirAll(path, 0o777); err != nil {\n			return err\n		}\n")],
 test=HDR("torrent", "testing", "os", "path/filepath", "github.com/anivanovic/gotit/pkg/bencode", "go.uber.org/zap") + '''
func TestDemoDirs(t *testing.T) {
	top := t.TempDir()
	out := filepath.Join(top, "1/2/3/out")
	os.MkdirAll(out, 0o777)
	m := &bencode.Metainfo{Announce: "http://a/"}
	m.Info.Name, m.Info.PieceLength, m.Info.Pieces = "x", 1, "01234567890123456789"
	m.Info.Files = []bencode.TorrentFile{{Path: []string{"..", "..", "evil", "f"}, Length: 1}}
	if _, err := New(m, out, zap.NewNop()); err == nil {
		t.Fatal("accepted")
	}
	if _, err := os.Stat(filepath.Join(top, "1/2/3/evil")); err == nil {
		t.Fatal("directory made outside")
	}
}
'''),
dict(id="s24", property="C19", pkg="pkg/tracker", needs="a response to the request before, with a transaction id that agrees in the low 16 bits",
 what="only the low half of the transaction id is compared",
 edits=[("pkg/tracker/udp_tracker.go", "	responseId := binary.BigEndian.Uint32(response[4:8])\n	if transactionId != responseId {\n", "	responseId := binary.BigEndian.Uint16(response[6:8])\n	if uint16(transactionId) != responseId {\n")],
 test=HDR("tracker", "testing") + '''
func TestDemoTransaction(t *testing.T) {
	if checkResponseTransactionId([]byte{0, 0, 0, 0, 1, 2, 3, 4}, 0x01020304) != nil {
		t.Fatal("rejected")
	}
	if checkResponseTransactionId([]byte{0, 0, 0, 0, 9, 2, 3, 4}, 0x01020304) == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id="s25", property="C20", pkg="pkg/tracker", needs="a tracker that answers with a 2xx status other than 200",
 what="every status of the 2xx group counts as success",
 edits=[("pkg/tracker/http_tracker.go", "	if res.StatusCode != 200 {\n", "	if res.StatusCode/100 != 2 {\n")],
 test=HDR("tracker", "context", "net/http", "net/http/httptest", "testing", "github.com/anivanovic/gotit", "go.uber.org/zap") + '''
func TestDemoStatus(t *testing.T) {
	code := 200
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(code)
		w.Write([]byte("d5:peers6:abcdefe"))
	}))
	defer srv.Close()
	tr, err := New(srv.URL, zap.NewNop())
	if err != nil {
		t.Fatal(err)
	}
	for _, code = range []int{200, 203} {
		_, err := tr.Announce(context.Background(), "01234567890123456789", &gotit.AnnounceData{})
		if (err == nil) != (code == 200) {
			t.Fatal(code, err)
		}
	}
}
'''),
dict(id="s26", property="C21", pkg="pkg/tracker", needs="a peer dictionary with a port outside 0 to 65535",
 what="the port is parsed as an int and cut to 16 bits, so an entry with an invalid port yields an invented address",
 edits=[("pkg/tracker/http_tracker.go", "		port, err := strconv.ParseUint(p.Port, 10, 16)\n", "		port, err := strconv.Atoi(p.Port)\n"),
        ("pkg/tracker/http_tracker.go", '		t.logger.Debug("parsed port", zap.Uint64("port", port))\n', '		t.logger.Debug("parsed port", zap.Int("port", port))\n')],
 test=HDR("tracker", "testing", "github.com/anivanovic/gotit", "go.uber.org/zap") + '''
func TestDemoPort(t *testing.T) {
	tr := newHttpTracker("http://x/", nil, zap.NewNop())
	got := tr.parseBencodePeers([]gotit.AnnouncePeer{{Ip: "1.2.3.4", Port: "80"}, {Ip: "1.2.3.4", Port: "65616"}})
	if len(got) != 1 || got[0].Port() != 80 {
		t.Fatal(got)
	}
}
'''),
dict(id="s27", property="C22", pkg="pkg/stats", needs="two reporters at the same time",
 what="the amount is added to a value read before, so concurrent reports are lost although every access is atomic",
 edits=[("pkg/stats/stats.go", "	atomic.AddUint64(&ts.download, size)\n", "	atomic.StoreUint64(&ts.download, ts.Download()+size)\n")],
 test=HDR("stats", "sync", "testing") + '''
func TestDemoStats(t *testing.T) {
	s := NewStats(1 << 40)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100000; k++ {
				s.AddDownload(1)
			}
		}()
	}
	wg.Wait()
	if s.Download() != 800000 {
		t.Fatal(s.Download())
	}
}
'''),
dict(id="s28", property="C23", pkg="pkg/download", needs="two peers behind one IP address",
 what="the pool is keyed by IP address without port",
 edits=[("pkg/download/manager.go", "	if m.peerPool[peer.AddrPort.String()] != nil {\n", "	key := peer.AddrPort.Addr().String()\n	if m.peerPool[key] != nil {\n"),
        ("pkg/download/manager.go", "	m.peerPool[peer.AddrPort.String()] = peer\n", "	m.peerPool[key] = peer\n"),
        ("pkg/download/manager.go", "	delete(m.peerPool, peer.AddrPort.String())\n", "	delete(m.peerPool, peer.AddrPort.Addr().String())\n")],
 test=HDR("download", "net/netip", "testing", "github.com/anivanovic/gotit/pkg/peer", "github.com/anivanovic/gotit/pkg/torrent", "go.uber.org/zap") + '''
func TestDemoPool(t *testing.T) {
	m := NewMng(&torrent.Torrent{}, zap.NewNop(), 10, 1)
	a := &peer.Peer{AddrPort: netip.MustParseAddrPort("1.2.3.4:80")}
	b := &peer.Peer{AddrPort: netip.MustParseAddrPort("1.2.3.4:81")}
	if !m.AddPeer(a) || !m.AddPeer(b) || m.AddPeer(a) {
		t.Fatal("wrong verdict")
	}
}
'''),
dict(id="s29", property="C24", pkg="pkg/torrent", race=True, needs="a peer that looks for failed requests while another one adds one",
 what="the queue's emptiness is first tested without the lock",
 edits=[("pkg/torrent/pieces_queue.go", "	pq.failedMu.Lock()\n	defer pq.failedMu.Unlock()\n\n	if len(pq.failedMessages) == 0 {\n		return nil\n	}\n	req := pq.failedMessages[len(pq.failedMessages)-1]\n	pq.failedMessages = pq.failedMessages[:len(pq.failedMessages)-1]\n",
 "	if len(pq.failedMessages) == 0 {\n		return nil\n	}\n	pq.failedMu.Lock()\n	defer pq.failedMu.Unlock()\n\n	last := len(pq.failedMessages) - 1\n	if last < 0 {\n		return nil\n	}\n	req := pq.failedMessages[last]\n	pq.failedMessages = pq.failedMessages[:last]\n")],
 test=HDR("torrent", "sync", "testing", "github.com/anivanovic/gotit/pkg/util") + '''
func TestDemoQueueRace(t *testing.T) {
	q := NewPiecesQueue()
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 5000; k++ {
				if i%2 == 0 {
					q.RequestFailed(util.CreatePieceMessage(1, 2, 3))
				} else {
					q.FailedPieceMessage()
				}
			}
		}()
	}
	wg.Wait()
}
'''),
]
