// pkg/torrent

guarded torrent.Torrent.requested by requestedMu inv self.requested != nil && self.requested.n == self.PiecesNum
guarded torrent.Torrent.downloaded by downloadedMu inv self.downloaded != nil && self.downloaded.n == self.PiecesNum
guarded torrent.PiecesQueue.failedMessages by failedMu inv forall k int :: 0 <= k && k < len(self.failedMessages) ==> reqOK(self.failedMessages[k])

// a block request
def reqOK(m) = m != nil && m.Type == 6 && m.len == 13 && len(m.payload) == 12

// the geometry of a torrent
def ceilPieces(len, pl, n) = pl > 0 && len >= 0 && n >= 0 && (n - 1) * pl < len && len <= n * pl
def geom(t) = ceilPieces(t.Length, t.PieceLength, t.PiecesNum) && len(t.Pieces) == t.PiecesNum
def locks(t) = t.requestedMu != nil && t.downloadedMu != nil && t.requestedMu != t.downloadedMu
def tOK(t) = t != nil && t.logger != nil && locks(t) && geom(t) && (forall i int :: 0 <= i && i < len(t.Pieces) ==> len(t.Pieces[i].sha1) == 20)

func torrent.(*Torrent).Next(t, have) (i, ok)
  safety C12
  requires tOK(t) && have != nil
  inv (i int, ok bool) ok ==> i < t.requested.n && !t.requested.bits[i] && (forall k int :: 0 <= k && k < i ==> t.requested.bits[k] || !bhas(have, k))
  inv (i int, ok bool) !ok ==> (forall k int :: 0 <= k && k < t.requested.n ==> t.requested.bits[k] || !bhas(have, k))
  inv (i int) forall k int :: 0 <= k && k < i ==> t.requested.bits[k] || !bhas(have, k)
  ensures[C04] nlocks() == 1
  ensures[C04] ok ==> bhas(have, i) && !acq(t.requested.bits)[i] && rel(t.requested.bits) == store(acq(t.requested.bits), i, true)
  ensures[C04] ok ==> (forall k int :: 0 <= k && k < i ==> acq(t.requested.bits)[k] || !bhas(have, k))
  ensures[C04] !ok ==> rel(t.requested.bits) == acq(t.requested.bits) && (forall k int :: 0 <= k && k < t.PiecesNum ==> acq(t.requested.bits)[k] || !bhas(have, k))
  ensures ok ==> i < t.PiecesNum
  ensures[C05] ok ==> bhas(have, i)

func torrent.(*Torrent).SetDownloaded(t, i) ()
  safety C12
  requires tOK(t) && i < t.PiecesNum
  ensures[C03] nlocks() == 1 && rel(t.downloaded.bits) == store(acq(t.downloaded.bits), i, true)

func torrent.(*Torrent).Done(t) (r)
  safety C12
  requires tOK(t)
  ensures[C03] nlocks() == 1 && rel(t.downloaded.bits) == acq(t.downloaded.bits)
  ensures[C03] r <==> (forall k int :: 0 <= k && k < t.PiecesNum ==> acq(t.downloaded.bits)[k])

func torrent.(*Torrent).CheckPiece(t, data, index) (r)
  safety C12
  requires tOK(t)
  ensures[C01,C03,C06,C05] r <==> 0 <= index && index < len(t.Pieces) && bytes(t.Pieces[index].sha1) == sha1(bytes(data))
  ensures r ==> 0 <= index && index < t.PiecesNum

func torrent.(*Torrent).PieceSize(t, index) (r)
  requires tOK(t) && index < t.PiecesNum
  ensures r == ite(index == t.PiecesNum - 1, t.Length - index * t.PieceLength, t.PieceLength)
  ensures r > 0 && r <= t.PieceLength && index * t.PieceLength + r <= t.Length

func torrent.(*Torrent).EmptyBitset(t) (b)
  requires tOK(t)
  ensures b != nil && fresh(b)
  ensures[C05] b.n == t.PiecesNum && b.bits == nobits

func torrent.(*PiecesQueue).RequestFailed(pq, msg) ()
  safety C12
  requires pq != nil && reqOK(msg)
  ensures[C06] nlocks() == 1 && rel(len(pq.failedMessages)) == acq(len(pq.failedMessages)) + 1
  ensures[C06] rel(pq.failedMessages[len(pq.failedMessages) - 1]) == msg
  ensures[C06] forall k int :: 0 <= k && k < acq(len(pq.failedMessages)) ==> rel(pq.failedMessages[k]) == acq(pq.failedMessages[k])

func torrent.(*PiecesQueue).FailedPieceMessage(pq) (m)
  safety C12
  requires pq != nil
  ensures m != nil ==> reqOK(m)
  ensures[C06] nlocks() == 1
  ensures[C06] acq(len(pq.failedMessages)) == 0 ==> m == nil && rel(len(pq.failedMessages)) == 0
  ensures[C06] acq(len(pq.failedMessages)) > 0 ==> rel(len(pq.failedMessages)) == acq(len(pq.failedMessages)) - 1 && m == acq(pq.failedMessages[len(pq.failedMessages) - 1])
  ensures[C06] forall k int :: 0 <= k && k < rel(len(pq.failedMessages)) ==> rel(pq.failedMessages[k]) == acq(pq.failedMessages[k])

func torrent.NewPiecesQueue() (pq)
  ensures pq != nil && fresh(pq)
  ensures[C06] len(pq.failedMessages) == 0

// ---- placement of data in files ----

// sum of elements o to j-1
theory psum
  (declare-fun psum ((Array Int Int) Int Int) Int)
  (assert (forall ((a (Array Int Int)) (o Int)) (! (= (psum a o o) 0) :pattern ((psum a o o)))))
  (assert (forall ((a (Array Int Int)) (o Int) (j Int)) (! (=> (<= o j) (= (psum a o (+ j 1)) (+ (psum a o j) (select a j)))) :pattern ((psum a o j) (select a j)))))
end
// non-negative lengths make it monotone: induction on j, steps proved as lemmas below
theory psummono
  (declare-fun nonneg ((Array Int Int) Int Int) Bool)
  (assert (forall ((a (Array Int Int)) (o Int) (e Int)) (! (=> (<= e o) (nonneg a o e)) :pattern ((nonneg a o e)))))
  (assert (forall ((a (Array Int Int)) (o Int) (i Int) (j Int)) (! (=> (and (nonneg a o i) (= j (+ i 1)) (>= (select a i) 0)) (nonneg a o j)) :pattern ((nonneg a o i) (nonneg a o j)))))
  (assert (forall ((a (Array Int Int)) (o Int) (e Int) (j Int)) (! (=> (and (nonneg a o e) (<= o j) (< j e)) (>= (select a j) 0)) :pattern ((nonneg a o e) (select a j)))))
  (assert (forall ((a (Array Int Int)) (o Int) (e Int) (i Int) (j Int)) (! (=> (and (nonneg a o e) (<= o i) (<= i j) (<= j e)) (<= (psum a o i) (psum a o j))) :pattern ((nonneg a o e) (psum a o i) (psum a o j)))))
end

def flen(t, k) = t.TorrentFiles[k].Length
def S(t, k) = psum(elems(t.TorrentFiles, "Length"), off(t.TorrentFiles), off(t.TorrentFiles) + k)
def nfiles(t) = len(t.TorrentFiles)
// one open file per file of the torrent, all different
def filesOK(t) = ite(t.IsDirectory, nonneg(elems(t.TorrentFiles, "Length"), off(t.TorrentFiles), off(t.TorrentFiles) + nfiles(t)) && len(t.OsFiles) == nfiles(t) && S(t, nfiles(t)) == t.Length, len(t.OsFiles) == 1)
      && (forall i int :: 0 <= i && i < len(t.OsFiles) ==> t.OsFiles[i] != nil)
      && (forall i int, j int :: 0 <= i && i < j && j < len(t.OsFiles) ==> t.OsFiles[i] != t.OsFiles[j])

lemma[C02,C03] psum_mono_step(a (Array Int Int), o int, i int, j int): o <= i && i <= j; psum(a, o, i) <= psum(a, o, j); a[j] >= 0; psum(a, o, i) <= psum(a, o, j + 1)

// bytes b written at position o of open file f are bytes D[cov..] of a block that starts at P
def inPlace(t, f, b, o, D, P, cov) = o >= 0 && cov + len(b) <= len(D) && (forall j int :: 0 <= j && j < len(b) ==> b[j] == D[cov + j])
      && ite(t.IsDirectory, (exists k int {t.OsFiles[k]} :: 0 <= k && k < nfiles(t) && f == t.OsFiles[k] && S(t, k) + o == P + cov && o + len(b) <= flen(t, k)), f == t.OsFiles[0] && o == P + cov)

block findfile
  inv (f int, q int) 0 <= f && f <= nfiles(t) && 0 <= q && S(t, f) + q == P

func torrent.(*Torrent).writePieceData(t, data, P) (err)
  flag optional
  safety C13
  requires tOK(t) && filesOK(t) && P >= 0 && P + len(data) < 9223372036854775808
  ghost cov int = 0
  ghost ioerr bool = false
  on os.(*File).WriteAt(f, b, o) (n, e)
    assert[C02,C03] inPlace(t, f, b, o, data, P, cov)
    set cov := cov + len(b)
    set ioerr := ioerr || e != nil
  inv (f int, q int) 0 <= f && f <= nfiles(t) && 0 <= q && S(t, f) + q == P
  inv 0 <= cov && cov <= len(data) && !ioerr
  inv (d []byte) arr(d) == arr(data) && off(d) == off(data) + cov && len(d) == len(data) - cov
  inv (f int) 0 <= f && f <= nfiles(t)
  inv (q int) 0 <= q
  inv (f int, q int) f < nfiles(t) ==> q <= flen(t, f)
  inv (f int, q int) cov < len(data) ==> S(t, f) + q == P + cov
  ensures[C02,C03] err == nil ==> cov == len(data) && !ioerr
  ensures[C02,C03] !ioerr && len(data) > 0 && P + len(data) <= t.Length ==> err == nil

// what the peers hand to the writer: asserted at the send in pkg/peer
def pieceMsgOK(t, m) = m != nil && m.Type == 7 && len(m.payload) >= 8 && m.index < t.PiecesNum
def curm() = asptr(cur, "util.PeerMessage")
def blen() = len(curm().payload) - 8
def bpos(t) = curm().index * t.PieceLength + curm().offset
def blockEnds(t) = curm().offset + blen() == t.PieceLength || bpos(t) + blen() == t.Length
def handled(t) = cur == 0 || (marked <==> (cov == blen() && !werr && blockEnds(t)))

func torrent.(*Torrent).WritePiece(t, ch, s) ()
  safety C12
  requires tOK(t) && filesOK(t) && s != nil
  note assumed: block position plus block length fit in an int
  ghost cur int = 0
  ghost cov int = 0
  ghost werr bool = false
  ghost marked bool = false
  on chan.recv(c) (m, ok)
    assert[C03] handled(t)
    set assume := ok ==> pieceMsgOK(t, m) && m.index * t.PieceLength + m.offset + len(m.payload) < 9223372036854775808
    set cur := ite(ok, ref(m), 0)
    set cov := 0
    set werr := false
    set marked := false
  on os.(*File).WriteAt(f, b, o) (n, e)
    assert[C02,C03] cur != 0 && !marked && inPlace(t, f, b, o, curm().payload[8:len(curm().payload)], bpos(t), cov)
    set cov := cov + len(b)
    set werr := werr || e != nil
  on torrent.(*Torrent).writePieceData(tt, d, p) (e)
    assert[C02,C03] tt == t && cur != 0 && cov == 0 && !marked && p == bpos(t) && arr(d) == arr(curm().payload) && off(d) == off(curm().payload) + 8 && len(d) == blen()
    set cov := ite(e == nil, len(d), cov)
    set werr := werr || e != nil
  on torrent.(*Torrent).SetDownloaded(tt, i) ()
    assert[C03] tt == t && cur != 0 && i == curm().index && cov == blen() && !werr && blockEnds(t)
    set marked := true
  inv (f int, q int) 0 <= f && f <= nfiles(t) && 0 <= q && S(t, f) + q == bpos(t)
  inv 0 <= cov && cov <= blen() && !werr && !marked
  inv (d []byte) arr(d) == arr(curm().payload) && off(d) == off(curm().payload) + 8 + cov && len(d) == blen() - cov
  inv (f int) 0 <= f && f <= nfiles(t)
  inv (q int) 0 <= q
  inv (f int, q int) f < nfiles(t) ==> q <= flen(t, f)
  inv (f int, q int) cov < blen() ==> S(t, f) + q == bpos(t) + cov
  inv[C03] handled(t)
  ensures[C03] cur == 0
