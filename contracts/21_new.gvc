// building a torrent: pkg/torrent New, NewPieces, initDownloadDir; pkg/util StringSet; Metainfo.Hash

// ---- paths ----
theory path (assumed)
  (declare-fun pjoin (Str Str) Str)
  (declare-fun pjoinall ((Array Int Str) Int Int) Str)
  (declare-fun pdir (Str) Str)
  (declare-fun islocal (Str) Bool)
  (declare-fun pinside (Str Str) Bool)
  (declare-fun enoent (Int Int) Bool)
  (assert (forall ((d Str) (n Str)) (! (=> (islocal n) (pinside d (pjoin d n))) :pattern ((pjoin d n)))))
  (assert (forall ((d Str) (p Str) (q Str)) (! (=> (and (pinside d p) (pinside p q)) (pinside d q)) :pattern ((pinside d p) (pinside p q)))))
  (assert (forall ((d Str) (n Str)) (! (=> (islocal n) (or (pinside d (pdir (pjoin d n))) (= (pdir (pjoin d n)) (pdir d)))) :pattern ((pdir (pjoin d n))))))
end

extern filepath.IsLocal(p) (r)
  ensures r <==> islocal(p)
extern filepath.Dir(p) (r)
  ensures r == pdir(p)
extern filepath.Clean(p) (r)
extern os.IsNotExist(err) (r)
  ensures r <==> enoent(tag(err), ival(err))
extern os.Mkdir(p, mode) (err)
extern os.MkdirAll(p, mode) (err)
extern os.Create(p) (f, err)
  ensures err == nil ==> f != nil && fresh(f)

// ---- util.StringSet ----
func util.NewStringSet() (s)
  ensures s != nil && fresh(s) && (forall k str :: !(k in s))

func util.(StringSet).Add(s, k) (r)
  requires s != nil
  modifies map(s)
  ensures r <==> !old(k in s)
  ensures dom(s) == store(old(dom(s)), k, true)

// ---- digests ----
func torrent.NewPieces(pieces) (r, err)
  safety C13
  ensures[C17] err == nil <==> len(pieces) % 20 == 0
  ensures err == nil ==> len(pieces) % 20 == 0 && len(r) == len(pieces) / 20 && fresh(r)
  inv (i int, k int) i == 20 * k && 0 <= i && i <= len(pieces)
  inv (k int, res any[]torrent.Piece) len(res) == len(pieces) / 20 && (forall j int :: 0 <= j && j < k ==> arr(res[j].sha1) == arr(pieces) && off(res[j].sha1) == off(pieces) + 20 * j && len(res[j].sha1) == 20)
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(r) ==> arr(r[j].sha1) == arr(pieces))
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(r) ==> off(r[j].sha1) == off(pieces) + 20 * j)
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(r) ==> len(r[j].sha1) == 20)

func bencode.(Metainfo).Hash(m) (r)
  safety C13
  ensures[C16] bytes(r) == sha1(bytes(m.InfoDictRaw))
  ensures len(r) == 20

// ---- files ----
// the path of file k of the torrent
def ownDir(t, root) = pjoin(root, t.Name)
def fname(t, k) = old(pjoinall(elems(t.TorrentFiles[k].Path), off(t.TorrentFiles[k].Path), len(t.TorrentFiles[k].Path)))
def fpath(t, root, k) = ite(t.IsDirectory, pjoin(ownDir(t, root), fname(t, k)), ownDir(t, root))
def nOut(t) = ite(t.IsDirectory, len(t.TorrentFiles), 1)

func torrent.(*Torrent).initDownloadDir(t, root) (err)
  safety C13
  flag nameidx
  requires t != nil && len(t.OsFiles) == 0 && cap(t.OsFiles) == 0 && off(t.OsFiles) == 0
  modifies t.OsFiles
  ghost made int = 0
  ghost hasParent bool = false
  ghost ioerr bool = false
  on os.Mkdir(p, mode) (e)
    assert[C18] islocal(t.Name) && pinside(root, p)
    set hasParent := hasParent || p == ownDir(t, root) && !(e != nil && enoent(tag(e), ival(e)))
    set ioerr := ioerr || e != nil && enoent(tag(e), ival(e))
  on os.MkdirAll(p, mode) (e)
    assert[C18] islocal(t.Name) && t.IsDirectory && (pinside(ownDir(t, root), p) || hasParent && p == pdir(ownDir(t, root)))
    set ioerr := ioerr || e != nil
  on os.Create(p) (f, e)
    assert[C18] islocal(t.Name) && made < nOut(t) && p == fpath(t, root, made) && pinside(ite(t.IsDirectory, ownDir(t, root), root), p)
    set ioerr := ioerr || e != nil
    set made := made + 1
  inv (ps []string, i int) len(ps) == i && 0 <= i && i <= nOut(t)
  inv (ps []string, i int) len(ps) == i + 1 && -1 <= i && i < nOut(t)
  inv (ps []string) forall k int :: 0 <= k && k < len(ps) ==> ps[k] == fpath(t, root, k)
  inv (ps []string) forall k int :: 0 <= k && k < len(ps) ==> pinside(ownDir(t, root), ps[k])
  inv (ps []string, seen any util.StringSet) forall k int :: 0 <= k && k < len(ps) ==> ps[k] in seen
  inv (ps []string) forall j int, k int :: 0 <= j && j < k && k < len(ps) ==> ps[j] != ps[k]
  inv made == 0 && len(t.OsFiles) == 0
  inv !ioerr
  inv off(t.OsFiles) == 0
  inv cap(t.OsFiles) == 0 || fresh(t.OsFiles)
  inv (i int) made == i && len(t.OsFiles) == i
  inv (i int) made == i + 1 && len(t.OsFiles) == i + 1
  inv forall j int :: 0 <= j && j < len(t.OsFiles) ==> t.OsFiles[j] != nil && t.OsFiles[j] < top()
  inv forall j int, k int :: 0 <= j && j < k && k < len(t.OsFiles) ==> t.OsFiles[j] != t.OsFiles[k]
  ensures err == nil ==> len(t.OsFiles) == nOut(t)
  ensures err == nil ==> (forall j int :: 0 <= j && j < len(t.OsFiles) ==> t.OsFiles[j] != nil)
  ensures err == nil ==> (forall j int, k int :: 0 <= j && j < k && k < len(t.OsFiles) ==> t.OsFiles[j] != t.OsFiles[k])
  ensures[C18] err == nil ==> made == nOut(t) && !ioerr && islocal(t.Name)
  ensures[C18] err == nil ==> (forall j int, k int :: 0 <= j && j < k && k < nOut(t) ==> fpath(t, root, j) != fpath(t, root, k))

// ---- torrent.New ----
// lengths of the files of the metainfo: their sum, and that it is a length
def mlens(m) = elems(m.Info.Files, "Length")
def msum(m, k) = psum(mlens(m), off(m.Info.Files), off(m.Info.Files) + k)
def mnonneg(m) = forall k int :: 0 <= k && k < len(m.Info.Files) ==> m.Info.Files[k].Length >= 0
def mdir(m) = m.Info.Length == 0
def mlength(m) = ite(mdir(m), msum(m, len(m.Info.Files)), m.Info.Length)
def intier(l, n, s) = exists j int {l[j]} :: 0 <= j && j < n && l[j] == s
def intiers(m, n, s) = exists i int, j int {m.AnnounceList[i][j]} :: 0 <= i && i < n && 0 <= j && j < len(m.AnnounceList[i]) && m.AnnounceList[i][j] == s
def tracks(m, s) = s == m.Announce || intiers(m, len(m.AnnounceList), s) || intier(m.UrlList, len(m.UrlList), s)

func torrent.New(m, dir, logger) (t, err)
  flag nameidx
  props C24
  safety C13
  requires m != nil && logger != nil
  ghost direrr bool = false
  on torrent.(*Torrent).initDownloadDir(q, d) (e)
    assert[C18] d == dir && q.Name == m.Info.Name && q.IsDirectory == mdir(m) && (mdir(m) ==> len(q.TorrentFiles) == len(m.Info.Files) && arr(q.TorrentFiles) == arr(m.Info.Files) && off(q.TorrentFiles) == off(m.Info.Files))
    set direrr := e != nil
  inv (i int, sum int) 0 <= sum && sum == msum(m, i + 1) && -1 <= i && i < len(m.Info.Files)
  inv (i int, sum int) 0 <= sum && nonneg(mlens(m), off(m.Info.Files), off(m.Info.Files) + i + 1)
  inv (j int, set any util.StringSet) forall s str :: pre(s in set) ==> (s in set)
  inv (j int, el any []string, set any util.StringSet) forall s str :: (s in set) ==> pre(s in set) || intier(el, j + 1, s)
  inv (j int, el any []string, set any util.StringSet) forall b int :: 0 <= b && b <= j ==> (el[b] in set)
  inv (i int, l any [][]string, set any util.StringSet) forall s str :: (s in set) ==> pre(s in set) || intiers(m, i + 1, s)
  inv (i int, l any [][]string, set any util.StringSet) forall a int, b int {m.AnnounceList[a][b]} :: 0 <= a && a <= i && 0 <= b && b < len(m.AnnounceList[a]) ==> m.AnnounceList[a][b] in set
  ensures err == nil ==> t != nil && fresh(t) && tOK(t) && filesOK(t)
  ensures[C17] err == nil ==> t.Length == mlength(m) && t.PieceLength == m.Info.PieceLength && m.Info.PieceLength > 0 && mlength(m) >= 0
  ensures[C17] err == nil ==> (forall i int, j int :: 0 <= i && i < t.PiecesNum && 0 <= j && j < 20 ==> t.Pieces[i].sha1[j] == m.Info.Pieces[20*i+j])
  ensures[C17] err == nil ==> len(m.Info.Pieces) == 20 * t.PiecesNum
  ensures[C17] err == nil ==> t.requested.bits == nobits && t.downloaded.bits == nobits && t.requested.n == t.PiecesNum && t.downloaded.n == t.PiecesNum && t.requested != t.downloaded
  ensures[C16] err == nil ==> bytes(t.Hash) == sha1(bytes(m.InfoDictRaw))
  ensures err == nil ==> len(t.Hash) == 20
  ensures[C17] err == nil ==> (mdir(m) ==> mnonneg(m))
  ensures[C17] err != nil && !direrr ==> !(m.Info.PieceLength > 0 && 0 <= mlength(m) && mlength(m) <= 9223372036854775807 && (mdir(m) ==> nonneg(mlens(m), off(m.Info.Files), off(m.Info.Files) + len(m.Info.Files))) && len(m.Info.Pieces) % 20 == 0 && len(m.Info.Pieces) / 20 == ite(mlength(m) % m.Info.PieceLength == 0, mlength(m) / m.Info.PieceLength, mlength(m) / m.Info.PieceLength + 1))
  ensures[C17] err == nil ==> (forall s str :: (s in t.Trackers) ==> tracks(m, s))
  ensures[C17] err == nil ==> m.Announce in t.Trackers
  ensures[C17] err == nil ==> (forall a int, b int {m.AnnounceList[a][b]} :: 0 <= a && a < len(m.AnnounceList) && 0 <= b && b < len(m.AnnounceList[a]) ==> m.AnnounceList[a][b] in t.Trackers)
  ensures[C17] err == nil ==> (forall b int :: 0 <= b && b < len(m.UrlList) ==> m.UrlList[b] in t.Trackers)
