// pkg/download

func download.(*Manager).UpdateStatus(m, d, u) ()
  requires m != nil && m.torrentStatus != nil
  ghost nd int = 0
  ghost nu int = 0
  on stats.(*Stats).AddDownload(s, n) ()
    assert[C22] s == m.torrentStatus && n == d
    set nd := nd + 1
  on stats.(*Stats).AddUpload(s, n) ()
    assert[C22] s == m.torrentStatus && n == u
    set nu := nu + 1
  ensures[C22] nd == 1 && nu == 1

function netip.(AddrPort).String
def addrstr(p) = fstr("netip.(AddrPort).String", p.AddrPort)

guarded download.Manager.peerPool by poolMu inv self.peerPool != nil ==> poolOK(self.peerPool)
def asPeer(r) = asptr(r, "peer.Peer")
def poolOK(pp) = forall k str :: k in pp ==> vals(pp)[k] != 0 && addrstr(asPeer(vals(pp)[k])) == k && (asPeer(vals(pp)[k]).conn != nil ==> asPeer(vals(pp)[k]).conn.c != nil)

func download.(*Manager).AddPeer(m, p) (r)
  requires m != nil && p != nil && m.torrentStatus != nil && (p.conn != nil ==> p.conn.c != nil)
  ghost added int = 0
  on stats.(*Stats).AddPeer(s) ()
    assert[C23] s == m.torrentStatus
    set added := added + 1
  ensures[C23] nlocks() == 1
  ensures[C23] r <==> acq(m.peerPool) != nil && !acq(addrstr(p) in m.peerPool) && acq(len(m.peerPool)) < m.peerNum
  ensures[C23] r ==> rel(m.peerPool) == acq(m.peerPool) && rel(dom(m.peerPool)) == store(acq(dom(m.peerPool)), addrstr(p), true) && rel(vals(m.peerPool)) == store(acq(vals(m.peerPool)), addrstr(p), ref(p)) && rel(len(m.peerPool)) == acq(len(m.peerPool)) + 1
  ensures[C23] !r ==> rel(m.peerPool) == acq(m.peerPool) && rel(dom(m.peerPool)) == acq(dom(m.peerPool)) && rel(vals(m.peerPool)) == acq(vals(m.peerPool))
  ensures[C23] added == ite(r, 1, 0)

func download.(*Manager).removePeer(m, p) ()
  flag optional
  requires m != nil && p != nil && m.torrentStatus != nil
  ghost removed int = 0
  on stats.(*Stats).RemovePeer(s) ()
    assert[C23] s == m.torrentStatus
    set removed := removed + 1
  ensures[C23] nlocks() == 1 && removed == 1
  ensures[C23] rel(m.peerPool) == acq(m.peerPool) && (acq(m.peerPool) != nil ==> rel(dom(m.peerPool)) == store(acq(dom(m.peerPool)), addrstr(p), false))

theory noints
  (declare-fun noints () (Array Int Int))
  (assert (forall ((i Int)) (! (= (select noints i) 0) :pattern ((select noints i)))))
end

// how often a peer of the pool is closed when the peers under the keys of vis are
def closedIn(pp, r, vis) = ite(r != 0 && vis[addrstr(asPeer(r))] && vals(pp)[addrstr(asPeer(r))] == r, 1, 0)

func download.(*Manager).Stop(m) ()
  requires m != nil && m.logger != nil && m.cancelCtx != nil && m.progressPrinter != nil && m.progressPrinter.w != nil
  note assumed: Stop is called after Download was
  ghost cl (Array Int Int) = noints
  on peer.(*Peer).Close(p) (e)
    set cl := store(cl, ref(p), cl[ref(p)] + 1)
  inv forall r int :: cl[r] == closedIn(m.peerPool, r, visited())
  inv forall k str :: visited()[k] ==> k in m.peerPool
  inv forall r int :: cl[r] == closedIn(acq(m.peerPool), r, visited())
  inv forall k str :: visited()[k] ==> k in acq(m.peerPool)
  ensures[C23] nlocks() == 1 && rel(m.peerPool) == nil
  ensures[C23] acq(m.peerPool) != nil ==> (forall r int :: cl[r] == acq(closedIn(m.peerPool, r, dom(m.peerPool))))
  ensures[C23] acq(m.peerPool) == nil ==> (forall r int :: cl[r] == 0)

// WaitGroup tokens, per goroutine. own: added and not yet handed to a goroutine; tok: held by this
// goroutine; owner: this is the goroutine that waits, before it does; waited: it did; closes: closes of the channel
ghost var own int
ghost var tok int
ghost var owner int
ghost var waited int
ghost var closes int

block tokens
  on sync.(*WaitGroup).Add(w, n) ()
    assert[C25] w == m.wg
  on sync.(*WaitGroup).Done(w) ()
    assert[C25] w == m.wg
  on sync.(*WaitGroup).Wait(w) ()
    assert[C25] w == m.wg
  on peer.(*Peer).Run(p, c) ()
    assert[C25] tok > 0
  on chan.send(ch, v) ()
    assert[C25] tok > 0
  on chan.close(ch) ()
    assert[C25] waited == 1 && closes == 0
    set closes := closes + 1

// a worker that may start senders: it holds a token and has handed over what it added
block worker
  requires[C25] tok > 0 && own == 0 && owner == 0 && waited == 0 && closes == 0
  use tokens
  inv tok == pre(tok)
  inv own == 0
  inv waited == 0
  inv closes == 0
  ensures[C25] tok == old(tok) && own == 0 && waited == 0 && closes == 0

def mngOK(m) = m != nil && m.logger != nil && m.wg != nil && m.torrentStatus != nil && tOK(m.torrent) && fits32(m.torrent) && len(m.torrent.Hash) == 20

// a peer that cannot be reached leaves the pool, the others run
func download.(*Manager).startPeerDownload(m, ctx, p) ()
  flag optional
  flag goroutines
  props C23 C25
  requires mngOK(m) && ctx != nil && peerOK(p) && assignOK(p) && p.torrent == m.torrent
  modifies p.conn, p.lastMsgSent
  ghost ok bool = false
  ghost started int = 0
  ghost removed int = 0
  on peer.(*Peer).Announce(q, t) (e)
    assert[C23] q == p && t == m.torrent && started == 0
    set ok := e == nil
  on stats.(*Stats).RemovePeer(s) ()
    assert[C23] s == m.torrentStatus
    set removed := removed + 1
  on go(f) ()
    assert[C23] ok
    set started := started + 1
  use worker
  inline download.(*Manager).removePeer
  ensures[C23] started == ite(ok, 1, 0) && removed == ite(ok, 0, 1)
  ensures[C23] !ok ==> nlocks() == 1 && rel(m.peerPool) == acq(m.peerPool) && (acq(m.peerPool) != nil ==> rel(dom(m.peerPool)) == store(acq(dom(m.peerPool)), addrstr(p), false))
  ensures[C23] ok ==> nlocks() == 0

func download.(*Manager).initPeers(m, ctx, ips, ch) ()
  flag optional
  flag goroutines
  props C25
  requires mngOK(m) && ctx != nil
  use worker

func download.(*Manager).runTracker(m, ctx, url, ch) (err)
  flag optional
  flag goroutines
  props C25
  requires mngOK(m) && ctx != nil
  use worker

func download.(*Manager).Download(m, ctx) (err)
  flag goroutines
  props C25
  requires mngOK(m) && filesOK(m.torrent) && ctx != nil && m.progressPrinter != nil && m.progressPrinter.torrentStats != nil && m.progressPrinter.w != nil
  requires own == 0 && tok == 0 && owner == 1 && waited == 0 && closes == 0
  modifies m.cancelCtx, owner, waited, closes
  use tokens
  inv tok == 0
  inv tok == 1
  inv own == 0
  inv owner == 1
  inv owner == 0
  inv waited == 0
  inv closes == 0
  ensures[C25] closes == 1

extern context.WithCancel(c) (ctx, cancel)
  ensures ctx != nil && cancel != nil
extern gotit.Tracker.Announce(t, ctx, hash, data) (ips, err)
extern gotit.Tracker.WaitInterval(t, ctx) (err)
extern gotit.Tracker.Url(t) (s)
extern gotit.Tracker.Close(t) (err)
