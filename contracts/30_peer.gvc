// pkg/peer

pure pkg:github.com/jpillora/backoff pkg:net/netip
transparent backoff.Backoff

extern rand.(*Rand).Read(r, p) (n, err)
  modifies elems(p)

// a peer that may exchange messages for its torrent
def ptorrent(p) = p.torrent
def peerOK(p) = p != nil && p.logger != nil && tOK(p.torrent) && p.piecesQueue != nil && p.Bitset != nil && p.PeerStatus != nil && p.ClientStatus != nil && p.PeerStatus != p.ClientStatus
      && is(p.pieceChecker, "*torrent.Torrent") && ival(p.pieceChecker) == ref(p.torrent)
      && is(p.piecesSource, "*torrent.Torrent") && ival(p.piecesSource) == ref(p.torrent)
def connOK(p) = p.conn != nil && p.conn.c != nil
def bl() = 131072
def psize(t, i) = ite(i == t.PiecesNum - 1, t.Length - i * t.PieceLength, t.PieceLength)
// the piece a peer works on
def assignOK(p) = (p.noPiece || p.blockIdx >= p.blockNum) || (p.pieceIdx < p.torrent.PiecesNum && p.blockIdx * 131072 < psize(p.torrent, p.pieceIdx) && (p.blockNum - 1) * 131072 < psize(p.torrent, p.pieceIdx) && psize(p.torrent, p.pieceIdx) <= p.blockNum * 131072)
def fits32(t) = t.PieceLength <= 4294967296 && t.PiecesNum <= 4294967296

// what a piece message has to be to reach the writer
def verified(t, m) = m.Type == 7 && len(m.payload) >= 8 && m.offset == 0 && m.index < t.PiecesNum && bytes(t.Pieces[m.index].sha1) == sha1(bytes(m.payload[8:len(m.payload)]))

func peer.NewPeer(ip, t, pq, ch, l) (p)
  requires tOK(t) && pq != nil && l != nil
  ensures p != nil && fresh(p) && peerOK(p) && p.torrent == t && p.piecesQueue == pq && p.conn == nil && assignOK(p)
  ensures[C05] p.noPiece && p.Bitset.bits == nobits
  ensures[C07] p.ClientStatus.Choked && !p.ClientStatus.Interested && p.PeerStatus.Choked && !p.PeerStatus.Interested

func peer.(*Peer).handlePeerMessage(p, m) (r)
  flag goroutines
  requires[C25] tok > 0
  safety C12
  requires peerOK(p) && m != nil && (m.Type == 7 ==> len(m.payload) >= 8)
  modifies p.Bitset, p.Bitset.bits, p.Bitset.n, p.PeerStatus.*, p.ClientStatus.*, elems(m.payload[0:cap(m.payload)])
  ghost sends int = 0
  on chan.close(ch) ()
    assert[C25] false
  on chan.send(ch, v) ()
    assert[C25] tok > 0
    assert[C01] verified(p.torrent, v)
    assert[C01] v == m && ch == p.writeCh
    assert[C02,C03] pieceMsgOK(p.torrent, v)
    set sends := sends + 1
  on make.slice(n, cp) ()
    assert[C12] n <= len(m.payload) + 8 && cp <= len(m.payload) + 8
  on bitset.(*BitSet).Set(b, i) (x)
    assert[C12] i < p.torrent.PiecesNum
  ensures[C01,C06] r <==> m.Type == 7 && m.offset == 0 && verified(p.torrent, m)
  ensures[C07] r ==> m.Type == 7
  ensures[C01] sends == ite(m.Type == 7 && verified(p.torrent, m), 1, 0)
  ensures[C07] p.ClientStatus.Choked == ite(m.Type == 0, true, ite(m.Type == 1, false, old(p.ClientStatus.Choked)))
  ensures[C07] p.PeerStatus.Interested == ite(m.Type == 2, true, ite(m.Type == 3, false, old(p.PeerStatus.Interested)))
  ensures[C07] p.PeerStatus.Choked == old(p.PeerStatus.Choked) && p.ClientStatus.Interested == old(p.ClientStatus.Interested)
  ensures[C01,C05] m.Type != 5 ==> p.Bitset == old(p.Bitset)
  ensures[C01] m.Type == 7 && !verified(p.torrent, m) ==> p.Bitset.bits == old(p.Bitset.bits) && p.Bitset.n == old(p.Bitset.n)
  ensures[C05] m.Type == 4 && m.index < p.torrent.PiecesNum ==> p.Bitset.bits == store(old(p.Bitset.bits), m.index, true) && m.index < p.Bitset.n
  ensures[C05] m.Type != 4 && m.Type != 5 && m.Type != 7 ==> p.Bitset.bits == old(p.Bitset.bits) && p.Bitset.n == old(p.Bitset.n)
  ensures peerOK(p)

// goodblock(d, o, b): b is the part at offset o of some content with digest d
theory goodblock
  (declare-fun goodblock (Str Int Str) Bool)
  (assert (forall ((c Str)) (! (goodblock (sha1 c) 0 c) :pattern ((sha1 c)))))
end
def bdata(m) = bytes(m.payload[8:len(m.payload)])

// a correct answer to a request is accepted
func peer.(*Peer).handlePeerMessage@spec(p, m) (r)
  props C05
  requires peerOK(p) && m != nil && (m.Type == 7 ==> len(m.payload) >= 8)
  modifies p.Bitset, p.Bitset.bits, p.Bitset.n, p.PeerStatus.*, p.ClientStatus.*, elems(m.payload[0:cap(m.payload)])
  ensures[C05] m.Type == 7 && m.index < p.torrent.PiecesNum && goodblock(bytes(p.torrent.Pieces[m.index].sha1), m.offset, bdata(m)) ==> r

// ... as far as the client can: the answer has to be the whole piece
func peer.(*Peer).handlePeerMessage@known(p, m) (r)
  props C05
  requires peerOK(p) && m != nil && (m.Type == 7 ==> len(m.payload) >= 8)
  modifies p.Bitset, p.Bitset.bits, p.Bitset.n, p.PeerStatus.*, p.ClientStatus.*, elems(m.payload[0:cap(m.payload)])
  ensures[C05] m.Type == 7 && m.index < p.torrent.PiecesNum && m.offset == 0 && bytes(p.torrent.Pieces[m.index].sha1) == sha1(bdata(m)) ==> r


// ---- requests ----
def busy(p) = !p.noPiece && p.blockIdx < p.blockNum
def reqFor(m, t, i, o) = m.index == i && m.offset == o && o < psize(t, i) && m.blockLength == min(131072, psize(t, i) - o)

func peer.(*Peer).nextRequestMessage(p) (m)
  safety C12
  requires peerOK(p) && assignOK(p) && fits32(p.torrent)
  note assumed: piece length and number of pieces fit the 32 bit fields of a request
  modifies p.noPiece, p.blockIdx, p.blockNum, p.pieceIdx
  ghost failed int = 0
  ghost asked bool = false
  ghost empty bool = false
  ghost found bool = false
  ghost idx int = 0
  on torrent.(*PiecesQueue).FailedPieceMessage(q) (r)
    assert[C05,C06] q == p.piecesQueue && !old(busy(p)) && failed == 0
    set failed := ref(r)
    set empty := r == nil
  on torrent.(*Torrent).Next(t, have) (i, ok)
    assert[C05] t == p.torrent && have == p.Bitset && !old(busy(p)) && !asked
    set asked := true
    set found := ok
    set idx := i
  ensures m != nil ==> reqOK(m)
  ensures[C05] old(busy(p)) ==> m != nil && fresh(m) && reqFor(m, p.torrent, old(p.pieceIdx), old(p.blockIdx) * 131072) && p.pieceIdx == old(p.pieceIdx)
  ensures[C05] old(busy(p)) ==> ite(m.offset + m.blockLength < psize(p.torrent, p.pieceIdx), busy(p) && p.blockIdx * 131072 == m.offset + m.blockLength, !busy(p))
  ensures[C06] failed != 0 ==> ref(m) == failed && !found
  ensures[C05,C06] !old(busy(p)) && failed == 0 && !found ==> m == nil
  ensures[C05] found ==> m != nil && fresh(m) && reqFor(m, p.torrent, idx, 0) && p.pieceIdx == idx && ite(m.blockLength < psize(p.torrent, idx), busy(p) && p.blockIdx * 131072 == m.blockLength, !busy(p))
  ensures[C05] m == nil ==> empty && asked && !found
  ensures[C05] failed != 0 ==> !busy(p)
  ensures assignOK(p)

func peer.isHandshakeValid(h, hash, id) (r)
  safety C12
  requires len(hash) == 20
  ensures[C11] r <==> hsOK(h, hash)

def hsOK(h, hash) = len(h) >= 68 && h[0] == 19 && bytes(h[1:20]) == lit("BitTorrent protocol") && bytes(h[28:48]) == bytes(hash)

func peer.createClientId() (id)
  ensures[C11] len(id) == 20 && id[0] == 45 && id[1] == 71 && id[2] == 79 && id[3] == 48 && id[4] == 49 && id[5] == 48 && id[6] == 48 && id[7] == 45

global peer.ClientId: len(self) == 20

func peer.createHandshake(hash) (h)
  ensures[C11] bytes(h) == cat(be1(19), lit("BitTorrent protocol"), be8(0), bytes(hash), bytes(peer.ClientId))

func peer.(*Peer).Announce(p, t) (err)
  safety C12
  requires p != nil && p.logger != nil && t != nil && len(t.Hash) == 20
  modifies p.conn, p.lastMsgSent
  ghost opened bool = false
  ghost closed bool = false
  ghost sent bool = false
  ghost got bool = false
  ghost valid bool = false
  on gotitnet.NewTimeoutConn(nw, ad, to) (c, e)
    assert[C11] !opened
    set opened := e == nil
  on gotitnet.(*TimeoutConn).Close(c) (e)
    assert[C11] c == p.conn
    set closed := true
  on gotitnet.(*TimeoutConn).Write(c, d) (n, e)
    assert[C11] c == p.conn && opened && !closed && !sent && bytes(d) == cat(be1(19), lit("BitTorrent protocol"), be8(0), bytes(t.Hash), bytes(peer.ClientId))
    set sent := e == nil
  on gotitnet.(*TimeoutConn).ReadPeerHandshake(c) (b, e)
    assert[C11] c == p.conn && opened && !closed && sent
    set got := e == nil
    set valid := hsOK(b, t.Hash)
  ensures[C11] err == nil <==> sent && got && valid
  ensures[C11] opened ==> (closed <==> err != nil)
  ensures err == nil ==> connOK(p)

func peer.(*Peer).Close(p) (err)
  safety C12
  requires p != nil && (p.conn != nil ==> p.conn.c != nil)
  ghost closed int = 0
  on gotitnet.(*TimeoutConn).Close(c) (e)
    set closed := closed + ite(c == p.conn, 1, 100)
  ensures[C23] closed == ite(p.conn == nil, 0, 1)

func peer.(*Peer).SendInterested(p) (err)
  safety C12
  requires p != nil && connOK(p) && p.ClientStatus != nil
  modifies p.ClientStatus.Interested, wtold
  on gotitnet.(*TimeoutConn).WriteMsg(c, m) (n, e)
    assert c == p.conn
    assert[C06,C07] m.Type != 6
    set wtold := wtold || (m.Type == 2 && e == nil)
  ensures[C07] old(p.ClientStatus.Interested == wtold) ==> p.ClientStatus.Interested == wtold
  ensures[C07] err == nil ==> wtold

func peer.(*Peer).SendUnchoke(p) (err)
  safety C12
  requires p != nil && connOK(p) && p.PeerStatus != nil
  modifies p.PeerStatus.Choked
  ghost told bool = false
  on gotitnet.(*TimeoutConn).WriteMsg(c, m) (n, e)
    assert[C07] c == p.conn && m.Type == 1 && p.PeerStatus.Interested
    set told := e == nil
  ensures[C07] p.PeerStatus.Choked == (!told && old(p.PeerStatus.Choked))


// ---- the session ----

// what the last messages of the connection said: the peer chokes us, we told it
// that we are interested, it is interested
ghost var wchoked bool
ghost var wtold bool
ghost var wpint bool

def saysChoke(b, was) = ite(len(b) > 0 && b[0] == 0, true, ite(len(b) > 0 && b[0] == 1, false, was))
def saysInterest(b, was) = ite(len(b) > 0 && b[0] == 2, true, ite(len(b) > 0 && b[0] == 3, false, was))
def flagsOK(p) = p.ClientStatus.Choked == wchoked && p.ClientStatus.Interested == wtold && p.PeerStatus.Interested == wpint
def sameWiring(p) = p.conn == old(p.conn) && p.torrent == old(p.torrent) && p.piecesQueue == old(p.piecesQueue) && p.writeCh == old(p.writeCh) && p.ClientStatus == old(p.ClientStatus) && p.PeerStatus == old(p.PeerStatus)
def outm() = asptr(out, "util.PeerMessage")

func peer.(*Peer).unchoke(p, ctx) (err)
  flag goroutines
  requires[C25] tok > 0
  ensures[C25] tok == old(tok)
  inv[C25] tok > 0
  flag optional
  flag noframe
  safety C12
  requires peerOK(p) && connOK(p) && ctx != nil
  requires[C07] flagsOK(p)
  modifies p.Bitset, p.Bitset.bits, p.Bitset.n, p.PeerStatus.*, p.ClientStatus.*, p.lastMsgSent, conn(p.conn.c).rd, wchoked, wtold, wpint
  on gotitnet.(*TimeoutConn).ReadPeerMessage(c) (b, e)
    assert c == p.conn
    set wchoked := ite(e == nil, saysChoke(b, wchoked), wchoked)
    set wpint := ite(e == nil, saysInterest(b, wpint), wpint)
  on gotitnet.(*TimeoutConn).WriteMsg(c, m) (n, e)
    assert c == p.conn
    assert[C06,C07] m.Type != 6
    set wtold := wtold || (m.Type == 2 && e == nil)
  on chan.close(ch) ()
    assert[C25] false
  on chan.send(ch, v) ()
    assert[C25] tok > 0
    assert[C01] verified(p.torrent, v) && ch == p.writeCh
    assert[C02,C03] pieceMsgOK(p.torrent, v)
  inv peerOK(p) && connOK(p) && sameWiring(p)
  inv[C07] flagsOK(p)
  ensures peerOK(p)
  ensures[C07] flagsOK(p)

func peer.(*Peer).Run(p, ctx) ()
  flag goroutines
  requires[C25] tok > 0
  inv[C25] tok == pre(tok)
  safety C12
  requires peerOK(p) && connOK(p) && assignOK(p) && fits32(p.torrent) && ctx != nil
  requires[C07] flagsOK(p)
  flag noframe
  // out: the request taken and not yet answered or given back; lost: it will not be answered any more
  ghost out int = 0
  ghost lost bool = false
  on gotitnet.(*TimeoutConn).ReadPeerMessage(c) (b, e)
    assert c == p.conn
    assert[C06] !lost
    set wchoked := ite(e == nil, saysChoke(b, wchoked), wchoked)
    set wpint := ite(e == nil, saysInterest(b, wpint), wpint)
    set lost := out != 0 && e != nil
  on peer.(*Peer).nextRequestMessage(pp) (m)
    assert[C06,C07] pp == p && out == 0
    set out := ref(m)
  on gotitnet.(*TimeoutConn).WriteMsg(c, m) (n, e)
    assert c == p.conn
    assert[C06] !lost
    assert[C07] m.Type == 6 ==> !wchoked && wtold && ref(m) == out
    set wtold := wtold || (m.Type == 2 && e == nil)
    set lost := m.Type == 6 && e != nil
  on torrent.(*PiecesQueue).RequestFailed(q, m) ()
    assert[C06] q == p.piecesQueue && out != 0 && ref(m) == out
    set out := 0
    set lost := false
  on peer.(*Peer).handlePeerMessage(pp, m) (r)
    assert pp == p
    set lost := out != 0 && m.Type == 7 && m.index == outm().index && !r
    set out := ite(r && out != 0 && m.index == outm().index, 0, out)
  on peer.(*Peer).unchoke(pp, cx) (e)
    assert[C06] out == 0
  on chan.close(ch) ()
    assert[C25] false
  on chan.send(ch, v) ()
    assert[C25] tok > 0
    assert[C01] verified(p.torrent, v) && ch == p.writeCh
    assert[C02,C03] pieceMsgOK(p.torrent, v)
  inv peerOK(p) && connOK(p) && assignOK(p) && sameWiring(p)
  inv[C07] flagsOK(p)
  inv[C06,C07] (s bool) s <==> out != 0
  inv (s bool, m *util.PeerMessage) s ==> reqOK(m)
  inv[C06,C07] (s bool, m *util.PeerMessage) s ==> ref(m) == out
  inv[C06] !lost
  ensures[C06] out == 0
