// pkg/tracker

pure pkg:github.com/avast/retry-go pkg:net/url pkg:net/http

// ---- addresses ----
theory netip
  (declare-fun ip4 (Int Int Int Int) Int)
  (declare-fun addrport (Int Int) Int)
  (declare-fun apvalid (Int) Bool)
  (declare-fun ipvalid (Int) Bool)
  (assert (forall ((a Int) (b Int) (c Int) (d Int)) (! (ipvalid (ip4 a b c d)) :pattern ((ip4 a b c d)))))
  (assert (forall ((a Int) (p Int)) (! (= (apvalid (addrport a p)) (ipvalid a)) :pattern ((addrport a p)))))
end
extern netip.AddrFrom4(a) (r)
  ensures r == ip4(a[0], a[1], a[2], a[3])
extern netip.AddrFromSlice(s) (r, ok)
  ensures len(s) == 4 ==> ok && r == ip4(s[0], s[1], s[2], s[3])
  ensures ok ==> len(s) == 4 || len(s) == 16
extern netip.AddrPortFrom(a, p) (r)
  ensures r == addrport(a, p)
extern netip.(AddrPort).IsValid(a) (r)
  ensures r == apvalid(a)
extern netip.(Addr).IsValid(a) (r)
  ensures r == ipvalid(a)

// address i of a compact list
def compactIn(b, o) = addrport(ip4(b[o], b[o+1], b[o+2], b[o+3]), b[o+4]*256 + b[o+5])
def compactAt(b, i) = compactIn(b, 6*i)
def compact(r, b) = len(r) == len(b) / 6 && (forall i int :: 0 <= i && i < len(r) ==> r[i] == compactAt(b, i))

func tracker.parseCompactPeers(b) (r)
  safety C13
  inv (i int, s any[]netip.AddrPort) forall j int :: 0 <= j && j < i ==> s[j] == compactAt(b, j)
  inv (i int, s any[]netip.AddrPort) i == len(s)
  inv (i int, s any[]netip.AddrPort) 6 * len(s) <= len(b) && i == 6 * len(s)
  inv (q any[]byte, s any[]netip.AddrPort) arr(q) == arr(b) && off(q) == off(b) + 6 * len(s) && len(q) == len(b) - 6 * len(s)
  inv (s any[]netip.AddrPort) forall j int :: 0 <= j && j < len(s) ==> s[j] == compactAt(b, j)
  ensures[C21] compact(r, b)
  ensures[C19] compact(r, b)

// ---- udp ----
def trackerIv(t) = t.waitInterval.interval
def ivOK(t, secs) = trackerIv(t) == old(trackerIv(t)) || (0 < secs && trackerIv(t) == secs * 1000000000)
def connectReq(d) = len(d) == 16 && u64at(d, 0) == 4497486125440 && u32at(d, 8) == 0
def announceIds(d, cid) = u64at(d, 0) == cid && u32at(d, 8) == 1
def announceWho(d, hash) = d[16:36] == hash && d[36:56] == bytes(peer.ClientId)
def announceStats(d, a) = u64at(d, 56) == a.Downloaded && u64at(d, 64) == a.Left && u64at(d, 72) == a.Uploaded
def announcePort(d, a) = u16at(d, 96) == a.Port % 65536

block udpreply
    assert[C19] c == t.conn && (stage == 1 || stage == 3)
    set okc := ite(stage == 1, e == nil && len(b) >= 16 && u32at(bytes(b), 0) == 0 && u32at(bytes(b), 4) == tid, okc)
    set cid := ite(stage == 1, u64at(bytes(b), 8), cid)
    set oka := stage == 3 && e == nil && len(b) >= 20 && u32at(bytes(b), 0) == 1 && u32at(bytes(b), 4) == tid
    set reply := bytes(b)
    set secs := u32at(bytes(b), 8)
    set stage := stage + 1

func tracker.(*udpTracker).Announce(t, ctx, hash, data) (ips, err)
  safety C13
  requires t != nil && t.conn != nil && t.conn.c != nil && t.log != nil && ctx != nil && data != nil && len(hash) == 20 && trackerIv(t) > 0
  modifies t.connectionId, t.transactionId, t.ips, t.waitInterval.interval, conn(t.conn.c).rd
  ghost stage int = 0
  ghost tid int = 0
  ghost cid int = 0
  ghost okc bool = false
  ghost oka bool = false
  ghost secs int = 0
  ghost reply str = ""
  on gotitnet.(*TimeoutConn).Write(c, d) (n, e)
    assert[C19] c == t.conn && (stage == 0 || stage == 2)
    assert[C19] stage == 0 ==> connectReq(bytes(d))
    assert[C19] stage == 2 ==> okc && len(d) == 98
    assert[C19] stage == 2 ==> announceIds(bytes(d), cid)
    assert[C19] stage == 2 ==> announceWho(bytes(d), hash)
    assert[C19] stage == 2 ==> announceStats(bytes(d), data)
    assert[C19] stage == 2 ==> announcePort(bytes(d), data)
    set tid := u32at(bytes(d), 12)
    set stage := stage + 1
  on gotitnet.(*TimeoutConn).ReadUdpHandshake(c) (b, e)
    use udpreply
  on gotitnet.(*TimeoutConn).ReadPacket(c) (b, e)
    use udpreply
  ensures[C19] err == nil ==> stage == 4 && okc && oka
  ensures[C19] okc && oka ==> err == nil
  ensures[C19] err != nil ==> len(ips) == 0
  ensures[C19] err == nil ==> len(ips) == (len(reply) - 20) / 6 && (forall i int :: 0 <= i && i < len(ips) ==> ips[i] == compactIn(reply, 20 + 6*i))
  ensures[C20] trackerIv(t) > 0
  ensures[C20] trackerIv(t) == old(trackerIv(t)) || (oka && ivOK(t, secs))

// ---- peers as dictionaries ----
theory parsed
  (declare-fun ipok (Str) Bool)
  (declare-fun ipof (Str) Int)
  (declare-fun decok (Str) Bool)
  (declare-fun decof (Str) Int)
end
extern netip.ParseAddr(s) (a, err)
  ensures (err == nil) == ipok(s)
  ensures err == nil ==> a == ipof(s) && ipvalid(a)
extern strconv.ParseUint(s, base, bits) (n, err)
  ensures base == 10 && bits == 16 ==> (err == nil) == (decok(s) && decof(s) < 65536)
  ensures base == 10 && bits == 32 ==> (err == nil) == (decok(s) && decof(s) < 4294967296)
  ensures base == 10 && bits == 64 ==> (err == nil) == (decok(s) && decof(s) < 18446744073709551616)
  ensures base == 10 && err == nil ==> n == decof(s) && n >= 0
  ensures base == 0 ==> (err == nil) == fbool("parse uint ok", s, base, bits)
  ensures base == 0 && err == nil ==> n == fint("parse uint", s, base, bits)

theory cntv
  (declare-fun pvalid (Str Str) Bool)
  (assert (forall ((a Str) (b Str)) (! (= (pvalid a b) (and (ipok a) (decok b) (< (decof b) 65536))) :pattern ((pvalid a b)))))
  (declare-fun cntv ((Array Int Str) (Array Int Str) Int Int) Int)
  (assert (forall ((a (Array Int Str)) (b (Array Int Str)) (o Int)) (! (= (cntv a b o o) 0) :pattern ((cntv a b o o)))))
  (assert (forall ((a (Array Int Str)) (b (Array Int Str)) (o Int) (j Int)) (! (=> (<= o j) (= (cntv a b o (+ j 1)) (+ (cntv a b o j) (ite (pvalid (select a j) (select b j)) 1 0)))) :pattern ((cntv a b o j) (select a j)))))
end
// the number of valid entries before entry k
def nvalid(ps, k) = cntv(elems(ps, "Ip"), elems(ps, "Port"), off(ps), off(ps) + k)
def validPeer(p) = pvalid(p.Ip, p.Port)
def peerAddr(p) = addrport(ipof(p.Ip), decof(p.Port))
def decoded(r, ps, k) = len(r) == nvalid(ps, k) && (forall i int :: 0 <= i && i < k && validPeer(ps[i]) ==> nvalid(ps, i) < len(r) && r[nvalid(ps, i)] == peerAddr(ps[i]))

func tracker.(*httpTracker).parseBencodePeers(t, ps) (r)
  safety C13
  requires t != nil && t.logger != nil
  inv (i int, s any[]netip.AddrPort) len(s) == nvalid(ps, i)
  inv (i int, s any[]netip.AddrPort) len(s) == nvalid(ps, i + 1)
  inv (i int, s any[]netip.AddrPort) decoded(s, ps, i)
  inv (i int, s any[]netip.AddrPort) decoded(s, ps, i + 1)
  ensures[C21] decoded(r, ps, len(ps))
