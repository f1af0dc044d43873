// pkg/tracker, http

theory dec
  (declare-fun dec (Int) Str)
end
extern strconv.FormatUint(n, base) (s)
  ensures base == 10 ==> s == dec(n)
extern strconv.FormatInt(n, base) (s)
  ensures base == 10 ==> s == dec(n)
extern strconv.Itoa(n) (s)
  ensures s == dec(n)
function strings.Contains

extern http.NewRequestWithContext(ctx, method, url, body) (r, err)
  requires ctx != nil
  ensures err == nil ==> r != nil && fresh(r)
extern http.(*Client).Do(c, r) (res, err)
  requires c != nil && r != nil
  ensures err == nil ==> res != nil && fresh(res) && res.Body != nil && fresh(res.Body)
extern http.(*Client).Get(c, url) (res, err)
  requires c != nil
  ensures err == nil ==> res != nil && fresh(res) && res.Body != nil && fresh(res.Body)
transparent http.Response
extern uuid.NewString() (s)
pure url.(Values).Encode io.ReadCloser.Close
pure inline:url.(Values).Set

global http.DefaultClient: self != nil

def param(v, k, val) = k in v && len(v[k]) >= 1 && v[k][0] == val

extern bencode.Unmarshal(data, v) (err)
  modifies pointee(v)
def hasQ(addr) = fbool("strings.Contains", addr, "?")

func tracker.(*httpTracker).Announce(t, ctx, hash, data) (ips, err)
  safety C13
  requires t != nil && t.c != nil && t.logger != nil && ctx != nil && data != nil && trackerIv(t) > 0
  modifies t.waitInterval.interval
  ghost enc str = ""
  ghost nenc int = 0
  ghost req int = 0
  ghost did int = 0
  ghost status int = 0
  ghost failed bool = false
  ghost secs int = 0
  ghost found bool = false
  on url.(Values).Encode(v) (s)
    assert[C20] nenc == 0
    assert[C20] param(v, "info_hash", hash) && param(v, "peer_id", bytes(peer.ClientId)) && param(v, "port", dec(data.Port))
    assert[C20] param(v, "downloaded", dec(data.Downloaded)) && param(v, "uploaded", dec(data.Uploaded)) && param(v, "left", dec(data.Left)) && param(v, "compact", "1")
    set enc := s
    set nenc := nenc + 1
  on http.NewRequestWithContext(c, method, u, body) (r, e)
    assert[C20] nenc == 1 && method == "GET" && body == nil && u == ite(hasQ(t.addr), cat(t.addr, "&", enc), cat(t.addr, "?", enc))
    set req := ref(r)
  on http.(*Client).Do(c, r) (res, e)
    assert[C20] did == 0 && ref(r) == req
    set did := did + 1
    set status := ite(e == nil, res.StatusCode, 0)
  on bencode.Unmarshal(d, v) (e)
    set failed := failed || (e == nil && is(v, "*gotit.AnnounceResponse") && asptr(ival(v), "gotit.AnnounceResponse").Failure != "")
    set secs := ite(is(v, "*gotit.AnnounceResponse"), asptr(ival(v), "gotit.AnnounceResponse").Interval, secs)
  on bencode.(DictElement).Value(d, k) (b)
    set found := found || (k == "peers" && b != nil)
  ensures[C20] err == nil ==> did == 1 && status == 200 && !failed && found
  ensures[C20] trackerIv(t) > 0
  ensures[C20] trackerIv(t) == old(trackerIv(t)) || (0 < secs && trackerIv(t) == secs * 1000000000)

transparent url.URL
extern url.Parse(s) (u, err)
  ensures err == nil ==> u != nil

func tracker.newHttpTracker(addr, client, logger) (t)
  flag optional
  safety C13
  ensures t != nil && t.c == client && t.logger == logger
  ensures[C20] trackerIv(t) > 0 && t.addr == addr

func tracker.newUdpTracker(u, logger) (t, err)
  flag optional
  safety C13
  requires u != nil
  ensures err == nil ==> t != nil && t.conn != nil && t.conn.c != nil && t.log == logger
  ensures[C20] err == nil ==> trackerIv(t) > 0

func tracker.New(addr, logger) (t, err)
  safety C13
  props C20 C25
  ensures err == nil ==> t != nil && ival(t) != 0
  ensures[C20] err == nil && is(t, "*tracker.httpTracker") ==> trackerIv(asptr(ival(t), "tracker.httpTracker")) > 0
