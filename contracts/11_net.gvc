// pkg/gotitnet/connection.go

// byte k of what connection c receives; .rd counts the bytes consumed
theory stream
  (declare-fun stream (Int Int) Int)
end
ghost field io.Reader.rd int

def conn(c) = asval(c, "io.Reader")
def su32(c, k) = stream(c, k)*16777216 + stream(c, k+1)*65536 + stream(c, k+2)*256 + stream(c, k+3)
def sgot(b, c, k) = (forall i int :: 0 <= i && i < len(b) ==> b[i] == stream(c, k + i))

extern io.ReadFull(r, buf) (n, err)
  requires r != nil
  modifies elems(buf), r.rd
  ensures err == nil ==> n == len(buf) && r.rd == old(r.rd) + len(buf) && sgot(buf, ival(r), old(r.rd))
  ensures err != nil ==> n < len(buf)
  ensures r.rd == old(r.rd) + n && 0 <= n && n <= len(buf)

extern io.ReadAtLeast(r, buf, min) (n, err)
  requires r != nil
  modifies elems(buf), r.rd
  ensures err == nil ==> min <= n && r.rd == old(r.rd) + n && (forall i int :: 0 <= i && i < n ==> buf[i] == stream(ival(r), old(r.rd) + i))
  ensures old(r.rd) <= r.rd && 0 <= n && n <= len(buf)

extern io.ReadAll(r) (b, err)
  requires r != nil
  modifies r.rd

extern net.Conn.Read(c, b) (n, err)
  modifies elems(b), conn(c).rd
  ensures 0 <= n && n <= len(b) && conn(c).rd == old(conn(c).rd) + n
  ensures forall i int :: 0 <= i && i < n ==> b[i] == stream(ival(c), old(conn(c).rd) + i)

extern net.Conn.Write(c, b) (n, err)
  ensures 0 <= n && n <= len(b)
extern net.Conn.Close(c) (err)
extern net.Conn.SetReadDeadline(c, t) (err)
extern net.Conn.SetWriteDeadline(c, t) (err)
extern net.Conn.SetDeadline(c, t) (err)
extern net.DialTimeout(network, address, timeout) (c, err)
  ensures err == nil ==> c != nil && fresh(c)

block readdl
  ghost now int = 0
  ghost dl int = 0
  ghost dlok bool = false
  ghost rset bool = false
  ghost dfail bool = false
  on time.Now() (t)
    set now := t
  on time.(Time).Add(t, d) (r)
    set dl := r
    set dlok := t == now && d == c.timeout
  on net.Conn.SetReadDeadline(cc, t) (e)
    set rset := cc == c.c && dlok && t == dl && e == nil
    set dfail := e != nil
  on net.Conn.SetDeadline(cc, t) (e)
    set rset := cc == c.c && dlok && t == dl && e == nil
    set dfail := e != nil
block writedl
  ghost now int = 0
  ghost dl int = 0
  ghost dlok bool = false
  ghost wset bool = false
  ghost dfail bool = false
  on time.Now() (t)
    set now := t
  on time.(Time).Add(t, d) (r)
    set dl := r
    set dlok := t == now && d == c.timeout
  on net.Conn.SetWriteDeadline(cc, t) (e)
    set wset := cc == c.c && dlok && t == dl && e == nil
    set dfail := e != nil
  on net.Conn.SetDeadline(cc, t) (e)
    set wset := cc == c.c && dlok && t == dl && e == nil
    set dfail := e != nil
block reads
  ghost ioerr bool = false
  on net.Conn.Read(cc, p) (n, e)
    assert[C10] rset
    set ioerr := ioerr || e != nil
  on io.ReadFull(r, p) (n, e)
    assert[C10] rset
    set ioerr := ioerr || e != nil
  on io.ReadAtLeast(r, p, m) (n, e)
    assert[C10] rset
    set ioerr := ioerr || e != nil
  on io.ReadAll(r) (p, e)
    assert[C10] rset
    set ioerr := ioerr || e != nil

func gotitnet.NewTimeoutConn(network, address, timeout) (c, err)
  safety C12
  ensures err == nil ==> c != nil && c.c != nil && fresh(c) && fresh(c.c)
  ensures[C10] err == nil ==> c.timeout == timeout
  ensures err != nil ==> c == nil

func gotitnet.(*TimeoutConn).ReadPeerMessage(c) (b, err)
  safety C12
  requires c != nil && c.c != nil
  modifies conn(c.c).rd
  use readdl
  use reads
  on make.slice(n, cp) ()
    assert[C09,C12] n <= 2097152 && cp <= 2097152
  ensures[C10] dfail ==> err != nil
  ensures[C09] err == nil ==> len(b) == su32(ival(c.c), old(conn(c.c).rd)) && conn(c.c).rd == old(conn(c.c).rd) + 4 + len(b) && sgot(b, ival(c.c), old(conn(c.c).rd) + 4)
  ensures[C09,C12] err == nil ==> len(b) <= 2097152
  ensures[C09] !ioerr && !dfail && su32(ival(c.c), old(conn(c.c).rd)) <= 2097152 ==> err == nil

func gotitnet.(*TimeoutConn).ReadPeerHandshake(c) (b, err)
  safety C12
  requires c != nil && c.c != nil
  modifies conn(c.c).rd
  use readdl
  use reads
  ensures[C10] dfail ==> err != nil
  ensures[C09,C11] err == nil ==> len(b) == 68
  ensures[C09] !ioerr && !dfail ==> err == nil
  ensures[C09] err == nil ==> conn(c.c).rd == old(conn(c.c).rd) + 68 && sgot(b, ival(c.c), old(conn(c.c).rd))

func gotitnet.(*TimeoutConn).ReadUdpHandshake(c) (b, err)
  flag optional
  requires c != nil && c.c != nil
  modifies conn(c.c).rd
  use readdl
  use reads
  ensures[C10] dfail ==> err != nil

func gotitnet.(*TimeoutConn).ReadAll(c) (b, err)
  flag optional
  requires c != nil && c.c != nil
  modifies conn(c.c).rd
  use readdl
  use reads
  ensures[C10] dfail ==> err != nil

func gotitnet.(*TimeoutConn).ReadPacket(c) (b, err)
  safety C13
  requires c != nil && c.c != nil
  modifies conn(c.c).rd
  ghost reads int = 0
  use readdl
  use reads
  on net.Conn.Read(cc, p) (n, e)
    assert[C09] len(p) >= 65507 && cc == c.c
    set reads := reads + 1
  on io.ReadFull(r, p) (n, e)
    set reads := reads + 2
  on io.ReadAll(r) (p, e)
    set reads := reads + 2
  ensures[C09] !ioerr && !dfail ==> err == nil
  ensures[C10] dfail ==> err != nil
  ensures[C09] err == nil ==> reads == 1 && conn(c.c).rd == old(conn(c.c).rd) + len(b) && sgot(b, ival(c.c), old(conn(c.c).rd))

func gotitnet.(*TimeoutConn).WriteMsg(c, msg) (n, err)
  safety C12
  requires c != nil && c.c != nil && msg != nil
  requires[C08] wellFormed(msg)
  use writedl
  ghost sent int = 0
  on net.Conn.Write(cc, p) (n, e)
    assert[C10] wset
    assert[C08] bytes(p) == wire(msg)
    set sent := sent + 1
  on util.(PeerMessage).Send(m, w) (n, e)
    assert[C10] wset
    assert[C08] tag(w) == tag(c.c) && ival(w) == ival(c.c) && m == *msg
    set sent := sent + 1
  ensures[C10] dfail ==> err != nil
  ensures[C08] err == nil ==> sent == 1

func gotitnet.(*TimeoutConn).Write(c, data) (n, err)
  safety C12
  requires c != nil && c.c != nil
  use writedl
  ghost sent int = 0
  on net.Conn.Write(cc, p) (n, e)
    assert[C10] wset
    assert[C19,C11] cc == c.c && bytes(p) == bytes(data)
    set sent := sent + 1
  ensures[C10] dfail ==> err != nil
  ensures[C19,C11] err == nil ==> sent == 1

func gotitnet.(*TimeoutConn).Close(c) (err)
  safety C12
  requires c != nil && c.c != nil
  ghost closed int = 0
  on net.Conn.Close(cc) (e)
    set closed := closed + ite(cc == c.c, 1, 100)
  ensures[C11,C23] closed == 1
