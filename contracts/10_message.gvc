// pkg/util/peer_message.go: peer wire messages

// what a received body means
def bodyOK(d) = len(d) > 0 && ite(d[0] == 4, len(d) >= 5, ite(d[0] == 6 || d[0] == 8, len(d) >= 13, ite(d[0] == 7, len(d) >= 9, true)))

// a message we may send: its length field fits its payload
def wellFormed(m) = (m.Type == 99 && m.len == 0) || (m.Type != 99 && m.Type != 255 && m.len == 1 + len(m.payload))

// the bytes a message is sent as
def wire(m) = ite(m.Type == 99, be4(0), cat(be4(1 + len(m.payload)), be1(m.Type), bytes(m.payload)))

func util.NewPeerMessage(data) (m)
  safety C12
  ensures m != nil
  ensures[C08,C07,C12] len(data) == 0 ==> m.Type == 99 && m.len == 0
  ensures[C08,C01,C07] len(data) > 0 && bodyOK(bytes(data)) ==> m.Type == data[0]
  ensures[C08,C12,C07] len(data) > 0 && !bodyOK(bytes(data)) ==> m.Type == 255
  ensures[C08] len(data) > 0 ==> bytes(m.payload) == bytes(data[1:len(data)])
  ensures[C08] len(data) > 0 && m.Type == 4 ==> m.index == u32at(bytes(data), 1)
  ensures[C08] len(data) > 0 && (m.Type == 6 || m.Type == 7 || m.Type == 8) ==> m.index == u32at(bytes(data), 1) && m.offset == u32at(bytes(data), 5)
  ensures[C08] len(data) > 0 && (m.Type == 6 || m.Type == 8) ==> m.blockLength == u32at(bytes(data), 9)
  ensures m.Type == 7 ==> len(m.payload) >= 8

func util.(PeerMessage).Send(m, w) (n, err)
  requires w != nil
  requires[C08] wellFormed(m)
  ghost writes int = 0
  on io.Writer.Write(dst, p) (n, err)
    assert[C08] dst == w
    assert[C08] bytes(p) == wire(m)
    set writes := writes + 1
  ensures[C08] writes == 1

func util.(PeerMessage).Data(m) (d)
  safety C12
  requires m.Type == 7 ==> len(m.payload) >= 8
  ensures[C08] m.Type == 7 ==> bytes(d) == bytes(m.payload[8:len(m.payload)])
  ensures m.Type == 7 ==> len(d) == len(m.payload) - 8 && arr(d) == arr(m.payload) && off(d) == off(m.payload) + 8
  ensures[C08,C01] m.Type != 7 ==> len(d) == 0

func util.(PeerMessage).Index(m) (r)
  ensures r == m.index

func util.(PeerMessage).Offset(m) (r)
  ensures r == m.offset

func util.(PeerMessage).BlockLength(m) (r)
  ensures r == m.blockLength

func util.CreateInterestedMessage() (m)
  ensures m != nil && fresh(m)
  ensures m.Type == 2 && m.len == 1 && len(m.payload) == 0

func util.CreateChokeMessage() (m)
  ensures m != nil && fresh(m)
  ensures[C08] m.Type == 0 && m.len == 1 && len(m.payload) == 0

func util.CreateUnchokeMessage() (m)
  ensures m != nil && fresh(m)
  ensures[C08,C07] m.Type == 1 && m.len == 1 && len(m.payload) == 0

func util.CreatePieceMessage(index, offset, blockLength) (m)
  ensures m != nil && fresh(m)
  ensures m.Type == 6 && m.len == 13 && len(m.payload) == 12
  ensures[C08,C05] bytes(m.payload) == cat(be4(index), be4(offset), be4(blockLength))
  ensures m.index == index && m.offset == offset && m.blockLength == blockLength

func util.createHaveMessage(index) (m)
  flag optional
  ensures[C08] m != nil && m.Type == 4 && m.len == 5 && bytes(m.payload) == be4(index)

func util.createCancelMessage(index, offset, blockLength) (m)
  flag optional
  ensures[C08] m != nil && m.Type == 8 && m.len == 13 && bytes(m.payload) == cat(be4(index), be4(offset), be4(blockLength))

// decoding what encoding gives
lemma[C08] request_roundtrip(i int, o int, l int, b Str): 0 <= i && i < 4294967296 && 0 <= o && o < 4294967296 && 0 <= l && l < 4294967296;
      b == cat(be1(6), cat(be4(i), be4(o), be4(l)));
      len(b) == 13 && b[0] == 6 && u32at(b, 1) == i && u32at(b, 5) == o && u32at(b, 9) == l
lemma[C08] piece_roundtrip(i int, o int, d Str, b Str): 0 <= i && i < 4294967296 && 0 <= o && o < 4294967296;
      b == cat(be1(7), cat(be4(i), be4(o), d));
      len(b) == 9 + len(d) && b[0] == 7 && u32at(b, 1) == i && u32at(b, 5) == o && (forall j int :: 0 <= j && j < len(d) ==> b[9+j] == d[j])
lemma[C08] have_roundtrip(i int, b Str): 0 <= i && i < 4294967296; b == cat(be1(4), be4(i)); len(b) == 5 && b[0] == 4 && u32at(b, 1) == i
lemma[C08] frame_roundtrip(t int, p Str, w Str): 0 <= t && t < 256 && len(p) < 4294967295; w == cat(be4(1 + len(p)), be1(t), p);
      len(w) == 5 + len(p) && u32at(w, 0) == 1 + len(p) && w[4] == t && (forall j int :: 0 <= j && j < len(p) ==> w[5+j] == p[j])

// ---- bit fields ----
// byte j of a payload, zero padded
def padded(s, j) = ite(j < len(s), s[j], 0)
def pad64(s, j) = (padded(s, j)*16777216 + padded(s, j+1)*65536 + padded(s, j+2)*256 + padded(s, j+3))*4294967296 + padded(s, j+4)*16777216 + padded(s, j+5)*65536 + padded(s, j+6)*256 + padded(s, j+7)

func util.(PeerMessage).Bitfield(m) (b)
  safety C12
  modifies elems(m.payload[0:cap(m.payload)])
  on make.slice(n, cp) ()
    assert[C12] n <= len(m.payload) + 8 && cp <= len(m.payload) + 8
  inv (q []byte) len(q) % 8 == 0
  ensures m.Type == 5 ==> b != nil && fresh(b)
  ensures m.Type != 5 ==> b == nil && bytes(m.payload) == old(bytes(m.payload))

// bit k of the field says whether the peer has piece k, the highest bit of a byte first
func util.(PeerMessage).Bitfield@spec(m) (b)
  props C05
  modifies elems(m.payload[0:cap(m.payload)])
  ensures[C05] m.Type == 5 ==> (forall k int :: 0 <= k && k < 8 * len(m.payload) ==> (b.bits[k] <==> wbit(old(bytes(m.payload))[k / 8], 7 - k % 8)))

func util.(PeerMessage).Bitfield@known(m) (b)
  props C05
  modifies elems(m.payload[0:cap(m.payload)])
  inv (i int, s any[]uint64) forall j int :: 0 <= j && j < i ==> s[j] == pad64(old(bytes(m.payload)), 8 * j)
  inv (i int, s any[]uint64) forall j int :: 0 <= j && j <= i ==> s[j] == pad64(old(bytes(m.payload)), 8 * j)
  inv (q any[]byte) forall j int :: 0 <= j && j < len(q) ==> q[j] == padded(old(bytes(m.payload)), j)
  inv (s []uint64, q []byte) len(q) + 8 * len(s) == 8 * ((len(m.payload) + 7) / 8)
  inv (s []uint64, q []byte) forall j int :: 0 <= j && j < len(q) ==> q[j] == padded(old(bytes(m.payload)), 8 * len(s) + j)
  inv (s []uint64) forall j int :: 0 <= j && j < len(s) ==> s[j] == pad64(old(bytes(m.payload)), 8 * j)
  ensures[C05] m.Type == 5 ==> (forall k int :: 0 <= k && k < 8 * len(m.payload) ==> (b.bits[k] <==> wbit(pad64(old(bytes(m.payload)), 8 * (k / 64)), k % 64)))
