CLAIMS = {
 "C01": ("Proved for every piece message and digest list: handlePeerMessage, CheckPiece, NewPeerMessage, and that Peer.Run and unchoke send nothing else on the write channel.", ["verified(t, m) at every send on the write channel", "r <==> verified"]),
 "C05": ("Proved for every torrent geometry: nextRequestMessage, PieceSize and the bit field of a peer; two known findings (bit order, pieces over 128 KiB).", ["reqFor(m, t, piece, blockIdx*128 KiB)", "assignOK is inductive"]),
 "C06": ("Proved for every sequence of failures and answers: Peer.Run (inductive invariant of the session), PiecesQueue under its lock.", ["out == 0 when Run returns", "RequestFailed exactly once per lost request"]),
 "C07": ("Proved for every sequence of messages: Peer.Run, unchoke, handlePeerMessage, SendInterested, SendUnchoke.", ["flagsOK(p) is inductive", "!wchoked && wtold && no other request out at every request sent"]),
 "C11": ("Proved for every byte string and info hash: createHandshake, isHandshakeValid, Announce, createClientId.", ["err == nil <==> sent && got && hsOK", "closed <==> err != nil"]),
 "C12": ("Proved for every message and peer state: no panic obligation fails in the reading, decoding and handling code, and allocations are bounded by what was received.", ["absence of panics (nil, index, slice, division, type assertion, close, send) in every function under contract"]),
 "C02": ("Proved for every list of file lengths, every position and block: Torrent.writePieceData and WritePiece. os.File.WriteAt is assumed to write what it is given.", ["inPlace at every WriteAt", "cov == len(data) when no error is returned"]),
 "C03": ("Proved for every history of blocks and write errors: WritePiece, SetDownloaded, Done, CheckPiece.", ["handled(t) between any two blocks", "SetDownloaded only for the written block that ends its piece"]),
 "C04": ("Proved for every set of the peer and every state under the lock: Torrent.Next is one critical section that assigns the lowest free piece.", ["Next postconditions over acq()/rel() states"]),
 "C08": ("Proved for every message: NewPeerMessage, Send, Data, Create*Message, and the round trips as lemmas.", ["request_roundtrip", "piece_roundtrip", "have_roundtrip", "frame_roundtrip"]),
 "C09": ("Proved for every stream and split: ReadPeerMessage, ReadPeerHandshake, ReadPacket. io.ReadFull is assumed to fill its buffer from the stream.", ["consumed bytes and content of what is returned"]),
 "C10": ("Proved for every operation of TimeoutConn: deadline set to time.Now().Add(timeout) before each read or write.", ["rset/wset at every Read/Write"]),
 "C17": ("Proved for every metainfo value: torrent.New, NewPieces, StringSet, Metainfo.Hash, util.NewStringSet; bitset.New is assumed to give an empty set.", ["t.Length == mlength(m), len(Pieces) == 20 * t.PiecesNum", "t.Pieces[i].sha1[j] == m.Info.Pieces[20*i+j]", "s in t.Trackers <==> tracks(m, s)", "an error only for invalid metainfo or a failed initDownloadDir"]),
 "C18": ("Proved for every name and list of path components: initDownloadDir and its call in New. path/filepath (Join, IsLocal, Dir) is assumed to have the stated meaning; symbolic links are not considered.", ["islocal(name) and pinside(root, p) at every Mkdir, MkdirAll, Create", "file k is created at fpath(t, root, k)", "paths pairwise different"]),
 "C24": ("Proved for every interleaving by lock discipline: each access to the guarded state in any function of the module that touches it happens with its mutex held (read lock for reads) or atomically, and every lock taken is released when the function returns. Objects made in the same function and not yet shared are exempt.", ["held(mutex) at each access of requested, downloaded, failedMessages, peerPool", "sync/atomic only for the counters", "no lock held at return"]),
 "C22": ("Proved for every interleaving: each operation of Stats is one atomic step with its stated effect; percentage and bar for every state. Floats are treated as reals.", ["percentage in 0..100 and equal to downloaded*100/total", "counters are the sums over the peers"]),
 "C19": ("Proved for every response packet and announce data: udpTracker.Announce with handshake, parseTrackerResponse, readConnect, readAnnounce, readError, createAnnounce inlined, parseCompactPeers under contract. Packets are what ReadPacket/ReadUdpHandshake return (C09).", ["layout of both requests at every Write", "err == nil <==> both responses have action, size and transaction id", "addresses returned are those of the response"]),
 "C20": ("Proved for every announce data and response: httpTracker.Announce (buildQuery, readPeers, setSeconds inlined), New and both constructors, the interval also for udpTracker.Announce. url.Values.Encode, http.Client.Do and io.ReadAll are assumed; bencode.Unmarshal/Parse by contract.", ["parameters at Encode", "request url is address, separator and query", "err == nil ==> status 200, no failure reason, peers present", "interval stays positive and only takes a value sent"]),
 "C21": ("Proved for every compact string and every list of peers: parseCompactPeers, parseBencodePeers. netip.ParseAddr and strconv.ParseUint are assumed.", ["compact(r, b)", "decoded(r, peers, len(peers))"]),
 "C14": ("Proved for every byte string: Parse, Next, readList, readDict, readInt, readString, number against a recursive description of the grammar. The values of lists and dictionaries are related to their place in the document by ghost attributes fixed when the element is made; that the whole tree is right follows by induction on nesting, each level being proved. b2s (unsafe) is assumed to give the bytes of its argument; the data is not changed while its strings are in use.", ["err == nil <==> pend(data, 0, 1000) >= 0", "got(value, data, position, levels) for every element, list item and dictionary value", "bytes(raw) == data[start:end]", "lend/dend of the rest is the same throughout the loop (inductive)"]),
 "C15": ("Proved for every element, level by level: the four Encode methods give the stated form over the encodings of their children (induction hypothesis on Bencode.Encode); the round trip of integers and strings as lemmas against the grammar of C14, and of lists and dictionaries as step lemmas. strconv.Itoa, maps.Keys and slices.Sorted are assumed.", ["s == ienc(n), senc(s)", "concatenation of the items in order", "concatenation of the entries over the sorted keys, nil entries left out", "int_roundtrip, negative_roundtrip, string_roundtrip, list_step, dict_step"]),
 "C23": ("Proved for every history: addPeer, removePeer, Stop and Download of the manager, each pool access one critical section of poolMu.", ["accepted <==> running, address free, room left", "Stop closes each pooled peer once"]),
 "C25": ("Proved for every schedule with WaitGroup tokens: each goroutine that may send holds a token taken before it was started, and close happens after Wait. sync.WaitGroup is assumed.", ["own tokens at go and Done", "waited before close", "handlePeerMessage sends only while holding a token"]),
 "C13": ("Proved for every byte string and packet: the scanner (with termination and a nesting bound), Unmarshal with processTarget and setField (the reflect calls under contracts for the Value and Type algebra), torrent.New, NewPieces, initDownloadDir, both trackers and the address decoders raise no panic obligation. Assumed: what package reflect does (contracts/24_unmarshal.gvc), and that a parsed document is a finite tree without nil elements, which follows by induction from readList and readDict.", ["no panic obligation fails", "measures of Next, readList, readDict, processTarget, setField decrease"]),
 "C16": ("Proved: Metainfo.Hash is the SHA-1 of InfoDictRaw and the torrent's hash is it; the raw form of a dictionary is its bytes in the file (C14's contracts); processTarget gives every tagged field the value of its own key and fails exactly when a required key is missing or a value does not fit; setField stores the text, number, raw bytes, list or dictionary of the value it was given, once. Assumed: what package reflect does (contracts/24_unmarshal.gvc), the filling of maps (their entries are not tracked), and that a field tag is what the type says; the replay harness compares whole documents with an independent reference.", ["bytes(r) == sha1(bytes(m.InfoDictRaw))", "bytes(t.Hash) == sha1(bytes(m.InfoDictRaw))", "err == nil ==> every wanted field of the target is filled from its key", "err == nil ==> done == 1 && !misfit(type of the field, value)"]),
}
NA = {}
