#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop("C01","Only verified piece data is passed on for writing",
 "A block received from a peer is handed to the disk writer exactly when its data has the SHA-1 that the torrent lists for its piece index and it claims offset 0 of that piece. Every other piece message, whatever its index, offset, length and content, is dropped without any change to the download state.",
 ["inputs"],"every piece message (index, offset, data) and every list of digests",
 "Tests feed a mock checker one good and one bad message; the index, offset and digest list range over all values.",
 ["pkg/peer/peer.go","pkg/torrent/torrent.go","pkg/torrent/piece.go","pkg/util/peer_message.go"],
 [("Peer.handlePieceMessage","pkg/peer/peer.go"),("Torrent.CheckPiece","pkg/torrent/torrent.go"),("NewPieces","pkg/torrent/piece.go"),("PeerMessage.Data/Index/Offset","pkg/util/peer_message.go")],
 [("Torrent.Pieces","SHA-1 digests by piece index","pkg/torrent/torrent.go")],["messages on the write channel"])
prop("C02","Every written byte lands at its place in the torrent's files",
 "Writing a block at torrent position P puts byte j of the block at position P+j of the concatenation of the torrent's files, splitting it at file boundaries (empty files included), where a block of piece i at offset o has P = i*pieceLength+o. No other byte of any file changes, and in a torrent of several files nothing is written past the declared length of a file: a block that does not fit is reported as an error.",
 ["inputs"],"every list of file lengths, every piece length, every index, offset and block",
 "Five hand-picked layouts are tested; the arithmetic has to be right for every layout, including zero-length files and blocks spanning many files.",
 ["pkg/torrent/torrent.go"],[("Torrent.writePieceData","pkg/torrent/torrent.go"),("Torrent.WritePiece","pkg/torrent/torrent.go")],
 [("Torrent.TorrentFiles","declared files in order","pkg/torrent/torrent.go"),("Torrent.OsFiles","open file per declared file","pkg/torrent/torrent.go")],["content of the files"])
prop("C03","A piece counts as downloaded only when it was written to its end",
 "A piece is marked as downloaded exactly when a block that ends at the end of the piece (its piece length or, for the last piece, the end of the torrent) was written without an error; no other piece is marked by it and marks never disappear. The torrent reports done exactly when every one of its pieces is marked.",
 ["inputs","histories"],"every history of blocks handed to the writer, every write error, every torrent geometry",
 "Tests look at single calls with a handful of pieces; the guarantee is about every sequence of blocks and I/O errors.",
 ["pkg/torrent/torrent.go"],[("Torrent.WritePiece","pkg/torrent/torrent.go"),("Torrent.SetDownloaded","pkg/torrent/torrent.go"),("Torrent.Done","pkg/torrent/torrent.go")],
 [("Torrent.downloaded","set of downloaded pieces","pkg/torrent/torrent.go")],["Torrent.Done"])
prop("C04","A piece is assigned to one peer only",
 "When peers concurrently ask for a piece to download, each is given the lowest-numbered piece of the torrent that it has and that was not given out before, and that piece is never given out again. When there is no such piece the answer says so and nothing changes.",
 ["inputs","schedules","histories"],"every set of assigned pieces, every availability set, every interleaving of callers",
 "Tests call the selector sequentially on bitsets of at most five bits.",
 ["pkg/torrent/torrent.go"],[("Torrent.Next","pkg/torrent/torrent.go"),("requestedMu","pkg/torrent/torrent.go")],
 [("Torrent.requested","set of assigned pieces","pkg/torrent/torrent.go")],["result of Torrent.Next"])
prop("C05","Block requests cover a piece exactly",
 "The requests a peer connection issues for an assigned piece start at offset 0 and follow each other without gap or overlap, each at most 128 KiB long, and end exactly at the end of the piece, also for the shorter last piece and for piece lengths that are no multiple of the block size. Only after that, or before the first piece, is a previously failed request or a newly assigned piece that the peer has requested. A correct answer to such a request is accepted.",
 ["inputs","histories"],"every torrent length, piece length, piece index and number of requests issued so far",
 "Tests check the first two blocks of pieces that are a multiple of the block size.",
 ["pkg/peer/peer.go","pkg/torrent/torrent.go"],[("Peer.nextRequestMessage","pkg/peer/peer.go"),("Peer.createPieceMessage","pkg/peer/peer.go"),("Torrent.PieceSize","pkg/torrent/torrent.go")],
 [("Peer.blockIdx, pieceIdx, blockNum","progress within the assigned piece","pkg/peer/peer.go")],["request messages"])
prop("C06","A failed request is never lost",
 "A request that could not be sent, got no answer, or was answered with data that fails verification is put on the queue of failed requests, once. The queue gives every request put on it back exactly once, most recent first, and reports emptiness only when it is empty, whatever the interleaving of the peers using it.",
 ["histories","schedules","fault_sequences"],"every sequence of send and receive failures and answers, every interleaving on the queue",
 "No test runs the request loop, and the queue is only used with a single element.",
 ["pkg/peer/peer.go","pkg/torrent/pieces_queue.go"],[("Peer.Run","pkg/peer/peer.go"),("PiecesQueue","pkg/torrent/pieces_queue.go")],
 [("PiecesQueue.failedMessages","failed requests","pkg/torrent/pieces_queue.go")],["PiecesQueue.FailedPieceMessage"])
prop("C07","Blocks are requested only when allowed, one at a time",
 "A connection sends a block request only after the peer unchoked it and we told the peer we are interested, and never while another of its requests is unanswered and not given up. The choke and interest flags always equal what the last choke, unchoke, interested and not-interested messages said, and no other message changes them.",
 ["histories","inputs"],"every sequence of messages and failures on a connection",
 "Tests deliver single messages to a fresh peer; the request loop is not tested.",
 ["pkg/peer/peer.go"],[("Peer.Run","pkg/peer/peer.go"),("Peer.handlePeerMessage","pkg/peer/peer.go"),("Peer.SendInterested","pkg/peer/peer.go")],
 [("Peer.ClientStatus, PeerStatus","choke and interest state","pkg/peer/peer.go")],["messages on the wire"])
prop("C08","Peer messages are encoded and decoded exactly",
 "A message is sent as its 4-byte big-endian length, its type byte and its payload in one write (a keepalive as four zero bytes), and a request carries piece index, offset and length as 4-byte big-endian numbers in this order. Decoding a received body yields its type and payload unchanged, and for have, request, cancel and piece messages the index, offset, length and data that the bytes encode; decoding an encoded message gives the same message back.",
 ["inputs"],"every message body and every index, offset, length and payload",
 "There are no tests for the message codec itself; others only use single values.",
 ["pkg/util/peer_message.go"],[("NewPeerMessage","pkg/util/peer_message.go"),("PeerMessage.Send","pkg/util/peer_message.go"),("CreatePieceMessage","pkg/util/peer_message.go"),("createHaveMessage, createCancelMessage, createSignalMessage","pkg/util/peer_message.go")],
 (),["bytes on the wire"])
prop("C09","Messages are cut from the peer's byte stream exactly",
 "Reading a peer message consumes the 4-byte big-endian length and exactly that many bytes and returns those bytes, however the stream is split into reads, or fails; a length over 2 MiB fails without allocating. Reading a handshake consumes and returns exactly 68 bytes, and a datagram read returns one packet.",
 ["inputs"],"every byte stream, every length prefix and every splitting of the stream into reads",
 "Tests send four short well-formed messages, each in one write.",
 ["pkg/gotitnet/connection.go"],[("TimeoutConn.ReadPeerMessage","pkg/gotitnet/connection.go"),("TimeoutConn.readExactly","pkg/gotitnet/connection.go"),("TimeoutConn.ReadPeerHandshake, ReadUdpHandshake, ReadPacket","pkg/gotitnet/connection.go")],
 (),["returned bytes and stream position"])
prop("C10","No peer or udp tracker I/O runs without a fresh deadline",
 "Every read from and write to a peer or udp tracker connection is preceded, in the same operation, by setting the deadline of that direction to now plus the connection's timeout; if the deadline cannot be set, nothing is read or written and the error is returned.",
 ["inputs","fault_sequences"],"every operation of a connection and every failure of setting the deadline",
 "Tests check that a failing deadline is reported by each operation, not that one is set before each I/O, nor its value.",
 ["pkg/gotitnet/connection.go"],[("TimeoutConn.setReadDeadline, setWriteDeadline","pkg/gotitnet/connection.go")],(),["calls on the net.Conn"])
prop("C11","Handshakes are well formed and only matching ones are accepted",
 "The handshake we send is byte 19, the protocol name, 8 zero bytes, the torrent's info hash and our 20-byte client id starting with -GO0100-. A peer is accepted exactly when its handshake has at least 68 bytes, starts with byte 19 and the protocol name, and carries the same info hash; its reserved bytes and id do not matter, and a peer that is not accepted is disconnected.",
 ["inputs"],"every received byte string and every info hash",
 "Tests try one corrupted value per field.",
 ["pkg/peer/peer.go"],[("createHandshake","pkg/peer/peer.go"),("isHandshakeValid","pkg/peer/peer.go"),("Peer.Announce","pkg/peer/peer.go"),("createClientId","pkg/peer/peer.go")],(),["handshake bytes, result of Announce"])
prop("C12","No input from a peer can crash the client",
 "Whatever bytes a peer sends, reading, decoding and handling them never panics and never makes the client allocate memory out of proportion to what was sent: a malformed message is ignored. Closing a peer, connected or not, and showing the progress of a download are safe as well.",
 ["inputs","histories"],"every byte sequence a peer may send, in every peer state",
 "Tests only send well-formed messages.",
 ["pkg/util/peer_message.go","pkg/peer/peer.go","pkg/gotitnet/connection.go","pkg/torrent/torrent.go","pkg/stats/progress_bar.go"],
 [("NewPeerMessage length check","pkg/util/peer_message.go"),("CheckPiece index check","pkg/torrent/torrent.go"),("MaxPeerMessageSize","pkg/gotitnet/connection.go"),("PercentCompleted","pkg/stats/stats.go")],(),["panics"])
prop("C13","No torrent file or tracker response can crash the client",
 "Whatever bytes a torrent file or a tracker response holds, parsing them, unmarshalling them into the metainfo or announce structures, building the torrent and decoding the peer addresses return a value or an error: they never panic, hang, or recurse without bound.",
 ["inputs"],"every byte string, as torrent file, http response body or udp packet",
 "Tests parse two real torrents and ten short strings; no tracker response is tested.",
 ["pkg/bencode/parse.go","pkg/bencode/tag_parser.go","pkg/torrent/torrent.go","pkg/tracker/http_tracker.go","pkg/tracker/udp_tracker.go"],
 [("scanner","pkg/bencode/parse.go"),("Unmarshal","pkg/bencode/tag_parser.go"),("torrent.New","pkg/torrent/torrent.go"),("parseTrackerResponse","pkg/tracker/udp_tracker.go")],(),["panics, termination"])
prop("C14","Bencode parsing accepts the grammar and yields the encoded values",
 "Parsing succeeds exactly when the data starts with a well-formed element (integers of the int range with an optional minus, length-prefixed strings, lists, dictionaries with string keys, leading zeros tolerated, nesting up to 1000), and then yields that element: integers and strings with the encoded value, lists with their elements in order, dictionaries with exactly their keys and the value of the last occurrence. The raw form kept for a list or dictionary is exactly the bytes it was parsed from.",
 ["inputs"],"every byte string",
 "Ten short strings are tested; no nesting below one level, no overflow, no negative numbers.",
 ["pkg/bencode/parse.go"],[("scanner.Next, readInt, readString, readList, readDict, number","pkg/bencode/parse.go")],
 [("scanner.start, current","position in the data","pkg/bencode/parse.go")],["result of Parse, Raw"])
prop("C15","Bencode encoding is canonical and inverse to parsing",
 "Encoding gives i<decimal>e for an integer, <length>:<bytes> for a string, the elements in order for a list, and the entries sorted by key bytes for a dictionary, leaving out absent (nil) entries, so equal elements always encode to equal bytes. Parsing the encoding of an element without absent entries, nested at most 1000 deep, gives that element back.",
 ["inputs"],"every element tree",
 "Five small elements are tested, one of them flaky because of map order before it was fixed.",
 ["pkg/bencode/elements.go"],[("Encode methods","pkg/bencode/elements.go")],(),["result of Encode"])
prop("C16","Metainfo reports the torrent's fields and its exact info hash",
 "Unmarshalling a torrent file fills every metainfo field with the value of its key, leaves absent optional fields zero and fails when a required key is missing or a value does not fit its field. The info hash is the SHA-1 of exactly the bytes of the info dictionary as they stand in the file, whatever keys and order they contain.",
 ["inputs"],"every torrent file",
 "Two real torrents are parsed; one has its hash compared.",
 ["pkg/bencode/tag_parser.go"],[("processTarget, setField","pkg/bencode/tag_parser.go"),("Metainfo.Hash","pkg/bencode/tag_parser.go")],
 [("Metainfo.InfoDictRaw","raw info dictionary","pkg/bencode/tag_parser.go")],["Metainfo fields, Metainfo.Hash"])
prop("C17","A torrent's geometry matches its metainfo",
 "A torrent built from metainfo has as length the single file's length or the sum of its file lengths, ceil(length/piece length) pieces, piece i's digest equal to bytes 20i to 20i+20 of the digest string, no piece marked as assigned or downloaded, and as trackers exactly the announce url, all announce-list and all url-list entries. Metainfo with a non-positive piece length, a negative or overflowing length, or a digest string that does not hold exactly one digest per piece is rejected.",
 ["inputs"],"every metainfo value",
 "Building a torrent is not tested at all; tests build the struct by hand.",
 ["pkg/torrent/torrent.go","pkg/torrent/piece.go","pkg/util/set.go"],[("torrent.New","pkg/torrent/torrent.go"),("NewPieces","pkg/torrent/piece.go"),("StringSet.Add","pkg/util/set.go")],(),["fields of Torrent"])
prop("C18","Files are created only inside the output directory, one per torrent file",
 "Every file or directory created for a torrent lies inside the output directory (in the torrent's own subdirectory when it has several files), whatever name and paths its metainfo holds; a name or path that would lead outside is rejected before anything is created for it. Every file of the torrent gets a path of its own made of all its path components, in order, and two files never share one.",
 ["inputs"],"every torrent name and list of path components",
 "One test creates two plain files.",
 ["pkg/torrent/torrent.go"],[("Torrent.initDownloadDir","pkg/torrent/torrent.go")],
 [("Torrent.OsFiles","files in torrent order","pkg/torrent/torrent.go")],["created paths"])
prop("C19","Udp tracker exchanges follow the protocol",
 "The connect request is protocol id, action 0, transaction id; the announce request is the 98 bytes of BEP 15 carrying the connection id of the connect response, the transaction id, info hash, client id, downloaded, left, uploaded and port. A response is used only if it has the expected action, the full size and the transaction id of the request, otherwise, and for error responses, the announce fails without returning peers.",
 ["inputs"],"every response packet, every announce data",
 "There is no test that reaches the udp protocol.",
 ["pkg/tracker/udp_tracker.go"],[("createAnnounce","pkg/tracker/udp_tracker.go"),("handshake","pkg/tracker/udp_tracker.go"),("parseTrackerResponse, readConnect, readAnnounce, readError","pkg/tracker/udp_tracker.go")],(),["packets sent, result of Announce"])
prop("C20","Http tracker exchanges follow the protocol",
 "The announce request carries info hash, client id, port, downloaded, uploaded and left of the current state, and asks for a compact response. A response with a status other than 200, with a failure reason, or without peers fails the announce; the tracker's wait interval is always positive and changes only to an interval the tracker sent.",
 ["inputs"],"every announce data and every response",
 "The announce test is commented out.",
 ["pkg/tracker/http_tracker.go","pkg/tracker/tracker.go"],[("httpTracker.Announce, buildQuery, readPeers","pkg/tracker/http_tracker.go"),("waitInterval.setSeconds","pkg/tracker/tracker.go")],(),["query values, result of Announce, interval"])
prop("C21","Peer addresses are decoded exactly",
 "A compact peer list of n bytes yields floor(n/6) addresses in order, the i-th with IPv4 address bytes 6i..6i+3 and big-endian port 6i+4..6i+5. A list of peer dictionaries yields the addresses of the entries with a valid IP and a port from 0 to 65535, in order; no address is invented.",
 ["inputs"],"every compact string and every list of peers",
 "Address decoding is not tested.",
 ["pkg/tracker/http_tracker.go"],[("parseCompactPeers","pkg/tracker/http_tracker.go"),("parseBencodePeers","pkg/tracker/http_tracker.go")],(),["returned addresses"])
prop("C22","Transfer statistics add up",
 "Downloaded and uploaded equal the sum of all amounts reported, whatever the interleaving of reporters, bytes left equal the torrent size minus downloaded but never less than 0, and the peer and tracker counts equal additions minus removals. The completed percentage is 0 to 100, and the progress bar shows it with a bar of fixed width.",
 ["histories","schedules","inputs"],"every history of reports from concurrent goroutines",
 "The statistics are not tested.",
 ["pkg/stats/stats.go","pkg/stats/progress_bar.go"],[("Stats","pkg/stats/stats.go"),("progressBar","pkg/stats/progress_bar.go")],
 [("Stats.download, upload, peerNum, trackerNum","counters","pkg/stats/stats.go")],["Stats getters"])
prop("C23","The peer pool holds each address once and at most the configured number",
 "A peer is accepted exactly when the manager is running, no peer with the same address is in the pool and the pool holds fewer than the configured maximum of peers; a peer that could not be reached leaves the pool, and the reported number of peers follows. Stopping the manager closes every peer in the pool once, is idempotent, and no peer is accepted afterwards.",
 ["histories","schedules"],"every sequence and interleaving of additions, failures and stop",
 "The manager is not tested.",
 ["pkg/download/manager.go"],[("Manager.AddPeer, removePeer, Stop","pkg/download/manager.go"),("poolMu","pkg/download/manager.go")],
 [("Manager.peerPool","peers by address","pkg/download/manager.go")],["AddPeer result, Stats.PeerNum"])
prop("C24","Shared download state is accessed only under its lock",
 "The sets of assigned and downloaded pieces, the failed request queue and the peer pool are read and written only while holding their own mutex, the transfer counters only atomically, and every mutex taken is released on every path. Hence concurrent peers never race on them, whatever the schedule.",
 ["schedules"],"every interleaving of goroutines",
 "Tests are sequential; a race detector run only sees the schedules it happens to execute.",
 ["pkg/torrent/torrent.go","pkg/torrent/pieces_queue.go","pkg/download/manager.go","pkg/stats/stats.go"],
 [("requestedMu, downloadedMu","pkg/torrent/torrent.go"),("failedMu","pkg/torrent/pieces_queue.go"),("poolMu","pkg/download/manager.go"),("sync/atomic","pkg/stats/stats.go")],(),["memory accesses"])
prop("C25","The piece channel is closed only after its last sender",
 "The channel between peers and the disk writer is closed only when every goroutine that may send on it has ended, so no peer ever sends on a closed channel, whatever the order in which trackers, peers and the cancellation run.",
 ["schedules"],"every interleaving of trackers, peers and cancellation",
 "The manager is not tested.",
 ["pkg/download/manager.go"],[("Manager.Download, getIps, startPeerDownload (WaitGroup)","pkg/download/manager.go")],(),["panics"])
ids=[p["id"] for p in P]
assert len(set(ids))==len(ids)
for p in P: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
