From d471377bee11ac85020ff25131d7df1bcc25b1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:39 +0000
Subject: [PATCH 01/36] fix: encode index, offset and length of request/cancel
 at their own offsets

All three fields were written over payload[0:4], so every request on the
wire read index=<block length>, begin=0, length=0.
---
 pkg/util/peer_message.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..1893c4a 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -186,9 +186,9 @@ func createHaveMessage(index uint32) *PeerMessage {
 
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
-	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[0:4], index)
+	binary.BigEndian.PutUint32(payload[4:8], offset)
+	binary.BigEndian.PutUint32(payload[8:12], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -204,9 +204,9 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
-	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[0:4], index)
+	binary.BigEndian.PutUint32(payload[4:8], offset)
+	binary.BigEndian.PutUint32(payload[8:12], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From fdaf121607b359dc4963ec15cc0d1ff4bfda4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 02/36] fix: do not panic on truncated peer messages

A have, request, cancel or piece message shorter than its fixed fields made
NewPeerMessage index past the end of the payload, so any remote peer could
crash the client. Such a message now gets InvalidMessageType.
---
 pkg/util/peer_message.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 1893c4a..32d1156 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,6 +24,10 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// InvalidMessageType marks a received message that is too short to carry
+	// the fields its type requires. It is never sent.
+	InvalidMessageType MessageType = 255
 )
 
 type PeerMessage struct {
@@ -62,6 +66,11 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	}
 	data = msg.payload
 
+	if len(data) < minPayloadLen(msg.Type) {
+		msg.Type = InvalidMessageType
+		return msg
+	}
+
 	// set additional message data for these message types
 	switch msg.Type {
 	case HaveMessageType:
@@ -80,6 +89,20 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	return msg
 }
 
+// minPayloadLen returns how many bytes have to follow the type byte.
+func minPayloadLen(t MessageType) int {
+	switch t {
+	case HaveMessageType:
+		return 4
+	case RequestMessageType, CancelMessageType:
+		return 12
+	case PieceMessageType:
+		return 8
+	default:
+		return 0
+	}
+}
+
 func (m PeerMessage) Send(w io.Writer) (int, error) {
 	// TODO: cache buffer object in a pool
 	buf := &bytes.Buffer{}
-- 
2.43.0


From 51dcc657491bd01e1eddb6a9ac0da27106e912f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 03/36] fix: reject piece messages with an index the torrent
 does not have

CheckPiece indexed t.Pieces with the index sent by the remote peer, which
panicked for every index past the last piece.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..f149d1b 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -166,6 +166,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From 50ccf92968dd110a11bda09866b0effa3ab9b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 04/36] fix: do not panic closing a peer that never connected

Manager.Stop closes every peer in the pool, including those whose dial
failed and whose conn is nil.
---
 pkg/peer/peer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..bcfc031 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -303,6 +303,9 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 }
 
 func (p *Peer) Close() error {
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From 4ca56d2a742942b4d3e865403d37bdfb6a93c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 05/36] fix: mark the last, shorter piece as downloaded

The last piece of a torrent ends at Torrent.Length, not at a multiple of
PieceLength, so it was never marked and Done never became true.
---
 pkg/torrent/torrent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index f149d1b..de434dc 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -190,7 +190,9 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			continue
 		}
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
+		// last piece ends with the torrent and can be shorter than the rest
+		if int(msg.Offset())+len(msg.Data()) == t.PieceLength ||
+			piecePoss+len(msg.Data()) == t.Length {
 			t.SetDownloaded(uint(msg.Index()))
 		}
 	}
-- 
2.43.0


From 1f5b673f9450cdbcac93bb86b95fb1b43d377baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 06/36] fix: discard verified piece data sent with a non-zero
 offset

The digest covers the whole piece, so data that matches it belongs at offset
0. The offset is not covered by the digest: a peer could send correct data
with any offset and have it written over other pieces.
---
 pkg/peer/peer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index bcfc031..37bc33f 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -394,6 +394,14 @@ func (p *Peer) SendInterested() error {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+	// sha1 is calculated over whole piece, so the data has to start with the piece
+	if message.Offset() != 0 {
+		p.logger.Warn("Discarding piece block with invalid offset.",
+			zap.Uint32("index", message.Index()),
+			zap.Uint32("offset", message.Offset()))
+		return
+	}
+
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
-- 
2.43.0


From 4c84596abfe8f3651ddb9a577297c270612224ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 07/36] fix: remember that we are interested after telling the
 peer

ClientStatus.Interested was never set, so Run never sent a single request.
---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 37bc33f..d971632 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -389,8 +389,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From 8974d6dccdf6deb327c413aeddf2cd69a12dc8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 08/36] fix: ignore have messages for pieces the torrent does
 not have

The bitset grows to the index it is given, so one 9 byte have message could
make the client allocate 512 MB.
---
 pkg/peer/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index d971632..7a3682b 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -338,6 +338,11 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.Bitset = message.Bitfield()
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
+		if p.torrent != nil && int(message.Index()) >= p.torrent.PiecesNum {
+			p.logger.Warn("Ignoring have message for unknown piece",
+				zap.Uint32("index", message.Index()))
+			return
+		}
 		p.Bitset.Set(uint(message.Index()))
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
-- 
2.43.0


From 7ef186c873e7360e01a082613f86f8d0d7daffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:01 +0000
Subject: [PATCH 09/36] fix: limit the size of peer messages

The length prefix sent by the peer was allocated before anything was read,
so four bytes made the client allocate up to 4 GB.
---
 pkg/gotitnet/connection.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..11944b0 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -14,6 +14,9 @@ const (
 	PeerTimeout    = time.Second * 1
 	TrackerTimeout = time.Millisecond * 500
 	DialTimeout    = time.Second * 2
+
+	// MaxPeerMessageSize is the largest peer message we are willing to read.
+	MaxPeerMessageSize = 2 << 20
 )
 
 type TimeoutConn struct {
@@ -47,6 +50,9 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if size > MaxPeerMessageSize {
+		return nil, fmt.Errorf("peer message too big: %d bytes", size)
+	}
 
 	return c.readExactly(size)
 }
-- 
2.43.0


From 69ab8213a3453e0c31fedc8c54a614e7b6a2623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:40 +0000
Subject: [PATCH 10/36] fix: request the next block after the peer answered the
 previous one

Run never cleared sentPieceMsg when the piece arrived: the peer sat idle until
the read timed out and then requested the same piece again, forever. An answer
that fails the check puts the request back on the queue, as other failed
requests are, so the piece is not lost.
---
 pkg/peer/peer.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 7a3682b..895c289 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -277,7 +277,17 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 		b.Reset()
 
-		p.handlePeerMessage(util.NewPeerMessage(response))
+		message := util.NewPeerMessage(response)
+		accepted := p.handlePeerMessage(message)
+		if sentPieceMsg &&
+			message.Type == util.PieceMessageType &&
+			message.Index() == requestMsg.Index() {
+			// peer answered our request
+			if !accepted {
+				p.piecesQueue.RequestFailed(requestMsg)
+			}
+			sentPieceMsg = false
+		}
 	}
 }
 
@@ -325,11 +335,13 @@ func (p *Peer) updateLastMsgSent() {
 	p.lastMsgSent = time.Now()
 }
 
-func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
+// handlePeerMessage updates peer state with received message. It returns true
+// only for piece message with valid data.
+func (p *Peer) handlePeerMessage(message *util.PeerMessage) bool {
 	// if keepalive wait 2 minutes and try again
 	if message.Type == util.KeepaliveMessageType {
 		p.logger.Debug("Peer sent keepalive")
-		return
+		return false
 	}
 
 	switch message.Type {
@@ -341,7 +353,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		if p.torrent != nil && int(message.Index()) >= p.torrent.PiecesNum {
 			p.logger.Warn("Ignoring have message for unknown piece",
 				zap.Uint32("index", message.Index()))
-			return
+			return false
 		}
 		p.Bitset.Set(uint(message.Index()))
 	case util.InterestedMessageType:
@@ -362,7 +374,7 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.logger.Debug("Peer sent request message", zap.Int("peerId", p.Id))
 	case util.PieceMessageType:
 		p.logger.Debug("Peer sent piece message", zap.Int("peerId", p.Id))
-		p.handlePieceMessage(message)
+		return p.handlePieceMessage(message)
 	case util.CancelMessageType:
 		p.logger.Debug("Peer sent cancel message")
 	default:
@@ -370,6 +382,8 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 			zap.Int("peerId", p.Id),
 			zap.Int("msgCode", int(message.Type)))
 	}
+
+	return false
 }
 
 func (p *Peer) sendMessage(msg *util.PeerMessage) (int, error) {
@@ -402,23 +416,24 @@ func (p *Peer) SendInterested() error {
 	return nil
 }
 
-func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
+func (p *Peer) handlePieceMessage(message *util.PeerMessage) bool {
 	// sha1 is calculated over whole piece, so the data has to start with the piece
 	if message.Offset() != 0 {
 		p.logger.Warn("Discarding piece block with invalid offset.",
 			zap.Uint32("index", message.Index()),
 			zap.Uint32("offset", message.Offset()))
-		return
+		return false
 	}
 
 	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
-		return
+		return false
 	}
 
 	p.writeCh <- message
 	p.Bitset.Set(uint(message.Index()))
+	return true
 }
 
 func createHandshake(hash []byte) []byte {
-- 
2.43.0


From 0baed61254c0a941345420c293b7f52518888625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:55 +0000
Subject: [PATCH 11/36] fix: request exactly the bytes of a piece

Blocks were always 128 KiB and pieces always PieceLength/128KiB of them, so
pieces smaller than a block, piece lengths that are not a multiple of it and
the last piece of a torrent were requested past their end or not to it. Peers
drop requests for data that does not exist.
---
 pkg/peer/peer.go       | 19 ++++++++++++++++---
 pkg/torrent/torrent.go |  6 ++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 895c289..2011e2d 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -77,18 +77,28 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := torrent.BlockLength
+	if p.torrent != nil {
+		// last block ends with the piece
+		length = min(length, p.torrent.PieceSize(p.pieceIdx)-beginOffset)
+	}
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
 	return msg
 }
 
+// blockCount returns the number of blocks needed for piece with given size.
+func blockCount(pieceSize uint) uint {
+	return (pieceSize + torrent.BlockLength - 1) / torrent.BlockLength
+}
+
 func newPeerStatus() *Status {
 	return &Status{true, false, true}
 }
@@ -109,7 +119,7 @@ func NewPeer(
 		lastMsgSent:  time.Now(),
 		logger:       logger.With(zap.String("ip", ip.String())),
 		blockIdx:     uint(0),
-		blockNum:     uint(t.PieceLength) / torrent.BlockLength,
+		blockNum:     blockCount(uint(t.PieceLength)),
 		piecesQueue:  piecesQueue,
 		writeCh:      writeCh,
 		piecesSource: t,
@@ -307,6 +317,9 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 
 		p.blockIdx = 0
 		p.pieceIdx = indx
+		if p.torrent != nil {
+			p.blockNum = blockCount(p.torrent.PieceSize(indx))
+		}
 	}
 
 	return p.createPieceMessage()
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index de434dc..b396db7 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -250,6 +250,12 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 	return nil
 }
 
+// PieceSize returns the number of bytes in piece. All pieces are PieceLength
+// long, except the last one which ends with the torrent.
+func (t *Torrent) PieceSize(index uint) uint {
+	return uint(min(t.PieceLength, t.Length-int(index)*t.PieceLength))
+}
+
 func (t *Torrent) BlockNum() int {
 	return t.numOfBlocks
 }
-- 
2.43.0


From 642c3d36e67fbfa3967d53e172bdf4e085f91a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:56 +0000
Subject: [PATCH 12/36] fix: do not request piece 0 from every new peer

A new peer starts with blockIdx 0 < blockNum, which read as being in the
middle of piece 0: its first requests were for that piece, without reserving
it and whether or not the peer has it.
---
 pkg/peer/peer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 2011e2d..9f5568c 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -51,6 +51,8 @@ type Peer struct {
 	blockIdx uint
 	pieceIdx uint
 	blockNum uint
+	// noPiece is true until first piece is assigned to the peer
+	noPiece bool
 
 	writeCh chan<- *util.PeerMessage
 }
@@ -120,6 +122,7 @@ func NewPeer(
 		logger:       logger.With(zap.String("ip", ip.String())),
 		blockIdx:     uint(0),
 		blockNum:     blockCount(uint(t.PieceLength)),
+		noPiece:      true,
 		piecesQueue:  piecesQueue,
 		writeCh:      writeCh,
 		piecesSource: t,
@@ -302,7 +305,7 @@ func (p *Peer) Run(ctx context.Context) {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	if p.noPiece || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
@@ -315,6 +318,7 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return nil
 		}
 
+		p.noPiece = false
 		p.blockIdx = 0
 		p.pieceIdx = indx
 		if p.torrent != nil {
-- 
2.43.0


From 9a55525ac992a4f7ff08ce4039f31b8125893d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:23 +0000
Subject: [PATCH 13/36] fix: keep downloaded files inside the output directory

The torrent name and the first path component were joined to the output
directory unchecked, so a torrent could create or truncate files anywhere
("..", "../../etc/x"). Only the first component was used, so files of one
subdirectory were all written to the same file, and an empty path panicked.
---
 pkg/torrent/torrent.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index b396db7..5c68afd 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
@@ -140,6 +141,9 @@ func (t *Torrent) Done() bool {
 }
 
 func (t *Torrent) initDownloadDir(root string) error {
+	if !filepath.IsLocal(t.Name) {
+		return fmt.Errorf("invalid torrent name: %q", t.Name)
+	}
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
@@ -148,7 +152,15 @@ func (t *Torrent) initDownloadDir(root string) error {
 		}
 
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			name := filepath.Join(tf.Path...)
+			if !filepath.IsLocal(name) {
+				return fmt.Errorf("invalid torrent file path: %q", tf.Path)
+			}
+			filePath := filepath.Join(path, name)
+			if err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm); err != nil {
+				return err
+			}
+			filePaths = append(filePaths, filePath)
 		}
 	} else {
 		filePaths = append(filePaths, path)
@@ -234,7 +246,7 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 		}
 
 		t.logger.Debug("Writing to file",
-			zap.String("file", t.TorrentFiles[fileIdx].Path[0]),
+			zap.String("file", t.TorrentFiles[fileIdx].FilePath()),
 			zap.Int("position", piecePoss),
 			zap.Int("bytes", toWrite))
 
-- 
2.43.0


From 8c623f6dca531a69ea799a3e0142bd1bb159b704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:25 +0000
Subject: [PATCH 14/36] fix: reject torrents that list the same file path twice

Both entries were backed by the same file on disk and overwrote each other's
data.
---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 5c68afd..16e72f8 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -146,6 +146,7 @@ func (t *Torrent) initDownloadDir(root string) error {
 	}
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
+	seen := util.NewStringSet()
 	if t.IsDirectory {
 		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {
 			return err
@@ -157,6 +158,9 @@ func (t *Torrent) initDownloadDir(root string) error {
 				return fmt.Errorf("invalid torrent file path: %q", tf.Path)
 			}
 			filePath := filepath.Join(path, name)
+			if !seen.Add(filePath) {
+				return fmt.Errorf("duplicate torrent file path: %q", tf.Path)
+			}
 			if err := os.MkdirAll(filepath.Dir(filePath), os.ModePerm); err != nil {
 				return err
 			}
-- 
2.43.0


From f11a48fe7172a397667e29e78fee534a9f0deb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:56 +0000
Subject: [PATCH 15/36] fix: reject metainfo with inconsistent geometry

A zero piece length gave a nonsensical number of pieces, negative or
overflowing file lengths were summed up as they came, and the number of
pieces was never compared with the number of digests, so a torrent could have
pieces that are never checked or can never complete. The count is now integer
arithmetic: float64 lost a piece for lengths over 2^53.
---
 pkg/torrent/torrent.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 16e72f8..b6e44b9 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -66,6 +66,9 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.CreationDate = metainfo.CreationDate
 	t.Comment = metainfo.Comment
 	t.PieceLength = int(metainfo.Info.PieceLength)
+	if t.PieceLength <= 0 {
+		return nil, fmt.Errorf("invalid piece length: %d", t.PieceLength)
+	}
 	pieces, err := NewPieces([]byte(metainfo.Info.Pieces))
 	if err != nil {
 		return nil, err
@@ -95,12 +98,24 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || file.Length > math.MaxInt-completeLength {
+				return nil, fmt.Errorf("invalid length of file %q: %d", file.Path, file.Length)
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.Length < 0 {
+		return nil, fmt.Errorf("invalid torrent length: %d", t.Length)
+	}
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
+	if t.PiecesNum != len(t.Pieces) {
+		return nil, fmt.Errorf("torrent has %d pieces, but %d digests", t.PiecesNum, len(t.Pieces))
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From 825f7aa6ea316d9449e21307055c33dd93b8f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:11 +0000
Subject: [PATCH 16/36] fix: parse bencode numbers over their whole range and
 reject the rest

Numbers that do not fit wrapped around silently: a string length could become
negative, which panicked or moved the scanner backwards (an endless loop), and
integers got wrong values. A missing number was read as 0, and negative
integers, which bencode has and Encode writes, were rejected.
---
 pkg/bencode/parse.go | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..191f0cd 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"math"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number invalid or out of range")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -89,15 +91,21 @@ func (s scanner) isDigit() bool {
 	return s.peek() >= '0' && s.peek() <= '9'
 }
 
-func (s *scanner) number() (int, error) {
-	n := 0
+// number reads decimal number not greater than limit.
+func (s *scanner) number(limit uint64) (uint64, error) {
+	if !s.isDigit() {
+		return 0, ErrNumber
+	}
+
+	var n uint64
 	for s.isDigit() {
-		d := int(s.peek() - '0')
-		n += d
-		n *= 10
+		d := uint64(s.peek() - '0')
+		if n > (limit-d)/10 {
+			return 0, ErrNumber
+		}
+		n = n*10 + d
 		s.advance()
 	}
-	n /= 10
 
 	s.position()
 	return n, nil
@@ -107,10 +115,18 @@ func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
 
-	n, err := s.number()
+	limit := uint64(math.MaxInt)
+	negative := s.match('-')
+	if negative {
+		limit++
+	}
+	n, err := s.number(limit)
 	if err != nil {
 		return 0, err
 	}
+	if negative {
+		n = -n
+	}
 
 	if !s.match('e') {
 		return 0, ErrElementEnd
@@ -119,7 +135,7 @@ func (s *scanner) readInt() (IntElement, error) {
 }
 
 func (s *scanner) readString() (string, error) {
-	length, err := s.number()
+	length, err := s.number(math.MaxInt)
 	if err != nil {
 		return "", err
 	}
@@ -127,11 +143,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if int(length) > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += int(length)
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 0255ddf6c97e817afbe331b32129ec1200d4adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:11 +0000
Subject: [PATCH 17/36] fix: return an error unmarshalling data that is not a
 dictionary

Unmarshal panicked when the top level element was a list, a string or an
integer, so a tracker could crash the client with "i0e".
---
 pkg/bencode/tag_parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..f075178 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -71,7 +71,7 @@ func processTarget(target interface{}, bencode Bencode) error {
 
 		dict, ok := bencode.(*DictElement)
 		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
+			return fmt.Errorf("bencode: dictionary expected, got %T", bencode)
 		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
-- 
2.43.0


From 730ee80e0cf59eb600e5d622bf54cb3690225edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:12 +0000
Subject: [PATCH 18/36] fix: limit nesting depth of parsed bencode

The parser recurses for every level, so a few MB of "l" overflowed the
stack, which ends the process and cannot be recovered from.
---
 pkg/bencode/parse.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index 191f0cd..464f9a8 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -11,8 +11,12 @@ var (
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
 	ErrNumber       = errors.New("number invalid or out of range")
+	ErrDepth        = errors.New("elements nested too deep")
 )
 
+// maxDepth is the deepest nesting of lists and dictionaries we parse.
+const maxDepth = 1000
+
 func Parse(data []byte) (Bencode, error) {
 	sc := newScanner(data)
 	return sc.Parse()
@@ -21,6 +25,7 @@ func Parse(data []byte) (Bencode, error) {
 type scanner struct {
 	start   int
 	current int
+	depth   int
 	bencode []byte
 }
 
@@ -40,6 +45,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	if s.depth >= maxDepth {
+		return nil, ErrDepth
+	}
+	s.depth++
+	defer func() { s.depth-- }()
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From 7cb45462645fbc0bb64ea9748f7c8b17472b2a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:16 +0000
Subject: [PATCH 19/36] fix: encode and print dictionaries in key order

Keys came out in Go's random map order. Bencode requires sorted keys, and the
same element encoded to different bytes every time.
---
 pkg/bencode/elements.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..53dd287 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,8 @@
 package bencode
 
 import (
+	"maps"
+	"slices"
 	"strconv"
 )
 
@@ -72,7 +74,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range slices.Sorted(maps.Keys(bencode.value)) {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -97,7 +100,8 @@ func prettyPrint(bencode Bencode, tabs string) string {
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range slices.Sorted(maps.Keys(value.value)) {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
-- 
2.43.0


From 222af2209bef4402addca50e1598e9349d3336fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:53 +0000
Subject: [PATCH 20/36] fix: send a well formed udp announce request

binary.Write refuses strings, and its error was ignored, so the info hash was
left out; the port took four bytes instead of two. Trackers drop a request of
the wrong size.
---
 pkg/tracker/udp_tracker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..d626975 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -136,7 +136,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	request.WriteString(torrentHash)
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -145,7 +145,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From 81e9bb8950e5c2f2fcf3c06825cea87b308fd2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:54 +0000
Subject: [PATCH 21/36] fix: read the udp announce response as a packet

ReadAll reads until EOF, which a udp socket never reports, so every announce
ended with the read deadline and its response was thrown away.
---
 pkg/gotitnet/connection.go | 14 ++++++++++++++
 pkg/tracker/udp_tracker.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 11944b0..4def007 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -100,6 +100,20 @@ func (c *TimeoutConn) ReadAll() ([]byte, error) {
 	return io.ReadAll(c.c)
 }
 
+// ReadPacket reads single packet from socket.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadPacket() ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, 1<<16)
+	n, err := c.c.Read(buf)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 // ReadUdpHandshake reads udp tracker handshake from socket.
 // Read deadline is set to timeoutConn.timeout
 func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index d626975..eff6816 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -80,7 +80,7 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	request := createAnnounce(connId, transactionId, torrentHash, data)
 	t.conn.Write(request)
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.conn.ReadPacket()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b4ce455c8358a077818ee228d72de03f6807f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:55 +0000
Subject: [PATCH 22/36] fix: check the size and action of udp tracker responses

A response shorter than four bytes panicked. A response to another action than
the requested one was accepted, and peers of an earlier announce were returned
for it. Error responses have action 3, 2 is scrape.
---
 pkg/tracker/udp_tracker.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index eff6816..7b92f8c 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -23,6 +23,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
@@ -85,8 +86,10 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, announce, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -106,15 +109,22 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, connect, transactionId); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+// parseTrackerResponse reads response to the request with the given action.
+func (t *udpTracker) parseTrackerResponse(response []byte, action int, transactionId uint32) error {
+	if len(response) < 4 {
+		return errors.New("udp tracker response size less then 4")
+	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
+	if actionCode != action && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 	var err error
 
 	switch actionCode {
-- 
2.43.0


From 8eb67a3109b1db55211dcdd4643a0c17b82a40f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:56 +0000
Subject: [PATCH 23/36] fix: leave out peers with an invalid address

They stayed in the list as zero addresses, which were then dialed.
---
 pkg/tracker/http_tracker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..b734c10 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -137,8 +137,8 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -166,7 +166,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
-- 
2.43.0


From 74f82dc6708eea0d6348e314a41aec8f0bc134e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:57 +0000
Subject: [PATCH 24/36] fix: accept compact peers from http trackers

The same key was unmarshalled into a list and into a byte slice. For a string,
which is what we ask trackers for (compact=1), the list failed with a type
error, so every compact response was rejected.
---
 gotit.go                    | 13 ++++++++-----
 pkg/tracker/http_tracker.go | 24 +++++++++++++++++-------
 2 files changed, 25 insertions(+), 12 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..4f2554e 100644
--- a/gotit.go
+++ b/gotit.go
@@ -22,11 +22,14 @@ type (
 	}
 
 	AnnounceResponse struct {
-		Failure      string         `ben:"failure reason,optional"`
-		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
-		PeersIpv6    []byte         `ben:"peers6,optional"`
+		Failure   string `ben:"failure reason,optional"`
+		Interval  int    `ben:"interval,optional"`
+		PeersIpv6 []byte `ben:"peers6,optional"`
+	}
+
+	// AnnouncePeers are peers from AnnounceResponse which is not compact.
+	AnnouncePeers struct {
+		Peers []AnnouncePeer `ben:"peers"`
 	}
 
 	AnnouncePeer struct {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index b734c10..d5566f3 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -121,19 +121,29 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	}
 	t.interval = time.Duration(announceResponse.Interval) * time.Second
 
-	if announceResponse.Peers != nil {
-		p := t.parseBencodePeers(announceResponse.Peers)
-		return p, nil
+	response, err := bencode.Parse(res)
+	if err != nil {
+		return nil, err
 	}
-	if announceResponse.PeersCompact != nil {
-		p := parseCompactPeers(announceResponse.PeersCompact)
-		return p, nil
+	dict, ok := response.(*bencode.DictElement)
+	if !ok {
+		return nil, errors.New("tracker response not a dictionary")
+	}
+	switch peers := dict.Value("peers").(type) {
+	case *bencode.ListElement:
+		var peerList gotit.AnnouncePeers
+		if err := bencode.Unmarshal(res, &peerList); err != nil {
+			return nil, err
+		}
+		return t.parseBencodePeers(peerList.Peers), nil
+	case bencode.StringElement:
+		return parseCompactPeers(peers.Raw()), nil
 	}
 	if announceResponse.PeersIpv6 != nil {
 		// TODO: parse ipv6 compact response
 	}
 
-	return nil, errors.New("successful tracker response without ")
+	return nil, errors.New("successful tracker response without peers")
 }
 
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-- 
2.43.0


From f1c2547c7942ba876b105e2915079b121878bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:58 +0000
Subject: [PATCH 25/36] fix: do not announce in a busy loop when the tracker
 sends no interval

A missing, zero or overflowing interval made WaitInterval return at once.
---
 pkg/tracker/http_tracker.go |  2 +-
 pkg/tracker/tracker.go      | 10 ++++++++++
 pkg/tracker/udp_tracker.go  |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index d5566f3..47e2bb3 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -119,7 +119,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setSeconds(announceResponse.Interval)
 
 	response, err := bencode.Parse(res)
 	if err != nil {
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..7bcf1d1 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -16,6 +17,15 @@ type waitInterval struct {
 	interval time.Duration
 }
 
+// setSeconds changes interval to the one sent by the tracker. Values which make
+// no sense, or are left out, do not change it.
+func (t *waitInterval) setSeconds(seconds int) {
+	if seconds <= 0 || seconds > math.MaxInt32 {
+		return
+	}
+	t.interval = time.Duration(seconds) * time.Second
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 7b92f8c..97e0899 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -179,7 +179,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setSeconds(int(binary.BigEndian.Uint32(response[8:12])))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From 9f64f39b63aecaf8ffe27c81d8eb8c2b03a370eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:59 +0000
Subject: [PATCH 26/36] fix: announce to http trackers whose url has a query

The announce parameters were added with a second '?', and so became part of
the last parameter of the url (usually a passkey).
---
 pkg/tracker/http_tracker.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 47e2bb3..2f1ae08 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,6 +10,7 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
+	"strings"
 	"time"
 
 	"github.com/anivanovic/gotit"
@@ -62,7 +63,11 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	separator := "?"
+	if strings.Contains(t.addr, "?") {
+		separator = "&"
+	}
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, t.addr+separator+q.Encode(), nil)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bb70140cb4a8238c803b6f24212b32f110c1caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:54 +0000
Subject: [PATCH 27/36] fix: do not let the number of bytes left wrap around

Blocks can be downloaded more than once. Once more bytes were received than
the torrent has, Left was close to 2^64, and was announced to trackers.
---
 pkg/stats/stats.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..b45387e 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,11 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	download := ts.Download()
+	if download >= ts.torrentSize {
+		return 0
+	}
+	return ts.torrentSize - download
 }
 
 func (ts *Stats) Speed() float64 {
-- 
2.43.0


From 460cdfe64a82c5d02c06b7cd48ad1f4287b44be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:55 +0000
Subject: [PATCH 28/36] fix: do not report more than 100 percent

With more bytes received than the torrent has, progressBar asked for a
negative number of spaces, which panics.
---
 pkg/stats/stats.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index b45387e..b6717c9 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -87,5 +87,6 @@ func (ts *Stats) PercentCompleted() int {
 		return 0
 	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	// blocks downloaded more than once are counted every time
+	return min(100, int(math.Round((float64(ts.Download())/float64(ts.torrentSize))*100.0)))
 }
-- 
2.43.0


From 88a0bb8e10310f8a30f547e1396435564cf48931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:56 +0000
Subject: [PATCH 29/36] fix: guard the peer pool when stopping

Stop read peerPool without the lock, and a tracker that announced peers after
Stop wrote to the nil map, which panics.
---
 pkg/download/manager.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..67db8a8 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -192,14 +192,14 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 }
 
 func (m *Manager) Stop() {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
 	if m.peerPool == nil {
 		return
 	}
 	m.cancelCtx()
 
-	m.poolMu.Lock()
-	defer m.poolMu.Unlock()
-
 	for _, p := range m.peerPool {
 		if err := p.Close(); err != nil {
 			m.logger.Error("closing peer", zap.Error(err))
@@ -217,6 +217,10 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
+	// manager is stopped
+	if m.peerPool == nil {
+		return false
+	}
 	if m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
-- 
2.43.0


From 78ac6d5d47ae5b86803c7658727ee2154273a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:57 +0000
Subject: [PATCH 30/36] fix: do not close the piece channel while peers can
 still send

Download waited only for the peers that were running when it started to wait,
which usually is none, so pieceCh was closed under the peers: a send on a
closed channel panics. Trackers start the peers, so wait for them as well.
---
 pkg/download/manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 67db8a8..d383749 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -73,7 +73,11 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func() {
+			defer m.wg.Done()
+			m.runTracker(ctx, url, pieceCh)
+		}()
 	}
 }
 
-- 
2.43.0


From 2198cf5afee5408af8969759678443597b86a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:58 +0000
Subject: [PATCH 31/36] fix: respect the maximum number of peers

The num-peer flag was stored and never read. Peers that can not be reached
leave the pool, so they do not take up the places of others.
---
 pkg/download/manager.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index d383749..7ed1ad8 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -171,7 +171,7 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
+		m.removePeer(peer)
 		return
 	}
 
@@ -229,11 +229,23 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 		return false
 	}
 
+	if len(m.peerPool) >= m.peerNum {
+		return false
+	}
+
 	m.peerPool[peer.AddrPort.String()] = peer
 	m.torrentStatus.AddPeer()
 	return true
 }
 
+func (m *Manager) removePeer(peer *peer.Peer) {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
-- 
2.43.0


From 0ee3aebd09f1b6937d9a930d97cb3ced849b1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:59 +0000
Subject: [PATCH 32/36] fix: close the connection of a peer whose handshake
 failed

Announce is retried, and every attempt dials again.
---
 pkg/peer/peer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 9f5568c..38b076f 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -143,11 +143,16 @@ func (p *Peer) connect() error {
 	return nil
 }
 
-func (p *Peer) Announce(torrent *torrent.Torrent) error {
-	err := p.connect()
+func (p *Peer) Announce(torrent *torrent.Torrent) (err error) {
+	err = p.connect()
 	if err != nil {
 		return fmt.Errorf("peer connect: %w", err)
 	}
+	defer func() {
+		if err != nil {
+			_ = p.conn.Close()
+		}
+	}()
 
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
 		return fmt.Errorf("peer handshake: %w", err)
-- 
2.43.0


From 2c390bab73537ec5956e17892a5e2df8c4765bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:22 +0000
Subject: [PATCH 33/36] fix: put unanswered request back when peer stops

---
 pkg/peer/peer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 38b076f..babf052 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -230,6 +230,12 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 func (p *Peer) Run(ctx context.Context) {
 	var requestMsg *util.PeerMessage
 	sentPieceMsg := false
+	defer func() {
+		// unanswered request is left to other peers
+		if sentPieceMsg {
+			p.piecesQueue.RequestFailed(requestMsg)
+		}
+	}()
 
 	for {
 		// check if canceled
-- 
2.43.0


From f8f14db0ff3470317141e5e510ca0f3204aa3883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:24 +0000
Subject: [PATCH 34/36] fix: put request back when peer chokes us

---
 pkg/peer/peer.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index babf052..9646b98 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -254,6 +254,11 @@ func (p *Peer) Run(ctx context.Context) {
 		}
 
 		if p.ClientStatus.Choked {
+			// choking peer drops our request
+			if sentPieceMsg {
+				p.piecesQueue.RequestFailed(requestMsg)
+				sentPieceMsg = false
+			}
 			if err := p.unchoke(ctx); err != nil {
 				p.logger.Warn("peer: failed to unchoke peer", zap.Error(err))
 				return
-- 
2.43.0


From 4b0dd3e0c8117fa35a6f8f86a89d03d49b7666b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:19 +0000
Subject: [PATCH 35/36] fix: keep completed percentage in range for huge
 download counts

The ratio was converted to int before it was limited to 100, so a ratio that
does not fit an int gave a negative percentage.
---
 pkg/stats/stats.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index b6717c9..32e972a 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -88,5 +88,5 @@ func (ts *Stats) PercentCompleted() int {
 	}
 
 	// blocks downloaded more than once are counted every time
-	return min(100, int(math.Round((float64(ts.Download())/float64(ts.torrentSize))*100.0)))
+	return int(min(100, math.Round((float64(ts.Download())/float64(ts.torrentSize))*100.0)))
 }
-- 
2.43.0


From b8c887e845e5f2b2d37b024c5321e6ef4f78ae95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 36/36] fix: reject lists and dictionaries as values of string
 and integer fields

They were printed into the field, which takes quadratic time for a long list.
---
 pkg/bencode/tag_parser.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index f075178..294751a 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -102,8 +102,22 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 
 	switch ftype.Kind() {
 	case reflect.String:
+		if !isScalar(value) {
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		f.SetString(value.String())
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if !isScalar(value) {
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		vali, err := strconv.ParseInt(value.String(), 0, ftype.Bits())
 		if err != nil {
 			return &TypeError{
@@ -114,6 +128,13 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 		}
 		f.SetInt(vali)
 	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if !isScalar(value) {
+			return &TypeError{
+				ElementName: fieldName,
+				FieldType:   f.Type().String(),
+				BencodeType: reflect.TypeOf(value).String(),
+			}
+		}
 		val, err := strconv.ParseUint(value.String(), 0, ftype.Bits())
 		if err != nil {
 			return err
@@ -186,6 +207,17 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 	return nil
 }
 
+// isScalar reports whether value is a string or an integer, which string and
+// integer fields can hold.
+func isScalar(value Bencode) bool {
+	switch value.(type) {
+	case StringElement, IntElement:
+		return true
+	default:
+		return false
+	}
+}
+
 type TorrentFile struct {
 	Path   []string `ben:"path"`
 	Length int      `ben:"length"`
-- 
2.43.0

