// pkg/stats

guarded stats.Stats.download by atomic
guarded stats.Stats.upload by atomic
guarded stats.Stats.peerNum by atomic
guarded stats.Stats.trackerNum by atomic

def u64(v) = v % 18446744073709551616

func stats.NewStats(size) (s)
  ensures s != nil && fresh(s)
  ensures[C22] s.torrentSize == size && s.download == 0 && s.upload == 0 && s.peerNum == 0 && s.trackerNum == 0

func stats.(*Stats).AddDownload(ts, size) ()
  safety C12
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.download) == u64(acq(ts.download) + size) && rel(ts.upload) == acq(ts.upload) && rel(ts.peerNum) == acq(ts.peerNum) && rel(ts.trackerNum) == acq(ts.trackerNum)

func stats.(*Stats).AddUpload(ts, size) ()
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.upload) == u64(acq(ts.upload) + size) && rel(ts.download) == acq(ts.download) && rel(ts.peerNum) == acq(ts.peerNum) && rel(ts.trackerNum) == acq(ts.trackerNum)

func stats.(*Stats).AddPeer(ts) ()
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.peerNum) == u64(acq(ts.peerNum) + 1) && rel(ts.download) == acq(ts.download) && rel(ts.upload) == acq(ts.upload) && rel(ts.trackerNum) == acq(ts.trackerNum)

func stats.(*Stats).RemovePeer(ts) ()
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.peerNum) == u64(acq(ts.peerNum) - 1) && rel(ts.download) == acq(ts.download) && rel(ts.upload) == acq(ts.upload) && rel(ts.trackerNum) == acq(ts.trackerNum)

func stats.(*Stats).AddTracker(ts) ()
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.trackerNum) == u64(acq(ts.trackerNum) + 1) && rel(ts.download) == acq(ts.download) && rel(ts.upload) == acq(ts.upload) && rel(ts.peerNum) == acq(ts.peerNum)

func stats.(*Stats).RemoveTracker(ts) ()
  requires ts != nil
  ensures[C22] natomic() == 1 && rel(ts.trackerNum) == u64(acq(ts.trackerNum) - 1) && rel(ts.download) == acq(ts.download) && rel(ts.upload) == acq(ts.upload) && rel(ts.peerNum) == acq(ts.peerNum)

func stats.(*Stats).Download(ts) (r)
  safety C12
  requires ts != nil
  ensures[C22] natomic() == 1 && r == acq(ts.download)

func stats.(*Stats).Upload(ts) (r)
  requires ts != nil
  ensures[C22] natomic() == 1 && r == acq(ts.upload)

func stats.(*Stats).PeerNum(ts) (r)
  safety C12
  requires ts != nil
  ensures[C22] natomic() == 1 && r == acq(ts.peerNum)

func stats.(*Stats).TrackerNum(ts) (r)
  safety C12
  requires ts != nil
  ensures[C22] natomic() == 1 && r == acq(ts.trackerNum)

func stats.(*Stats).Left(ts) (r)
  safety C12
  requires ts != nil
  ensures[C22] natomic() == 1 && r == max(0, ts.torrentSize - acq(ts.download))

func stats.(*Stats).PercentCompleted(ts) (r)
  safety C12
  requires ts != nil
  ensures 0 <= r && r <= 100
  ensures[C22] ts.torrentSize == 0 ==> r == 0
  // up to rounding; the counter may grow between two loads
  ensures[C22] ts.torrentSize > 0 && acq(ts.download) >= ts.torrentSize ==> r == 100
  ensures[C22] ts.torrentSize > 0 && acq(ts.download) < ts.torrentSize ==> r * ts.torrentSize <= 100 * acq(ts.download) + ts.torrentSize && 100 * acq(ts.download) <= r * ts.torrentSize + ts.torrentSize

func stats.progressBar(percent, size) (r)
  safety C12
  requires 0 <= percent && percent <= 100 && 0 <= size && size < 1000000

func stats.(ProgressPrinter).Print(pp) ()
  safety C12
  requires pp.torrentStats != nil && pp.w != nil

pure pkg:github.com/gosuri/uilive
