import re
build = open('/verif/harness/download/build.go').read().replace('vfail(t, ', 't.Fatalf(').replace('os.Getenv("VERIF_SCRATCH")', '""')
imports = '''	"context"
	"runtime"
'''
def demo(test, extra=''):
    return build.replace('import (\n', 'import (\n' + extra, 1) + test
SEEDS = [
 dict(id='s30', property='C25', pkg='pkg/download', needs='Download reaches its wait before the goroutines of the trackers have started, then a cancellation while a peer answers',
  what='the trackers are added to the wait group inside their goroutines: Download may pass its wait at once and closes the piece channel while peers still send on it',
  edits=[('pkg/download/manager.go','''		m.wg.Add(1)
		go func() {
			defer m.wg.Done()
			m.runTracker''','''		go func() {
			m.wg.Add(1)
			defer m.wg.Done()
			m.runTracker''')],
  test=demo('''
func TestDemoClose(t *testing.T) {
	runtime.GOMAXPROCS(1)
	r := rand.New(rand.NewSource(1))
	var peers []netip.AddrPort
	tor, content := mtorrent(t, r, 5, fakeTracker(t, func() []netip.AddrPort { return peers }))
	f, err := newFakePeer(tor, content)
	if err != nil {
		t.Skip(err)
	}
	f.hold = make(chan bool)
	f.delay = func() time.Duration { return 300 * time.Millisecond }
	peers = append(peers, f.addr())
	m := NewMng(tor, zap.NewNop(), 10, 6881)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { m.Download(ctx); close(done) }()
	for end := time.Now().Add(10 * time.Second); f.get(&f.requests) == 0 && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	cancel()
	close(f.hold)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Download does not end")
	}
	time.Sleep(600 * time.Millisecond)
}
''', imports)),
 dict(id='s31', property='C25', pkg='pkg/download', needs='a peer that answers more than half a second after the cancellation',
  what='the wait for peers is bounded, so the piece channel is closed while a slow peer may still send on it',
  edits=[('pkg/download/manager.go','''	m.wg.Wait()
''','''	done := make(chan struct{})
	go func() {
		m.wg.Wait()
		close(done)
	}()
	<-m.cancelled
	// do not let a stuck peer hold up the shutdown
	select {
	case <-done:
	case <-time.After(500 * time.Millisecond):
		m.logger.Warn("peers still running")
	}
'''),('pkg/download/manager.go','''	cancelCtx context.CancelFunc
''','''	cancelCtx context.CancelFunc
	cancelled <-chan struct{}
'''),('pkg/download/manager.go','''	ctx, m.cancelCtx = context.WithCancel(ctx)
''','''	ctx, m.cancelCtx = context.WithCancel(ctx)
	m.cancelled = ctx.Done()
''')],
  test=demo('''
func TestDemoClose(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	var peers []netip.AddrPort
	tor, content := mtorrent(t, r, 5, fakeTracker(t, func() []netip.AddrPort { return peers }))
	f, err := newFakePeer(tor, content)
	if err != nil {
		t.Skip(err)
	}
	f.hold = make(chan bool)
	f.delay = func() time.Duration { return 0 }
	peers = append(peers, f.addr())
	m := NewMng(tor, zap.NewNop(), 10, 6881)
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan bool)
	go func() { m.Download(ctx); close(done) }()
	for end := time.Now().Add(10 * time.Second); f.get(&f.requests) == 0 && time.Now().Before(end); {
		time.Sleep(time.Millisecond)
	}
	cancel()
	time.Sleep(750 * time.Millisecond)
	close(f.hold)
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("Download does not end")
	}
	time.Sleep(400 * time.Millisecond)
}
''', imports.replace('	"runtime"\n', ''))),
]
