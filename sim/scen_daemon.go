package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/filecoin-project/go-legs/dtsync"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	finderpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	ingestmodel "github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	leveldb "github.com/ipfs/go-ds-leveldb"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-core/record"
	mocknet "github.com/libp2p/go-libp2p/p2p/net/mock"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"github.com/multiformats/go-varint"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/urfave/cli/v2"
)

// The whole daemon, as its command runs it: configuration file, leveldb
// datastore (on simulated storage), value store, registry, ingester, and the
// finder, ingest and admin servers over HTTP and libp2p.

var (
	dHost   = "/ip4/127.0.0.1"
	dFinder = "127.0.0.1:3000"
	dIngest = "127.0.0.1:3001"
	dAdmin  = "127.0.0.1:3002"
	p2pAt   = "127.0.0.1:3003"
)

type DaemonWorld struct {
	*IngWorld
	prop      string
	wire      *Wire
	dir       string
	file      string
	cfg       config.Config
	mn        mocknet.Mocknet
	h         host.Host
	ah        host.Host // somebody else on the libp2p network
	sig       chan<- os.Signal
	cancel    context.CancelFunc
	done      chan error
	ended     bool
	err       error
	stop      bool // asked to stop
	stopAt    time.Time
	block     map[int]bool // publishers that the configuration in force blocks
	mtime     time.Time
	reloads   int // begun
	reloading int
	args      []string
}

func newDaemonWorld(w *World, prop string) *DaemonWorld {
	dw := &DaemonWorld{IngWorld: newIngWorld(w), prop: prop, block: map[int]bool{}, done: make(chan error, 1)}
	n := dw.net
	dw.wire = newWire(w)
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{Transport: n}
	dw.node.inc = &Incarnation{w: w, n: 1, died: make(chan struct{})}
	dir, err := scratchDir()
	dw.must(err)
	dw.dir = dir
	dw.file = filepath.Join(dir, "config")
	dw.must(os.Setenv("STORETHEINDEX_PATH", dir))
	return dw
}

func (dw *DaemonWorld) tidy() { _ = os.RemoveAll(dw.dir) }

// save writes the configuration file.
func (dw *DaemonWorld) save(c config.Config, broken int64) {
	atomically(func() {
		b, err := config.Marshal(&c)
		dw.must(err)
		switch broken {
		case 1: // half written
			b = b[:len(b)/2]
		case 2:
			b = []byte("{]")
		case 3:
			b = nil
		}
		dw.must(os.WriteFile(dw.file, b, 0o600))
		dw.mtime = dw.mtime.Add(time.Second)
		dw.must(os.Chtimes(dw.file, dw.mtime, dw.mtime))
		if broken == 4 {
			dw.must(os.Remove(dw.file))
		}
	})
}

func (dw *DaemonWorld) start() {
	key := keyFor("indexer", 0)
	kb, err := crypto.MarshalPrivateKey(key)
	dw.must(err)
	c := &dw.cfg
	c.Version = config.Version
	c.Identity = config.Identity{PeerID: idFor("indexer", 0).String(), PrivKey: base64.StdEncoding.EncodeToString(kb)}
	c.Addresses = config.Addresses{Finder: dHost + "/tcp/3000", Ingest: dHost + "/tcp/3001", Admin: dHost + "/tcp/3002", P2PAddr: dHost + "/tcp/3003"}
	c.Bootstrap = config.Bootstrap{MinimumPeers: 0}
	c.Datastore = config.NewDatastore()
	c.Discovery = dw.node.dcfg
	c.Discovery.LotusGateway = "none"
	c.Indexer = config.NewIndexer()
	c.Indexer.ValueStoreType = "memory"
	// The result cache of go-indexer-core may keep what a lookup read while the
	// multihash was being stored.
	c.Indexer.CacheSize = -1
	// A sync that an announcement started goes on until its HTTP requests time
	// out; that is bounded, but takes longer than the default.
	c.Indexer.ShutdownTimeout = config.Duration(4 * time.Minute)
	c.Ingest = dw.node.icfg
	c.Logging = config.Logging{Level: "fatal"}
	if l := os.Getenv("SIM_LOG"); l != "" {
		c.Logging.Level = l
	}
	dw.mtime = time.Now()
	dw.save(*c, 0)

	dw.mn = mocknet.New()
	libp2p.SimNew = func() (host.Host, error) {
		h, err := dw.mn.AddPeer(key, mustAddr(dHost+"/tcp/3003"))
		if err != nil {
			return nil, err
		}
		dw.h = h
		dw.ah, err = dw.mn.AddPeer(keyFor("stranger", 77), mustAddr("/ip4/10.1.1.1/tcp/3003"))
		if err == nil {
			_, err = dw.mn.LinkPeers(h.ID(), dw.ah.ID())
		}
		return h, err
	}
	leveldb.SimStorage = func() storage.Storage { return storage.NewMemStorage() }
	engine.SimStore = func(s indexer.Interface) indexer.Interface {
		dw.node.store = &VHandle{vs: dw.node.vs, inc: dw.node.inc, mem: s, eng: s}
		return dw.node.store
	}
	memory.SimClose = func(interface{}) {
		// Nothing may touch the store any more.
		dw.event("value store closed")
		atomically(func() {
			dw.node.inc.stopped = true
			dw.node.inc.onLate = func(what string) {
				dw.failP("P08", "late-access", "%s after it was closed", what)
			}
		})
	}
	signal.SimNotify = func(c chan<- os.Signal, _ ...os.Signal) { dw.sig = c }
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	dw.must(err)
	os.Stdout = null
	os.SimExit = func(code int) {
		atomically(func() {
			dw.ended, dw.err = true, fmt.Errorf("exit status %d", code)
		})
		dw.event("exit %d", code)
		dw.exited(fmt.Sprintf("the daemon gave up: exit status %d", code))
		forever()
	}
	ctx, cancel := context.WithCancel(context.Background())
	dw.cancel = cancel
	app := &cli.App{Name: "storetheindex", Commands: []*cli.Command{command.DaemonCmd}, Writer: io.Discard, ErrWriter: io.Discard,
		ExitErrHandler: func(*cli.Context, error) {}}
	go func() {
		err := app.RunContext(ctx, append([]string{"storetheindex", "daemon"}, dw.args...))
		atomically(func() { dw.ended, dw.err = true, err })
		dw.event("daemon ended: %v", err)
		dw.exited(fmt.Sprintf("the daemon ended: %v", err))
		dw.done <- err
	}()
}

// exited judges the end of the daemon.
func (dw *DaemonWorld) exited(what string) {
	if !dw.stop {
		dw.failP(dw.prop, "daemon-stopped", "%s, though nobody stopped it", what)
	} else if strings.Contains(what, "exit status") {
		dw.failP(dw.prop, "unclean-exit", "shutting down: %s", what)
	}
}

func (dw *DaemonWorld) ready() bool {
	return dw.waitUntil(time.Minute, func() bool {
		return dw.ended || dw.sig != nil && dw.wire.listeners[dAdmin] != nil && dw.wire.listeners[dFinder] != nil && dw.wire.listeners[dIngest] != nil
	}) && !dw.ended
}

// client makes an HTTP client with connections of its own.
func (dw *DaemonWorld) client() *http.Client {
	return &http.Client{Transport: &http.Transport{MaxIdleConns: 10, IdleConnTimeout: 5 * time.Second}}
}

func (dw *DaemonWorld) request(method, addr, path string, body []byte, limit time.Duration) (int, []byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := dw.client()
	defer c.CloseIdleConnections()
	req, err := http.NewRequestWithContext(ctx, method, "http://"+addr+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	rsp, err := c.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	return rsp.StatusCode, b, err
}

func announceCbor(c cid.Cid, addrs []multiaddr.Multiaddr) []byte {
	msg := dtsync.Message{Cid: c}
	msg.SetAddrs(addrs)
	var buf bytes.Buffer
	if err := msg.MarshalCBOR(&buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func (dw *DaemonWorld) announceHTTP(p *Publisher) (int, error) {
	var c cid.Cid
	atomically(func() {
		if len(p.ads) > 0 {
			c = p.head()
		}
	})
	if c == cid.Undef {
		return 0, nil
	}
	st, _, err := dw.request(http.MethodPut, dIngest, "/ingest/announce", announceCbor(c, []multiaddr.Multiaddr{p.addr.Encapsulate(mustAddr("/p2p/" + p.id.String()))}), time.Hour)
	return st, err
}

func (dw *DaemonWorld) adminSync(p *Publisher, depth int64, resync bool) (int, error) {
	a, _ := json.Marshal(p.addr.String())
	q := fmt.Sprintf("?depth=%d&resync=%v", depth, resync)
	st, _, err := dw.request(http.MethodPost, dAdmin, "/ingest/sync/"+p.id.String()+q, a, time.Hour)
	return st, err
}

// lookups through the finder server
func (dw *DaemonWorld) findHTTP(mhs []multihash.Multihash) (map[string][]entry, error) {
	req, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs})
	dw.must(err)
	st, b, err := dw.request(http.MethodPost, dFinder, "/multihash", req, time.Hour)
	if err != nil {
		return nil, err
	}
	out := map[string][]entry{}
	if st == http.StatusNotFound {
		return out, nil
	}
	if st != http.StatusOK {
		return nil, fmt.Errorf("status %d: %s", st, b)
	}
	rsp, err := model.UnmarshalFindResponse(b)
	if err != nil {
		return nil, err
	}
	for _, r := range rsp.MultihashResults {
		for _, pr := range r.ProviderResults {
			out[string(r.Multihash)] = append(out[string(r.Multihash)], entry{pr.Provider.ID, string(pr.ContextID), string(pr.Metadata)})
		}
	}
	return out, nil
}

// served checks that what is stored is what the finder server serves.
func (dw *DaemonWorld) served() {
	mhs := dw.sortedUniverse()
	if len(mhs) == 0 {
		return
	}
	got, err := dw.findHTTP(mhs)
	if err != nil {
		dw.failP(dw.prop, "find-error", "a lookup failed although nothing is wrong: %s", err)
		return
	}
	m := dw.model(nil)
	for _, mh := range mhs {
		want := m.lookup(mh)
		g := dw.defined(got[string(mh)])
		sortEntries(g)
		sortEntries(want)
		if !entriesEqual(g, want) {
			dw.failP(dw.prop, "index-differs", "multihash %s: the finder serves %s, the chains say %s", mh.B58String(), fmtEntries(g), fmtEntries(want))
			return
		}
	}
	dw.hit("daemon.served")
}

func (dw *DaemonWorld) gone() bool {
	g := false
	atomically(func() { g = dw.stop || dw.ended })
	return g
}

func (dw *DaemonWorld) exec(op *Op) {
	p := dw.pubs[op.P%len(dw.pubs)]
	start := time.Now()
	defer func() {
		if d := time.Since(start); d > 30*time.Minute && !dw.failed() {
			dw.failP(dw.prop, "request-hangs", "a %s request took %s", op.K, d)
		}
	}()
	switch op.K {
	case "pub":
		dw.publish(op)
	case "ann":
		st, err := dw.announceHTTP(p)
		if (err != nil || st/100 == 5) && !dw.gone() {
			dw.failP(dw.prop, "announce-error", "an announcement was answered with %d %v", st, err)
		}
	case "sync":
		st, err := dw.adminSync(p, op.A, op.B == 1)
		if (err != nil || st != http.StatusAccepted) && !dw.gone() {
			dw.failP(dw.prop, "sync-error", "a sync request was answered with %d %v", st, err)
		}
	case "find":
		_, err := dw.findHTTP([]multihash.Multihash{mhFor(op.A), mhFor(op.B)})
		if err != nil && !dw.gone() {
			dw.failP(dw.prop, "find-error", "a lookup failed: %s", err)
		}
	case "providers":
		st, _, err := dw.request(http.MethodGet, dFinder, "/providers", nil, time.Hour)
		if (err != nil || st != 200) && !dw.gone() {
			dw.failP(dw.prop, "find-error", "listing providers: %d %v", st, err)
		}
	case "allow", "block":
		// somebody who does not matter
		_, _, _ = dw.request(http.MethodPut, dAdmin, "/ingest/"+op.K+"/"+idFor("stranger", int(op.A)).String(), nil, time.Hour)
	case "reload":
		dw.reload(op)
	case "poke": // have the configuration read again
		if op.A == 0 {
			select {
			case dw.sig <- syscall.SIGHUP:
			default:
			}
		} else {
			_, _, _ = dw.request(http.MethodPost, dAdmin, "/reloadconfig", nil, time.Hour)
		}
	case "hostile":
		dw.hostile(op)
	case "evil":
		dw.evil(op)
	case "stop":
		dw.shutdown()
	}
}

// reload changes the configuration file and has the daemon read it.
func (dw *DaemonWorld) reload(op *Op) {
	c := dw.cfg
	var begun int
	alone := false
	atomically(func() {
		dw.reloads++
		dw.reloading++
		begun, alone = dw.reloads, dw.reloading == 1
	})
	defer func() { atomically(func() { dw.reloading-- }) }()
	block := map[int]bool{}
	if op.A == 0 {
		c.Ingest.IngestWorkerCount = int(op.X)
		c.Ingest.StoreBatchSize = int(op.Y)
		c.Ingest.RateLimit = config.RateLimit{}
		if op.Z > 0 {
			c.Ingest.RateLimit = config.RateLimit{Apply: op.Z%2 == 0, BlocksPerSecond: int(op.Z), BurstSize: 5}
		}
		c.Discovery.Policy = config.Policy{Allow: true, Publish: true}
		for _, i := range op.L {
			i %= len(dw.pubs)
			block[i] = true
			c.Discovery.Policy.Except = append(c.Discovery.Policy.Except, dw.pubs[i].id.String())
		}
		if len(op.L) > 0 {
			c.Discovery.Policy.Except = append(c.Discovery.Policy.Except, idFor("stranger", 3).String())
		}
		atomically(func() {
			if op.X > dw.workersHi {
				dw.workersHi = op.X
			}
		})
	} else if op.A == 5 {
		c.Discovery.Policy.Except = []string{"nobody"}
	} else if op.A == 6 {
		c.Ingest.RateLimit.BlocksPerSecond = -1
	}
	dw.save(c, op.A)
	dw.hit(fmt.Sprintf("reload.file%d.via%d", op.A, op.B))
	switch op.B {
	case 1:
		select {
		case dw.sig <- syscall.SIGHUP:
		default:
		}
		time.Sleep(time.Duration(1+op.A) * time.Second)
	case 2: // the daemon notices
		time.Sleep(time.Duration(dw.cfg.Indexer.ConfigCheckInterval) + time.Second)
	}
	if op.A == 0 {
		dw.cfg = c
	}
	if op.B != 0 {
		return
	}
	t0 := time.Now()
	st, b, err := dw.request(http.MethodPost, dAdmin, "/reloadconfig", nil, time.Hour)
	if dw.gone() || !alone || begun != dw.reloads {
		return
	}
	if err != nil {
		if time.Since(t0) < 9*time.Second {
			dw.failP(dw.prop, "reload-error", "a request to reload the configuration failed: %s", err)
		}
		return
	}
	if op.A != 0 {
		if st == http.StatusOK {
			dw.failP(dw.prop, "bad-config-accepted", "reloading a configuration file that is not valid was acknowledged")
		}
		// put it right
		dw.save(dw.cfg, 0)
		return
	}
	if st != http.StatusOK {
		dw.failP(dw.prop, "reload-error", "reloading a valid configuration: %d %s", st, b)
		return
	}
	atomically(func() { dw.workersHi, dw.batchNow, dw.block = op.X, op.Y, block })
	dw.hit("reload.acked")
	// The policy is in force at once.
	for i, p := range dw.pubs {
		st, err := dw.announceHTTP(p)
		if err != nil || st == 0 || dw.gone() || begun != dw.reloads {
			continue
		}
		if block[i] && st/100 == 2 {
			dw.failP(dw.prop, "policy-not-reloaded", "publisher %d may announce although the configuration just loaded does not allow it", i)
		}
		if !block[i] && st/100 != 2 {
			dw.failP(dw.prop, "policy-not-reloaded", "publisher %d may not announce (status %d) although the configuration just loaded allows it", i, st)
		}
	}
}

// limited checks that rate limits from a reloaded configuration apply.
func (dw *DaemonWorld) limited() {
	p := dw.pubs[0]
	for k := int64(0); k < 2 && !dw.failed(); k++ {
		on := (k+dw.plan.Knobs["limitFirst"])%2 == 0
		c := dw.cfg
		c.Discovery.Policy = config.Policy{Allow: true, Publish: true}
		c.Ingest.RateLimit = config.RateLimit{Apply: on, BlocksPerSecond: 2, BurstSize: 4}
		dw.cfg = c
		dw.save(c, 0)
		if st, _, err := dw.request(http.MethodPost, dAdmin, "/reloadconfig", nil, time.Hour); err != nil || st != http.StatusOK {
			dw.failP(dw.prop, "reload-error", "reloading a valid configuration: %d %v", st, err)
			return
		}
		a := dw.publish(&Op{K: "pub", P: 0, A: 14, B: 1, X: adChunks, Y: 9, Z: 9700 + 20*k})
		mine := map[string]bool{}
		for _, b := range a.blocks {
			mine[b] = true
		}
		var first, last time.Time
		prev := dw.net.around
		dw.net.around = func(q *Publisher, ask string, in bool) {
			atomically(func() {
				if mine[ask] {
					if first.IsZero() {
						first = time.Now()
					}
					last = time.Now()
				}
			})
			if prev != nil {
				prev(q, ask, in)
			}
		}
		_, _ = dw.adminSync(p, 0, false)
		dw.waitUntil(10*time.Minute, func() bool { return dw.diff(dw.model(nil)) == "" })
		dw.net.around = prev
		d := last.Sub(first)
		switch {
		case on && d < 4*time.Second:
			dw.failP(dw.prop, "limit-not-applied", "14 blocks were fetched within %s though the configuration loaded allows 2 per second after 4", d)
		case !on && d > 3*time.Second:
			dw.failP(dw.prop, "limit-applied", "14 blocks were fetched within %s though the configuration loaded does not limit", d)
		}
	}
	dw.hit("limits.inforce")
}

// shutdown stops the daemon and waits for its end.
func (dw *DaemonWorld) shutdown() {
	again := false
	atomically(func() {
		again = dw.stop
		dw.stop, dw.stopAt = true, time.Now()
	})
	if again {
		return
	}
	dw.event("stop")
	dw.cancel()
	t := time.NewTimer(5 * time.Minute)
	defer t.Stop()
	select {
	case err := <-dw.done:
		if err != nil {
			dw.failP(dw.prop, "unclean-stop", "the daemon did not stop correctly: %s", err)
		}
		dw.hit("daemon.stopped")
		if !dw.node.inc.stopped {
			dw.failP(dw.prop, "not-closed", "the daemon ended without closing the value store")
		}
	case <-t.C:
		if !dw.failed() {
			dw.failP(dw.prop, "stop-hangs", "the daemon does not stop")
		}
	}
}

func runDaemon(w *World) {
	prop := w.plan.Property
	dw := newDaemonWorld(w, prop)
	defer dw.tidy()
	defer func() { os.SimExit = nil }()
	dw.hookStore()
	if prop == "P19" {
		dw.parallelOracle("P19")
	}
	dw.start()
	if !dw.ready() {
		dw.failP(prop, "not-started", "the daemon does not start: %v", dw.err)
		return
	}
	var err error
	_, err = dw.mn.ConnectPeers(dw.ah.ID(), dw.h.ID())
	dw.must(err)
	wait := w.runClients(dw.exec)
	if !wait(24 * time.Hour) {
		dw.failP(prop, "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	if dw.stop {
		time.Sleep(time.Minute)
		return
	}
	w.faultOn = false
	time.Sleep(2 * time.Minute)
	if prop == "P09" {
		atomically(func() { dw.unforge(dw.pubs[0]) })
		dw.publish(&Op{K: "pub", P: 0, A: 5, B: 2, X: adChunks, Y: 1, Z: 7000})
	}
	// With everybody allowed, all is as the chains say.
	for try := 0; try < 20; try++ {
		dw.exec(&Op{K: "reload", X: w.knob("lastWorkers", 2), Y: w.knob("lastBatch", 8)})
		if w.failed() {
			return
		}
		if dw.count["reload.acked"] > 0 && len(dw.block) == 0 {
			break
		}
	}
	diff := "?"
	for try := 0; try < 4 && diff != "" && !w.failed(); try++ {
		for _, p := range dw.pubs {
			if len(p.ads) > 0 {
				dw.exec(&Op{K: "sync", P: p.i})
			}
		}
		dw.waitUntil(time.Hour, func() bool { diff = dw.diff(dw.model(nil)); return diff == "" })
	}
	if w.failed() {
		return
	}
	if diff != "" {
		dw.failP(prop, "index-differs", "%s", diff)
		return
	}
	time.Sleep(time.Minute)
	if prop == "P19" {
		dw.inForce(prop, func(p *Publisher) { _, _ = dw.adminSync(p, 0, false) })
		dw.waitUntil(time.Hour, func() bool { return dw.diff(dw.model(nil)) == "" })
		if !w.failed() {
			dw.limited()
		}
		dw.waitUntil(time.Hour, func() bool { return dw.diff(dw.model(nil)) == "" })
		if w.failed() {
			return
		}
	}
	dw.served()
	if !w.failed() {
		dw.shutdown()
		time.Sleep(time.Minute)
	}
}

// ---- hostile requests ---------------------------------------------------------

type sealed interface{ record.Record }

func sealMsg(rec record.Record, key crypto.PrivKey) []byte {
	env, err := record.Seal(rec, key)
	if err != nil {
		panic(err)
	}
	b, err := env.Marshal()
	if err != nil {
		panic(err)
	}
	return b
}

// mangle damages b in a way decided by r.
func mangle(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for n := r.Intn(4); n >= 0; n-- {
		if len(b) == 0 {
			return []byte{byte(r.Intn(256))}
		}
		i := r.Intn(len(b))
		switch r.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(r.Intn(8))
		case 1:
			b[i] = byte(pick(r, 0, 1, 0x7f, 0x80, 0xff, '{', '"', ']'))
		case 2:
			b = b[:i]
		case 3:
			j := i + r.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := i + r.Intn(len(b)-i)
			b = append(b[:j:j], b[i:]...)
		case 5: // a length, or so
			v := varint.ToUvarint(uint64(pick(r, 1<<20, 1<<31-1, 1<<31, 1<<32, 1<<62)))
			b = append(b[:i:i], append(v, b[i:]...)...)
		case 6: // CBOR headers
			h := [][]byte{{0x9b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x5b, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, {0x9a, 0, 1, 0, 0}, {0xbf}, {0xd8, 0x2a}, {0xf6}, {0x80}}
			b = append(b[:i:i], append(h[r.Intn(len(h))], b[i:]...)...)
		case 7:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	}
	return b
}

func (dw *DaemonWorld) hostile(op *Op) {
	r := rand.New(rand.NewSource(op.Z))
	key := keyFor("mallory", int(op.Y))
	id := idFor("mallory", int(op.Y))
	atomically(func() {
		if dw.alien == nil {
			dw.alien = map[peer.ID]bool{}
		}
		dw.alien[id] = true
	})
	mh := mhFor(op.A)
	seq := uint64(time.Now().UnixNano())
	weird := []multiaddr.Multiaddr{
		mustAddr("/ip4/10.6.6.6/tcp/80/http"), mustAddr("/ip4/127.0.0.1"), mustAddr("/dns4/nowhere/tcp/1/http"), mustAddr("/ip6/::1/udp/1/quic"),
		mustAddr("/unix/tmp/x"), mustAddr("/ip4/10.6.6.6/tcp/80/http/p2p/" + id.String()), mustAddr("/p2p/" + id.String()), mustAddr("/p2p/" + dw.pubs[0].id.String()),
		mustAddr("/dns4/pub0.sim/tcp/80/http/p2p/" + id.String()), mustAddr("/http"),
	}
	someAddrs := func() []multiaddr.Multiaddr {
		var out []multiaddr.Multiaddr
		for n := r.Intn(3); n >= 0; n-- {
			out = append(out, weird[r.Intn(len(weird))])
		}
		return out
	}
	cids := []cid.Cid{cid.NewCidV1(cid.Raw, mh), cid.NewCidV0(mh), cid.NewCidV1(cid.DagJSON, mh)}
	c := cids[r.Intn(len(cids))]
	if r.Intn(3) == 0 {
		// an identity hash as long as can be
		m, _ := multihash.Sum(bytes.Repeat([]byte{7}, r.Intn(200)), multihash.IDENTITY, -1)
		c = cid.NewCidV1(cid.DagJSON, m)
	}
	md := []byte("hostile-md")
	if r.Intn(2) == 0 {
		md = nil
	}
	var body []byte
	switch op.X % 6 {
	case 0:
		body = announceCbor(c, someAddrs())
	case 1:
		var as []multiaddr.Multiaddr
		if r.Intn(3) > 0 {
			as = someAddrs()
		}
		body = sealMsg(&peer.PeerRecord{PeerID: id, Addrs: as, Seq: seq}, key)
	case 2:
		var ss []string
		for _, a := range someAddrs() {
			ss = append(ss, a.String())
		}
		if r.Intn(3) == 0 {
			ss = append(ss, "nonsense")
		}
		m := mh
		switch r.Intn(3) {
		case 0:
			m = multihash.Multihash{}
		case 1:
			m = multihash.Multihash("x")
		}
		cx := []byte("hostile")
		if r.Intn(3) == 0 {
			cx = bytes.Repeat([]byte{1}, 70000)
		}
		body = sealMsg(&ingestmodel.IngestRequest{Multihash: m, ProviderID: id, ContextID: cx, Metadata: md, Addrs: ss, Seq: seq}, key)
	case 3:
		body = sealMsg(&ingestmodel.DiscoverRequest{ProviderID: id, DiscoveryAddr: []string{"t01000", "", "f0", "\x00"}[r.Intn(4)], Seq: seq}, key)
	case 4:
		q := []multihash.Multihash{mh, {}, multihash.Multihash("x")}
		body, _ = model.MarshalFindRequest(&model.FindRequest{Multihashes: q[:1+r.Intn(3)]})
	case 5:
		body = make([]byte, r.Intn(300))
		r.Read(body)
	}
	if op.B > 0 {
		body = mangle(r, body)
	}
	dw.hit(fmt.Sprintf("hostile.%d.via%d", op.X%6, op.A%4))
	limit := time.Duration(1+r.Intn(60)) * time.Second
	switch op.A % 4 {
	case 0, 1:
		dw.hostileHTTP(r, id, c, body, limit)
	case 2:
		dw.hostileP2P(r, op, body, limit)
	case 3:
		dw.hostileRaw(r, body, limit)
	}
}

func (dw *DaemonWorld) hostileHTTP(r *rand.Rand, id peer.ID, c cid.Cid, body []byte, limit time.Duration) {
	odd := []string{c.String(), c.Hash().B58String(), id.String(), "", "..", "%00", strings.Repeat("z", 3000), "-1", "{}", dw.pubs[0].id.String(), url.PathEscape(string(body))}
	o := odd[r.Intn(len(odd))]
	type ep struct{ m, a, p string }
	eps := []ep{
		{"PUT", dIngest, "/ingest/announce"}, {"PUT", dIngest, "/ingest/announce"}, {"PUT", dIngest, "/ingest/announce"},
		{"POST", dIngest, "/register"}, {"POST", dIngest, "/register"}, {"POST", dIngest, "/discover"}, {"POST", dIngest, "/discover"},
		{"DELETE", dIngest, "/register/" + o}, {"POST", dIngest, "/" + o},
		{"POST", dFinder, "/multihash"}, {"POST", dFinder, "/multihash"}, {"GET", dFinder, "/multihash/" + o}, {"GET", dFinder, "/cid/" + o},
		{"GET", dFinder, "/providers/" + o}, {"POST", dFinder, "/reframe"}, {"GET", dFinder, "/reframe?q=" + url.QueryEscape(string(body))}, {"GET", dFinder, "/stats"},
		{"POST", dAdmin, "/ingest/sync/" + o + "?depth=" + url.QueryEscape(odd[r.Intn(len(odd))])}, {"POST", dAdmin, "/ingest/sync/" + id.String()},
		{"PUT", dAdmin, "/ingest/allow/" + o}, {"POST", dAdmin, "/importproviders"}, {"POST", dAdmin, "/import/cidlist/" + o}, {"POST", dAdmin, "/import/manifest/" + o},
		{"POST", dAdmin, "/config/log/level?subsystem=x&level=" + url.QueryEscape(o)},
	}
	e := eps[r.Intn(len(eps))]
	if strings.HasPrefix(e.p, "/import") {
		var from []byte
		switch r.Intn(3) {
		case 0:
			from = []byte("http://" + dFinder)
		case 1:
			from = []byte("http://evil.sim")
		}
		m := map[string][]byte{"indexer": from, "file": []byte(filepath.Join(dw.dir, "nofile")), "context_id": []byte("hostile"), "metadata": nil}
		if r.Intn(2) == 0 {
			delete(m, []string{"indexer", "file", "metadata"}[r.Intn(3)])
		}
		body, _ = json.Marshal(m)
	}
	st, _, err := dw.request(e.m, e.a, e.p, body, limit)
	dw.event("hostile %s %.30s: %d %v", e.m, e.p, st, err)
}

func (dw *DaemonWorld) hostileP2P(r *rand.Rand, op *Op, body []byte, limit time.Duration) {
	pid := v0.IngestProtocolID
	var msg []byte
	if r.Intn(2) == 0 {
		pid = v0.FinderProtocolID
		m := &finderpb.FinderMessage{Type: finderpb.FinderMessage_MessageType(r.Intn(9)), Data: body}
		msg, _ = m.Marshal()
	} else {
		ty := []pb.IngestMessage_MessageType{pb.IngestMessage_REGISTER_PROVIDER, pb.IngestMessage_INDEX_CONTENT, pb.IngestMessage_DISCOVER_PROVIDER, pb.IngestMessage_MessageType(r.Intn(12))}
		m := &pb.IngestMessage{Type: ty[r.Intn(4)], Data: body}
		msg, _ = m.Marshal()
	}
	if op.B > 1 {
		msg = mangle(r, msg)
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	s, err := dw.ah.NewStream(ctx, dw.h.ID(), protocol.ID(pid))
	if err != nil {
		return
	}
	out := append(varint.ToUvarint(uint64(len(msg))), msg...)
	switch r.Intn(6) {
	case 0:
		out = append(varint.ToUvarint(uint64(pick(r, 0, 1<<24, 1<<32, 1<<62))), msg...)
	case 1:
		out = append(out, out...)
	case 2:
		out = out[:r.Intn(len(out))]
	}
	_, _ = s.Write(out)
	buf := make([]byte, 256)
	done := make(chan struct{})
	go func() { defer close(done); _, _ = s.Read(buf) }()
	select {
	case <-done:
	case <-ctx.Done():
	}
	if r.Intn(2) == 0 {
		_ = s.Reset()
	} else {
		_ = s.Close()
	}
}

func (dw *DaemonWorld) hostileRaw(r *rand.Rand, body []byte, limit time.Duration) {
	addr := []string{dFinder, dIngest, dAdmin}[r.Intn(3)]
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c, err := (&net.Dialer{}).DialContext(ctx, "tcp", addr)
	if err != nil {
		return
	}
	defer c.Close()
	switch r.Intn(3) {
	case 0:
		_, _ = c.Write(body)
	case 1:
		_, _ = c.Write([]byte(fmt.Sprintf("POST /multihash HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n", len(body)+r.Intn(1000))))
		_, _ = c.Write(body)
	case 2:
		_, _ = c.Write([]byte("PUT /ingest/announce HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nffffffff\r\n"))
		_, _ = c.Write(body)
	}
	_ = c.SetReadDeadline(time.Now().Add(limit))
	_, _ = c.Read(make([]byte, 100))
}

var _ = errors.New

func genDaemon(r *rand.Rand, p *Plan, tier string) {
	prop := p.Property
	o := genOpts{maxPubs: 3, maxAds: 3, syncs: 3, finals: []int64{0}}
	np := genBase(r, p, o)
	delete(p.Knobs, "ctx0")
	p.Knobs["lastWorkers"] = pick(r, 1, 2, 3, 5)
	p.Knobs["lastBatch"] = pick(r, 1, 2, 8, 64)
	p.Knobs["limitFirst"] = r.Int63n(2)
	genSyncs(r, p, np, o)
	for i := range p.Ops {
		if op := &p.Ops[i]; op.K == "sync" {
			op.X = 0
		}
	}
	for i := 0; i < 2+r.Intn(6); i++ {
		p.Ops = append(p.Ops, Op{C: 500, D: r.Int63n(pick(r, 3000, 300000, 20000000)), K: pick2(r, "find", "find", "providers"), A: r.Int63n(30), B: r.Int63n(30)})
	}
	reloads := 1 + r.Intn(5)
	if prop == "P09" {
		reloads = r.Intn(2)
	}
	for i := 0; i < reloads; i++ {
		op := Op{C: 600 + r.Intn(1+int(r.Int63n(2))*boolInt(prop == "P08")), D: r.Int63n(pick(r, 1000, 30000, 3000000, 40000000)), K: "reload", X: pick(r, 1, 2, 4, 8), Y: pick(r, 1, 3, 16, 64)}
		if prop == "P08" {
			// around when the daemon looks at the file by itself
			if chance(r, 50) {
				op.D = 29990000 + r.Int63n(20000)
			}
		}
		op.B = pick(r, 0, 0, 0, 1, 2)
		if chance(r, 30) {
			op.A = 1 + r.Int63n(6)
		}
		if chance(r, 40) {
			op.Z = pick(r, 50, 101, 1000)
		}
		if chance(r, 30) {
			op.L = append(op.L, r.Intn(np))
		}
		p.Ops = append(p.Ops, op)
	}
	if prop != "P09" && chance(r, 50) {
		d := r.Int63n(pick(r, 1000, 3000000))
		if chance(r, 30) {
			d = 29990000 + r.Int63n(20000)
		}
		for i := 0; i < 2+r.Intn(4); i++ {
			p.Ops = append(p.Ops, Op{C: 610 + i, D: d + r.Int63n(pick(r, 1, 30, 300)), K: "poke", A: pick(r, 0, 1, 1)})
		}
	}
	if prop == "P09" {
		for c := 0; c < 1+r.Intn(3); c++ {
			for i := 0; i < 2+r.Intn(10); i++ {
				p.Ops = append(p.Ops, Op{C: 700 + c, D: r.Int63n(pick(r, 1000, 20000, 2000000)), K: "hostile", X: r.Int63n(6), Y: r.Int63n(3), A: r.Int63n(40), B: pick(r, 0, 0, 1, 2), Z: r.Int63n(1 << 40)})
			}
		}
		if chance(r, 30) {
			p.Ops = append(p.Ops, Op{C: 0, D: r.Int63n(20000), K: "evil", P: 0, X: r.Int63n(evKinds-1) % evNoAddrs, Y: r.Int63n(3), A: r.Int63n(20), B: r.Int63n(4096), Z: 20000}, Op{C: 0, K: "ann"})
		}
	}
	if chance(r, 40) {
		genNetFaults(r, p, np, 1+r.Intn(3))
	}
	if prop == "P08" {
		d := r.Int63n(pick(r, 100, 20000, 3000000, 60000000))
		if chance(r, 30) {
			d = 29990000 + r.Int63n(20000)
		}
		p.Ops = append(p.Ops, Op{C: 800, D: d, K: "stop"})
	}
	if prop == "P19" && chance(r, 40) {
		p.Ops = append(p.Ops, Op{C: 601, D: r.Int63n(1000000), K: pick2(r, "allow", "block"), A: r.Int63n(2)})
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register("daemon", &Scenario{run: runDaemon, gen: genDaemon}, "P19", "P09", "P08")
}

var _ sealed = (*peer.PeerRecord)(nil)
