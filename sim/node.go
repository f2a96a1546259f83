package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"time"
	"unsafe"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	mocknet "github.com/libp2p/go-libp2p/p2p/net/mock"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// Incarnation is one life of the indexer process.
type Incarnation struct {
	w       *World
	n       int
	dead    bool
	stopped bool // closed gracefully: nothing may touch the stores any more
	onLate  func(what string)
	died    chan struct{}
	why     string
}

// gate blocks forever once the process is dead.
func (i *Incarnation) gate() {
	if i.dead {
		forever()
	}
}

// own makes the calling goroutine, and those it starts, part of the process.
func (i *Incarnation) own() { runtime.SimTag(unsafe.Pointer(i)) }

// gateSelf blocks forever if the calling goroutine is part of a dead process.
func gateSelf() {
	if i := (*Incarnation)(runtime.SimTagged()); i != nil {
		i.gate()
	}
}

// crash kills the process at this very point. Called from a goroutine of the
// process it does not return.
func (i *Incarnation) crash(why string) {
	if i.kill(why) {
		forever()
	}
	forever()
}

func (i *Incarnation) kill(why string) bool {
	first := false
	atomically(func() {
		if !i.dead {
			i.dead, first, i.why = true, true, why
			i.w.count["fault:crash"]++
		}
	})
	if first {
		i.w.event("crash of incarnation %d: %s", i.n, why)
		close(i.died)
	}
	return first
}

// Node is the simulated indexer: real registry, ingester and indexer engine.
type Node struct {
	w      *World
	disk   *Disk
	vs     *VStore
	icfg   config.Ingest
	dcfg   config.Discovery
	disc   discovery.Discoverer
	key    crypto.PrivKey
	n      int
	mn     mocknet.Mocknet // shared network, or nil for one per incarnation
	onHost func(h host.Host)

	inc   *Incarnation
	host  host.Host
	reg   *registry.Registry
	ing   *ingest.Ingester
	store *VHandle
	dh    *DiskHandle
	noIng bool
	noReg bool
	skipH bool // no libp2p host at all
}

func newNode(w *World) *Node {
	return &Node{w: w, disk: newDisk(w), vs: newVStore(w), key: keyFor("indexer", 0)}
}

func keyFor(kind string, i int) crypto.PrivKey {
	seed := make([]byte, 64)
	copy(seed, fmt.Sprintf("%s-%d-verif-key-seed-0123456789abcdef", kind, i))
	k, _, err := crypto.GenerateEd25519Key(bytes.NewReader(seed))
	if err != nil {
		panic(err)
	}
	return k
}

func idFor(kind string, i int) peer.ID {
	id, err := peer.IDFromPrivateKey(keyFor(kind, i))
	if err != nil {
		panic(err)
	}
	return id
}

func mustAddr(s string) multiaddr.Multiaddr {
	a, err := multiaddr.NewMultiaddr(s)
	if err != nil {
		panic(err)
	}
	return a
}

var errDiedBooting = errors.New("sim: process died while starting")

// start boots a new incarnation on the durable state.
func (n *Node) start() error {
	n.n++
	inc := &Incarnation{w: n.w, n: n.n, died: make(chan struct{})}
	n.inc = inc
	n.dh = &DiskHandle{d: n.disk, inc: n.inc}
	n.store = n.vs.open(n.inc)
	n.w.event("start incarnation %d", n.n)
	res := make(chan error, 1)
	go func() {
		inc.own()
		res <- n.boot(inc, n.dh, n.store)
	}()
	select {
	case err := <-res:
		return err
	case <-inc.died:
		return errDiedBooting
	}
}

func (n *Node) boot(inc *Incarnation, dh *DiskHandle, store *VHandle) error {
	if !n.skipH {
		mn := n.mn
		if mn == nil {
			mn = mocknet.New()
		}
		key := n.key
		if n.mn != nil && n.n > 1 {
			key = keyFor("indexer", n.n)
		}
		h, err := mn.AddPeer(key, mustAddr(fmt.Sprintf("/ip4/10.9.0.%d/tcp/4001", n.n)))
		if err != nil {
			return err
		}
		n.host = h
		if n.onHost != nil {
			n.onHost(h)
		}
	}
	if n.noReg {
		return nil
	}
	reg, err := registry.NewRegistry(context.Background(), n.dcfg, dh, n.disc)
	if err != nil {
		return fmt.Errorf("registry: %w", err)
	}
	inc.gate()
	n.reg = reg
	if n.noIng {
		return nil
	}
	ing, err := ingest.NewIngester(n.icfg, n.host, store, reg, dh)
	if err != nil {
		return fmt.Errorf("ingester: %w", err)
	}
	inc.gate()
	n.ing = ing
	return nil
}

// crashNow kills the running incarnation from outside.
func (n *Node) crashNow(why string) {
	n.inc.kill(why)
}

// onNode runs a call into this incarnation of the node. It reports false if the
// node crashed meanwhile, and hung if the call did not return in time.
func (n *Node) onNode(d time.Duration, f func()) (ok, hung bool) {
	inc := n.inc
	done := make(chan struct{})
	go func() { inc.own(); f(); close(done) }()
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-done:
		return !inc.dead && n.inc == inc, false
	case <-inc.died:
		return false, false
	case <-t.C:
		return false, true
	}
}

// reborn makes the durable state what a crash leaves and boots again.
func (n *Node) reborn() error {
	n.vs.crashCut()
	n.disk.powerCut()
	if n.host != nil {
		h := n.host
		go h.Close()
	}
	return n.start()
}

// close stops the incarnation in the order the daemon does.
func (n *Node) close(d time.Duration) bool {
	inc, ing, reg, store := n.inc, n.ing, n.reg, n.store
	ok := within(d, func() {
		if ing != nil {
			_ = ing.Close()
		}
		if reg != nil {
			_ = reg.Close()
		}
		_ = store.Close()
	})
	if ok {
		inc.stopped = true
	}
	return ok
}

// ---- index contents ---------------------------------------------------------

type entry struct {
	Prov peer.ID
	Ctx  string
	Md   string
}

func (e entry) String() string {
	return fmt.Sprintf("{%s ctx=%q md=%q}", short(e.Prov), e.Ctx, e.Md)
}

func short(p peer.ID) string {
	s := p.String()
	if len(s) > 6 {
		return s[len(s)-6:]
	}
	return s
}

func valuesToEntries(vals []indexer.Value) []entry {
	var out []entry
	for _, v := range vals {
		out = append(out, entry{v.ProviderID, string(v.ContextID), string(v.MetadataBytes)})
	}
	sortEntries(out)
	return out
}

func sortEntries(out []entry) {
	sort.Slice(out, func(i, j int) bool {
		a, b := out[i], out[j]
		if a.Prov != b.Prov {
			return a.Prov < b.Prov
		}
		if a.Ctx != b.Ctx {
			return a.Ctx < b.Ctx
		}
		return a.Md < b.Md
	})
}

// lookup reads the index without faults or preemption.
func (n *Node) lookup(m multihash.Multihash) []entry {
	var vals []indexer.Value
	atomically(func() {
		v, _, err := n.store.eng.Get(m)
		if err == nil {
			vals = v
		}
	})
	return valuesToEntries(vals)
}
