package main

import (
	"context"
	"errors"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/cache"
	"github.com/filecoin-project/go-indexer-core/cache/radixcache"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

// VStore is the simulated durable value store. Each incarnation runs the real
// indexer-core engine (optionally with its real result cache) over the real
// in-memory store; VStore keeps the log of applied changes, of which only the
// flushed part (and any prefix of the rest) survives a crash.
type VStore struct {
	w       *World
	durable []vop // survives crashes
	pending []vop // applied but not flushed

	// observers, called atomically after each applied change / before it
	onPut func(h *VHandle, v indexer.Value, mhs []multihash.Multihash)
	onRm  func(h *VHandle, p peer.ID, ctxID []byte)
	// called when a Put starts and ends
	aroundPut func(v indexer.Value, in bool)
}

type vop struct {
	k   byte // 'p' put, 'r' remove, 'c' remove context, 'P' remove provider
	val indexer.Value
	mhs []multihash.Multihash
}

func newVStore(w *World) *VStore { return &VStore{w: w} }

type VHandle struct {
	vs  *VStore
	inc *Incarnation
	mem indexer.Interface // the underlying store
	eng indexer.Interface // engine over it
}

var errStoreIO = errors.New("sim: value store input/output error")

func (vs *VStore) open(inc *Incarnation) *VHandle {
	mem := memory.New()
	for _, o := range vs.durable {
		applyVop(mem, o)
	}
	var rc cache.Interface
	if sz := vs.w.knob("cache", 0); sz > 0 {
		rc = radixcache.New(int(sz))
	}
	h := &VHandle{vs: vs, inc: inc, mem: mem}
	h.eng = engine.New(rc, mem, engine.CacheOnPut(vs.w.knob("cacheOnPut", 0) == 1))
	return h
}

func applyVop(s indexer.Interface, o vop) {
	switch o.k {
	case 'p':
		_ = s.Put(o.val, o.mhs...)
	case 'r':
		_ = s.Remove(o.val, o.mhs...)
	case 'c':
		_ = s.RemoveProviderContext(o.val.ProviderID, o.val.ContextID)
	case 'P':
		_ = s.RemoveProvider(context.Background(), o.val.ProviderID)
	}
}

// crashCut keeps a prefix of the unflushed changes.
func (vs *VStore) crashCut() {
	atomically(func() {
		keep := 0
		if n := len(vs.pending); n > 0 {
			switch vs.w.rng.Intn(4) {
			case 0: // lose everything unflushed
			case 1:
				keep = n
			default:
				keep = vs.w.rng.Intn(n + 1)
			}
		}
		if keep < len(vs.pending) {
			vs.w.count["fault:vs.lostwrites"] += int64(len(vs.pending) - keep)
		}
		vs.durable = append(vs.durable, vs.pending[:keep]...)
		vs.pending = nil
	})
}

func (vs *VStore) flushAll() {
	atomically(func() {
		vs.durable = append(vs.durable, vs.pending...)
		vs.pending = nil
	})
}

func copyValue(v indexer.Value) indexer.Value {
	v.ContextID = append([]byte(nil), v.ContextID...)
	v.MetadataBytes = append([]byte(nil), v.MetadataBytes...)
	return v
}

func copyMhs(mhs []multihash.Multihash) []multihash.Multihash {
	out := make([]multihash.Multihash, len(mhs))
	for i := range mhs {
		out[i] = append(multihash.Multihash(nil), mhs[i]...)
	}
	return out
}

func (h *VHandle) record(o vop) {
	atomically(func() { h.vs.pending = append(h.vs.pending, o) })
}

func (h *VHandle) pre(op string, write bool) error {
	w := h.vs.w
	h.inc.gate()
	defer func() {
		if h.inc.stopped {
			w.hit("vs.late")
			if h.inc.onLate != nil {
				h.inc.onLate("value store " + op)
			}
		}
	}()
	if write {
		if f := w.fault("vs.stall", 0); f != nil {
			time.Sleep(time.Duration(f.A) * time.Microsecond)
			h.inc.gate()
		}
		if w.fault("crash.vs", 0) != nil {
			h.inc.crash("before value store write")
		}
	}
	if lat := w.knob("vsLat", 0); lat > 0 {
		n := int64(0)
		atomically(func() { n = w.rng.Int63n(lat + 1) })
		if n > 0 {
			time.Sleep(time.Duration(n) * time.Microsecond)
		}
		h.inc.gate()
	}
	return nil
}

func (h *VHandle) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	w := h.vs.w
	if f := h.vs.aroundPut; f != nil {
		pv := copyValue(v)
		f(pv, true)
		defer f(pv, false)
	}
	if err := h.pre("put", true); err != nil {
		return err
	}
	// The arguments are read only now, after the simulated latency: a caller
	// that reuses the slice while the call is in progress is found out.
	v = copyValue(v)
	mhs = copyMhs(mhs)
	if w.fault("vs.eio", 0) != nil {
		return errStoreIO
	}
	if len(mhs) == 0 && w.fault("vs.ctxeio", 0) != nil {
		return errStoreIO
	}
	if f := w.fault("vs.partial", 0); f != nil {
		n := len(mhs) / 2
		if n > 0 {
			h.apply(v, mhs[:n])
		}
		return errStoreIO
	}
	if err := h.apply(v, mhs); err != nil {
		return err
	}
	if w.fault("vs.lostack", 0) != nil {
		return errStoreIO
	}
	if w.fault("crash.vsafter", 0) != nil {
		h.inc.crash("after value store write")
	}
	h.inc.gate()
	return nil
}

func (h *VHandle) apply(v indexer.Value, mhs []multihash.Multihash) error {
	var err error
	atomically(func() {
		if err = h.eng.Put(v, mhs...); err != nil {
			return
		}
		h.record(vop{k: 'p', val: v, mhs: mhs})
		h.vs.w.hit("vs.put")
		h.vs.w.event("put %s ctx=%s md=%s n=%d", short(v.ProviderID), v.ContextID, v.MetadataBytes, len(mhs))
		if h.vs.onPut != nil {
			h.vs.onPut(h, v, mhs)
		}
	})
	return err
}

func (h *VHandle) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	w := h.vs.w
	if err := h.pre("remove", true); err != nil {
		return err
	}
	v = copyValue(v)
	mhs = copyMhs(mhs)
	if w.fault("vs.eio", 0) != nil {
		return errStoreIO
	}
	var err error
	atomically(func() {
		if err = h.eng.Remove(v, mhs...); err == nil {
			h.record(vop{k: 'r', val: v, mhs: mhs})
		}
	})
	h.inc.gate()
	return err
}

func (h *VHandle) RemoveProvider(ctx context.Context, id peer.ID) error {
	if err := h.pre("removeprovider", true); err != nil {
		return err
	}
	if h.vs.w.fault("vs.eio", 0) != nil {
		return errStoreIO
	}
	var err error
	atomically(func() {
		if err = h.eng.RemoveProvider(ctx, id); err == nil {
			h.record(vop{k: 'P', val: indexer.Value{ProviderID: id}})
		}
	})
	h.inc.gate()
	return err
}

func (h *VHandle) RemoveProviderContext(id peer.ID, ctxID []byte) error {
	w := h.vs.w
	if err := h.pre("removecontext", true); err != nil {
		return err
	}
	ctxID = append([]byte(nil), ctxID...)
	if w.fault("vs.eio", 0) != nil || w.fault("vs.ctxeio", 0) != nil {
		return errStoreIO
	}
	var err error
	atomically(func() {
		if err = h.eng.RemoveProviderContext(id, ctxID); err != nil {
			return
		}
		h.record(vop{k: 'c', val: indexer.Value{ProviderID: id, ContextID: ctxID}})
		w.hit("vs.rmctx")
		w.event("rmctx %s ctx=%s", short(id), ctxID)
		if h.vs.onRm != nil {
			h.vs.onRm(h, id, ctxID)
		}
	})
	if err != nil {
		return err
	}
	if w.fault("vs.lostack", 0) != nil {
		return errStoreIO
	}
	if w.fault("crash.vsafter", 0) != nil {
		h.inc.crash("after value store write")
	}
	h.inc.gate()
	return nil
}

func (h *VHandle) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	if err := h.pre("get", false); err != nil {
		return nil, false, err
	}
	if h.vs.w.fault("vs.rdeio", 0) != nil {
		return nil, false, errStoreIO
	}
	var vals []indexer.Value
	var found bool
	var err error
	atomically(func() { vals, found, err = h.eng.Get(m) })
	// Copies, as a store that decodes from disk would return.
	out := make([]indexer.Value, len(vals))
	for i := range vals {
		out[i] = copyValue(vals[i])
	}
	if len(out) == 0 {
		out = nil
	}
	h.inc.gate()
	return out, found, err
}

func (h *VHandle) Size() (int64, error) {
	h.inc.gate()
	return h.eng.Size()
}

func (h *VHandle) Flush() error {
	if err := h.pre("flush", true); err != nil {
		return err
	}
	if h.vs.w.fault("vs.flusheio", 0) != nil {
		return errStoreIO
	}
	h.vs.flushAll()
	h.vs.w.hit("vs.flush")
	if h.vs.w.fault("crash.vsafter", 0) != nil {
		h.inc.crash("after value store flush")
	}
	h.inc.gate()
	return h.eng.Flush()
}

func (h *VHandle) Close() error {
	h.inc.gate()
	h.vs.flushAll()
	return h.eng.Close()
}

func (h *VHandle) Iter() (indexer.Iterator, error) {
	h.inc.gate()
	return h.eng.Iter()
}

var _ indexer.Interface = (*VHandle)(nil)
