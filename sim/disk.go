package main

import (
	"context"
	"errors"
	"sort"
	"strings"
	"time"

	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
)

// Disk is the simulated durable key/value storage behind the datastore seam.
// A completed Put or Delete is durable (the process crash model: the operating
// system keeps what was written); a batch commits atomically. Each process
// incarnation uses its own handle, and the handle of a dead incarnation blocks
// forever, so that nothing after the crash point reaches the disk.
type Disk struct {
	w    *World
	data map[string][]byte

	writes int64
	puts   map[string]int
	// onOp, if set, observes every applied write (atomically).
	// the node is about to be closed
	closing bool
	onOp    func(h *DiskHandle, op, key string, val []byte)
	// trace of accesses after close, for P08
	lateOps int64
	// journal of changes not yet synced, for power-loss crashes
	journal []undo
}

type undo struct {
	k   string
	v   []byte
	had bool
}

// powerCut undoes a suffix of the changes that were not synced.
func (d *Disk) powerCut() {
	if d.w.knob("powerloss", 0) == 0 {
		return
	}
	atomically(func() {
		keep := 0
		if n := len(d.journal); n > 0 && d.w.rng.Intn(3) > 0 {
			keep = d.w.rng.Intn(n + 1)
		}
		for i := len(d.journal) - 1; i >= keep; i-- {
			u := d.journal[i]
			d.w.count["fault:disk.lostwrite"]++
			if u.had {
				d.data[u.k] = u.v
			} else {
				delete(d.data, u.k)
			}
		}
		d.journal = nil
	})
}

func (d *Disk) note(k string) {
	if d.w.knob("powerloss", 0) != 0 {
		v, ok := d.data[k]
		d.journal = append(d.journal, undo{k, v, ok})
	}
}

func newDisk(w *World) *Disk { return &Disk{w: w, data: map[string][]byte{}} }

type DiskHandle struct {
	d      *Disk
	inc    *Incarnation
	closed bool // registry closed this handle
}

var errDiskIO = errors.New("sim: input/output error")
var errDiskFull = errors.New("sim: no space left on device")

func forever() { select {} }

// late notices use of the datastore after shutdown.
func (h *DiskHandle) late(op string) {
	if h.inc.stopped {
		h.d.lateOps++
		h.d.w.hit("disk.late")
		if h.inc.onLate != nil {
			h.inc.onLate("datastore " + op)
		}
	}
}

// pre is the common entry of every operation: fencing, latency and faults.
// It returns an error to report, and whether the operation is applied anyway.
func (h *DiskHandle) pre(op string, write bool) (err error, apply bool) {
	w := h.d.w
	h.inc.gate()
	defer h.late(op)
	if lat := w.knob("diskLat", 0); lat > 0 {
		n := int64(0)
		atomically(func() { n = w.rng.Int63n(lat + 1) })
		if n > 0 {
			time.Sleep(time.Duration(n) * time.Microsecond)
		}
		h.inc.gate()
	}
	if h.d.closing {
		if f := w.fault("disk.closestall", 0); f != nil {
			time.Sleep(time.Duration(f.A) * time.Microsecond)
			h.inc.gate()
		}
		if w.fault("disk.closeeio", 0) != nil {
			return errDiskIO, false
		}
	}
	if f := w.fault("disk.stall", 0); f != nil {
		time.Sleep(time.Duration(f.A) * time.Microsecond)
		h.inc.gate()
	}
	if write {
		if w.fault("crash.disk", 0) != nil {
			h.inc.crash("before disk write")
		}
		if w.fault("disk.eio", 0) != nil {
			return errDiskIO, false
		}
		if w.fault("disk.full", 0) != nil {
			return errDiskFull, false
		}
		if w.fault("disk.lostack", 0) != nil {
			return errDiskIO, true
		}
	} else if w.fault("disk.rdeio", 0) != nil {
		return errDiskIO, false
	}
	return nil, true
}

func (h *DiskHandle) post() {
	w := h.d.w
	if w.fault("crash.diskafter", 0) != nil {
		h.inc.crash("after disk write")
	}
	h.inc.gate()
}

func (h *DiskHandle) put(k string, v []byte) {
	h.d.writes++
	h.d.note(k)
	h.d.data[k] = append([]byte(nil), v...)
	if h.d.puts == nil {
		h.d.puts = map[string]int{}
	}
	h.d.puts[k]++
	if h.d.onOp != nil {
		h.d.onOp(h, "put", k, v)
	}
}

func (h *DiskHandle) del(k string) {
	h.d.writes++
	h.d.note(k)
	delete(h.d.data, k)
	if h.d.onOp != nil {
		h.d.onOp(h, "del", k, nil)
	}
}

func (h *DiskHandle) Get(ctx context.Context, key datastore.Key) ([]byte, error) {
	if err, _ := h.pre("get", false); err != nil {
		return nil, err
	}
	var v []byte
	ok := false
	atomically(func() {
		var b []byte
		if b, ok = h.d.data[key.String()]; ok {
			v = append([]byte{}, b...)
		}
	})
	if !ok {
		return nil, datastore.ErrNotFound
	}
	return v, nil
}

func (h *DiskHandle) Has(ctx context.Context, key datastore.Key) (bool, error) {
	if err, _ := h.pre("has", false); err != nil {
		return false, err
	}
	ok := false
	atomically(func() { _, ok = h.d.data[key.String()] })
	return ok, nil
}

func (h *DiskHandle) GetSize(ctx context.Context, key datastore.Key) (int, error) {
	v, err := h.Get(ctx, key)
	if err != nil {
		return -1, err
	}
	return len(v), nil
}

func (h *DiskHandle) Put(ctx context.Context, key datastore.Key, value []byte) error {
	err, apply := h.pre("put", true)
	if apply {
		atomically(func() { h.put(key.String(), value) })
		h.d.w.hit("disk.put")
		h.d.w.event("disk put %s %d", tail(key.String()), len(value))
	}
	if err == nil {
		h.post()
	}
	return err
}

func (h *DiskHandle) Delete(ctx context.Context, key datastore.Key) error {
	// go-ds-leveldb does not look at the context, but other backends may; a
	// delete under an expired context is allowed to fail.
	if ctx != nil && ctx.Err() != nil && h.d.w.knob("ctxStrict", 0) == 1 {
		return ctx.Err()
	}
	err, apply := h.pre("delete", true)
	if apply {
		atomically(func() { h.del(key.String()) })
		h.d.w.hit("disk.del")
		h.d.w.event("disk del %s", tail(key.String()))
	}
	if err == nil {
		h.post()
	}
	return err
}

func (h *DiskHandle) Sync(ctx context.Context, prefix datastore.Key) error {
	if f := h.d.w.fault("disk.synceio", 0); f != nil {
		return errDiskIO
	}
	h.inc.gate()
	if h.d.w.fault("crash.sync", 0) != nil {
		h.inc.crash("before disk sync")
	}
	atomically(func() { h.d.journal = nil })
	return nil
}

func (h *DiskHandle) Close() error {
	h.inc.gate()
	h.closed = true
	return nil
}

func (h *DiskHandle) Query(ctx context.Context, q query.Query) (query.Results, error) {
	if err, _ := h.pre("query", false); err != nil {
		return nil, err
	}
	var ents []query.Entry
	atomically(func() {
		for k, v := range h.d.data {
			if strings.HasPrefix(k, strings.TrimSuffix(q.Prefix, "/")+"/") || q.Prefix == "" || q.Prefix == "/" {
				ents = append(ents, query.Entry{Key: k, Value: append([]byte{}, v...), Size: len(v)})
			}
		}
	})
	sort.Slice(ents, func(i, j int) bool { return ents[i].Key < ents[j].Key })
	return query.NaiveQueryApply(query.Query{Filters: q.Filters, Orders: q.Orders, Limit: q.Limit, Offset: q.Offset, KeysOnly: q.KeysOnly}, query.ResultsWithEntries(q, ents)), nil
}

type diskBatch struct {
	h   *DiskHandle
	ops []diskOp
}
type diskOp struct {
	del bool
	k   string
	v   []byte
}

func (h *DiskHandle) Batch(ctx context.Context) (datastore.Batch, error) {
	return &diskBatch{h: h}, nil
}

func (b *diskBatch) Put(ctx context.Context, key datastore.Key, value []byte) error {
	b.ops = append(b.ops, diskOp{k: key.String(), v: append([]byte{}, value...)})
	return nil
}

func (b *diskBatch) Delete(ctx context.Context, key datastore.Key) error {
	b.ops = append(b.ops, diskOp{del: true, k: key.String()})
	return nil
}

func (b *diskBatch) Commit(ctx context.Context) error {
	err, apply := b.h.pre("batch", true)
	if apply {
		atomically(func() {
			for _, o := range b.ops {
				if o.del {
					b.h.del(o.k)
				} else {
					b.h.put(o.k, o.v)
				}
			}
		})
	}
	if err == nil {
		b.h.post()
	}
	return err
}

// keys returns all keys with the prefix (oracle access; no faults).
func (d *Disk) keys(prefix string) []string {
	var ks []string
	atomically(func() {
		for k := range d.data {
			if strings.HasPrefix(k, prefix) {
				ks = append(ks, k)
			}
		}
	})
	sort.Strings(ks)
	return ks
}

var _ datastore.Batching = (*DiskHandle)(nil)

// tail shortens keys that end in an identifier.
func tail(k string) string {
	i := strings.LastIndexByte(k, '/')
	if len(k)-i > 14 {
		return k[:i+1] + ".." + k[len(k)-8:]
	}
	return k
}
