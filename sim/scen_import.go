package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	agg "github.com/filecoin-project/go-dagaggregator-unixfs"
	indexer "github.com/filecoin-project/go-indexer-core"
	adminclient "github.com/filecoin-project/storetheindex/api/v0/admin/client/http"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	adminserver "github.com/filecoin-project/storetheindex/server/admin/http"
	"github.com/ipfs/go-cid"
	"github.com/multiformats/go-multibase"
	"github.com/multiformats/go-multihash"
)

// P17: bulk imports through the real admin server and client, from files whose
// reads are cut, slowed down and failed, into a store that fails.

type imp struct {
	n        int
	manifest bool
	file     string
	prov     int
	ctx, md  string
	valid    []multihash.Multihash // in order
	set      map[string]bool
	size     int64
	chunk    int64
	failAt   int64 // offset at which reading fails, or -1
	stallAt  int64
	stall    time.Duration
	off      int64
	faulty   bool // something was made to fail
	done     bool
}

type ImpWorld struct {
	*RegWorld
	wire  *Wire
	srv   *adminserver.Server
	dir   string
	imps  []*imp
	byF   map[string]*imp
	byCtx map[string]*imp
}

func (iw *ImpWorld) read(name string, b []byte) ([]byte, error) {
	im := iw.byF[name]
	if im == nil {
		return b, nil
	}
	if im.stall > 0 && im.off >= im.stallAt {
		d := im.stall
		im.stall = 0
		time.Sleep(d)
	}
	if im.failAt >= 0 && im.off >= im.failAt {
		im.faulty = true
		return nil, syscall.EIO
	}
	if im.chunk > 0 && int64(len(b)) > im.chunk {
		b = b[:im.chunk]
	}
	if im.failAt >= 0 && im.off+int64(len(b)) > im.failAt {
		b = b[:im.failAt-im.off]
	}
	if l := im.size - im.off; int64(len(b)) < l {
		l = int64(len(b))
		im.off += l
	} else {
		im.off = im.size
	}
	return b, nil
}

func encodeCid(r *rand.Rand, m multihash.Multihash) string {
	codec := []uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR, cid.DagJSON}[r.Intn(4)]
	c := cid.NewCidV1(codec, m)
	base := []multibase.Encoding{multibase.Base32, multibase.Base32, multibase.Base32, multibase.Base58BTC, multibase.Base36, multibase.Base64url, multibase.Base16, multibase.Base32Upper}[r.Intn(8)]
	s, err := c.StringOfBase(base)
	if err != nil {
		panic(err)
	}
	return s
}

// content makes the file of an import from a seed, so that a plan is small.
func (im *imp) content(seed int64, count int, style int64) []byte {
	r := rand.New(rand.NewSource(seed))
	var out bytes.Buffer
	im.set = map[string]bool{}
	eol := "\n"
	if style&1 != 0 {
		eol = "\r\n"
	}
	junk := 0
	if style&2 != 0 {
		junk = 20
	}
	add := func(m multihash.Multihash) {
		im.valid = append(im.valid, m)
		im.set[string(m)] = true
	}
	for i := 0; i < count; i++ {
		if r.Intn(100) < junk {
			switch r.Intn(5) {
			case 0:
			case 1:
				out.WriteString("not a cid")
			case 2:
				out.WriteString(strings.Repeat("x", r.Intn(9000)))
			case 3:
				out.WriteString("bafkqaaa=")
			case 4:
				out.WriteString(`{"RecordType":"DagAggregateSummary","EntryCount":3}`)
			}
			out.WriteString(eol)
		}
		m := mhFor(r.Int63n(int64(count)*4 + 1000))
		v0 := r.Intn(4) == 0
		switch r.Intn(30) {
		case 0:
			m, _ = multihash.Sum([]byte(fmt.Sprintf("id %d", r.Int63n(1000))), multihash.IDENTITY, -1)
			v0 = false
		case 1:
			m, _ = multihash.Sum([]byte(fmt.Sprintf("s5 %d", r.Int63n(1000))), multihash.SHA2_512, -1)
			v0 = false
		case 2:
			if style&4 != 0 {
				m, _ = multihash.Sum(bytes.Repeat([]byte{byte(i)}, 2000+r.Intn(2000)), multihash.IDENTITY, -1)
				v0 = false
			}
		}
		var s string
		if v0 {
			s = cid.NewCidV0(m).String()
		} else {
			s = encodeCid(r, m)
		}
		add(m)
		if !im.manifest {
			out.WriteString(s)
		} else {
			e := agg.ManifestDagEntry{RecordType: "DagAggregateEntry", DagCidV1: s}
			if v0 {
				e.DagCidV0, e.DagCidV1 = s, ""
			}
			if style&4 != 0 && r.Intn(40) == 0 {
				e.PathPrefixes[0] = strings.Repeat("a path ", 9000+r.Intn(9000))
			}
			b, err := json.Marshal(e)
			if err != nil {
				panic(err)
			}
			out.Write(b)
		}
		if i < count-1 || style&8 == 0 {
			out.WriteString(eol)
		}
	}
	return out.Bytes()
}

func (iw *ImpWorld) exec(op *Op) {
	switch op.K {
	case "imp":
		im := &imp{manifest: op.B == 1, prov: op.P % iw.provs, failAt: -1, chunk: op.Y}
		data := im.content(op.Z, int(op.A), op.X)
		atomically(func() {
			im.n = len(iw.imps)
			iw.imps = append(iw.imps, im)
			im.file = filepath.Join(iw.dir, fmt.Sprintf("list%d", im.n))
			im.ctx, im.md = fmt.Sprintf("imp-ctx-%d", im.n), fmt.Sprintf("imp-md-%d", im.n)
			iw.byF[im.file], iw.byCtx[im.ctx] = im, im
		})
		im.size = int64(len(data))
		if f := iw.fault("file.eio", 0); f != nil {
			im.failAt = f.A % (im.size + 1)
		}
		if f := iw.fault("file.stall", 0); f != nil {
			im.stallAt, im.stall = f.A%(im.size+1), time.Duration(1+f.A%50000000)*time.Microsecond
		}
		missing := iw.fault("file.missing", 0) != nil
		if missing {
			im.faulty = true
		} else if err := os.WriteFile(im.file, data, 0o600); err != nil {
			panic(err)
		}
		if op.S == "empty" {
			im.faulty = true
		}
		var cancelAfter time.Duration
		if f := iw.fault("client.cancel", 0); f != nil {
			cancelAfter = time.Duration(f.A) * time.Microsecond
			im.faulty = true
		}
		cl, err := adminclient.New(iw.url())
		if err != nil {
			panic(err)
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if cancelAfter > 0 {
			ctx, cancel = context.WithTimeout(ctx, cancelAfter)
			defer cancel()
		}
		faults0 := iw.injected
		t0 := time.Now()
		prov := provID(im.prov)
		if !within(2*time.Hour, func() {
			if im.manifest {
				err = cl.ImportFromManifest(ctx, im.file, prov, []byte(im.ctx), []byte(im.md))
			} else {
				err = cl.ImportFromCidList(ctx, im.file, prov, []byte(im.ctx), []byte(im.md))
			}
		}) {
			iw.failP("P17", "hang", "an import never ended")
			return
		}
		iw.event("import %d of %d entries, %d bytes: %v", im.n, len(im.valid), im.size, err)
		if err == nil {
			iw.hit("import.ok")
			im.done = true
			iw.complete(im)
			if missing || im.failAt >= 0 && im.failAt <= im.size && im.faulty {
				iw.failP("P17", "false-success", "an import whose list could not be read was reported as successful")
			}
			return
		}
		iw.hit("import.failed")
		if !im.faulty && len(im.valid) > 0 && iw.injected == faults0 && !iw.badWire() && time.Since(t0) < 25*time.Second {
			iw.failP("P17", "refused", "an import of %d valid entries (%d bytes) failed although nothing was wrong: %s", len(im.valid), im.size, err)
		}
	}
}

// badWire tells whether connections may have been broken.
func (iw *ImpWorld) badWire() bool {
	for _, f := range iw.plan.Faults {
		if strings.HasPrefix(f.K, "wire.") {
			return true
		}
	}
	return false
}

// complete checks that everything of an import is found.
func (iw *ImpWorld) complete(im *imp) {
	missing := 0
	for _, m := range im.valid {
		ok := false
		for _, e := range iw.node.lookup(m) {
			if e.Prov == provID(im.prov) && e.Ctx == im.ctx && e.Md == im.md {
				ok = true
			}
		}
		if !ok {
			missing++
		}
	}
	if missing > 0 {
		iw.failP("P17", "left-out", "an import was reported as successful but %d of its %d entries are not indexed", missing, len(im.valid))
	}
}

func (iw *ImpWorld) url() string {
	for a := range iw.wire.listeners {
		return "http://" + a
	}
	return "http://127.0.0.1:1"
}

func runImport(w *World) {
	iw := &ImpWorld{RegWorld: newRegWorld(w), byF: map[string]*imp{}, byCtx: map[string]*imp{}}
	dir, err := scratchDir()
	if err != nil {
		panic(err)
	}
	iw.dir = dir
	defer os.RemoveAll(dir)
	os.SimRead = iw.read
	iw.wire = newWire(w)
	iw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		im := iw.byCtx[string(v.ContextID)]
		if im == nil || v.ProviderID != provID(im.prov) || string(v.MetadataBytes) != im.md {
			iw.failP("P17", "wrong-value", "content was indexed under a provider, context or metadata that was not given")
			return
		}
		for _, m := range mhs {
			if !im.set[string(m)] {
				iw.failP("P17", "not-listed", "a multihash was indexed that is not in the list")
				return
			}
		}
		iw.hit("import.put")
	}
	w.faultOn = false
	if err := iw.startNode(); err != nil {
		panic(err)
	}
	w.faultOn = true
	iw.srv, err = adminserver.New("127.0.0.1:0", iw.node.store, new(ingest.Ingester), iw.node.reg, nil)
	if err != nil {
		panic(err)
	}
	go func() { _ = iw.srv.Start() }()
	wait := w.runClients(iw.exec)
	if !wait(24 * time.Hour) {
		iw.failP("P17", "hang", "the clients do not end")
		return
	}
	if w.failed() {
		return
	}
	time.Sleep(time.Minute)
	for _, im := range iw.imps {
		if im.done {
			iw.complete(im)
		}
	}
	// An import that failed works when repeated with nothing wrong.
	w.faultOn = false
	for i := range w.plan.Ops {
		if i < 3 && !w.failed() {
			iw.exec(&w.plan.Ops[i])
		}
	}
}

func genImport(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	k["provs"] = 2
	k["netLat"] = pick(r, 0, 100, 2000)
	k["vsLat"] = pick(r, 0, 0, 20, 3000)
	k["pollRetry"] = 18000
	unit := pick(r, 10, 5000, 1000000)
	for c := 0; c < 1+r.Intn(3); c++ {
		for j := 0; j < 1+r.Intn(2); j++ {
			op := Op{C: c, K: "imp", D: r.Int63n(unit), P: r.Intn(2), B: r.Int63n(2), Z: r.Int63(), X: r.Int63n(16)}
			op.A = pick(r, 1, 2, 3, 10, 40, 100, 255, 256, 257, 300, 511, 512, 513)
			op.Y = pick(r, 0, 0, 100, 1000, 4096)
			if op.A < 20 {
				op.Y = pick(r, 0, 1, 7, 100)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	for i := 0; i < r.Intn(4); i++ {
		f := Fault{K: []string{"file.eio", "file.eio", "file.stall", "file.missing", "client.cancel", "vs.eio", "vs.partial", "vs.lostack", "vs.stall", "wire.break", "wire.stall"}[r.Intn(11)], N: r.Int63n(6), M: 1, A: r.Int63n(1 << 40)}
		switch f.K {
		case "client.cancel":
			f.A = 1 + r.Int63n(unit*3)
		case "vs.stall", "wire.stall":
			f.A = r.Int63n(40000000)
		case "vs.partial":
			f.A = r.Int63n(300)
		}
		p.Faults = append(p.Faults, f)
	}
}

func init() {
	register("import", &Scenario{run: runImport, gen: genImport}, "P17")
}
