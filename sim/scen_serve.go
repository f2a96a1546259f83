package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/client"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	"github.com/ipfs/go-cid"
	drclient "github.com/ipfs/go-delegated-routing/client"
	drproto "github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	mocknet "github.com/libp2p/go-libp2p/p2p/net/mock"
	"github.com/multiformats/go-multicodec"
	"github.com/multiformats/go-multihash"
	"github.com/multiformats/go-varint"
)

// P14: the real HTTP, libp2p and reframe servers and clients of the finder
// over simulated networks.

const (
	viaDirect = iota
	viaHTTP   // client library
	viaRaw    // plain HTTP GET of one multihash
	viaCid    // plain HTTP GET of one CID
	viaP2P
	viaReframe
)

type ServeWorld struct {
	*FindWorld
	wire  *Wire
	http  *httpfinderserver.Server
	mn    mocknet.Mocknet
	sh    host.Host
	hosts []host.Host
	httpc []client.Finder
	p2pc  []client.Finder
	refc  []*drclient.Client
	used  map[string]time.Time // p2p client -> last use
	cut   bool
	reqs  int64
}

var bitswapMd = string(varint.ToUvarint(uint64(multicodec.TransportBitswap)))

var errGone = errors.New("sim: no response")

func newServeWorld(w *World) *ServeWorld {
	sw := &ServeWorld{FindWorld: newFindWorld(w), used: map[string]time.Time{}}
	sw.prop, sw.hangProp = "P14", "P14"
	sw.wire = newWire(w)
	return sw
}

func (sw *ServeWorld) bootServers() {
	var err error
	reg, store := sw.node.reg, sw.node.store
	sw.http, err = httpfinderserver.New("127.0.0.1:0", store, reg)
	sw.must(err)
	go func() { _ = sw.http.Start() }()
	sw.mn = mocknet.New()
	if l := sw.knob("netLat", 2000); l > 0 {
		sw.mn.SetLinkDefaults(mocknet.LinkOptions{Latency: time.Duration(l) * time.Microsecond})
	}
	sw.sh, err = sw.mn.AddPeer(keyFor("indexer", 0), mustAddr("/ip4/10.9.0.1/tcp/3003"))
	sw.must(err)
	p2pfinderserver.New(context.Background(), sw.sh, store, reg)
	for i := 0; i < int(sw.knob("clients", 2)); i++ {
		c, err := finderhttpclient.New(sw.http.URL())
		sw.must(err)
		sw.httpc = append(sw.httpc, c)
		h, err := sw.mn.AddPeer(keyFor("client", i), mustAddr(fmt.Sprintf("/ip4/10.8.0.%d/tcp/3003", i+1)))
		sw.must(err)
		_, err = sw.mn.LinkPeers(h.ID(), sw.sh.ID())
		sw.must(err)
		sw.hosts = append(sw.hosts, h)
		pc, err := finderp2pclient.New(h, sw.sh.ID())
		sw.must(err)
		sw.must(pc.ConnectAddrs(context.Background(), sw.sh.Addrs()...))
		sw.p2pc = append(sw.p2pc, pc)
		q, err := drproto.New_DelegatedRouting_Client(sw.http.URL() + "/reframe")
		sw.must(err)
		sw.refc = append(sw.refc, drclient.NewClient(q))
	}
	sw.find = sw.findVia
	sw.get = sw.getVia
	sw.list = sw.listVia
}

// reqCtx gives the context of a request: limited, cancelled at some point, or
// neither.
func (sw *ServeWorld) reqCtx(op *Op) (context.Context, context.CancelFunc) {
	if op.X > 0 {
		d := time.Duration(op.X) * time.Microsecond
		if op.Y == 1 {
			ctx, cancel := context.WithCancel(context.Background())
			go func() { time.Sleep(d); cancel() }()
			return ctx, cancel
		}
		return context.WithTimeout(context.Background(), d)
	}
	return context.WithCancel(context.Background())
}

// excusable tells whether an error may be due to what was done to the request.
func (sw *ServeWorld) excusable(op *Op, start time.Time) bool {
	if op.X > 0 || time.Since(start) > 9*time.Second {
		return true
	}
	for k, n := range sw.count {
		if n > 0 && strings.HasPrefix(k, "fault:wire.") {
			return true
		}
	}
	if int(op.Z) == viaP2P {
		c := fmt.Sprint(op.B)
		return sw.cut || start.Sub(sw.used[c]) > 55*time.Second
	}
	for _, c := range sw.wire.conns {
		if start.Sub(c.wh.last) > 20*time.Second {
			return true
		}
	}
	return false
}

func (sw *ServeWorld) findVia(op *Op, mhs []multihash.Multihash) (rsp *model.FindResponse, err error) {
	if len(mhs) == 0 {
		return sw.fh.Find(mhs)
	}
	via := int(op.Z)
	start := time.Now()
	ctx, cancel := sw.reqCtx(op)
	defer cancel()
	b := int(op.B) % len(sw.httpc)
	switch via {
	case viaHTTP:
		if len(mhs) == 1 {
			rsp, err = sw.httpc[b].Find(ctx, mhs[0])
		} else {
			rsp, err = sw.httpc[b].FindBatch(ctx, mhs)
		}
	case viaP2P:
		if len(mhs) == 1 {
			rsp, err = sw.p2pc[b].Find(ctx, mhs[0])
		} else {
			rsp, err = sw.p2pc[b].FindBatch(ctx, mhs)
		}
	case viaRaw:
		rsp, err = sw.getRaw(ctx, "/multihash/"+mhs[0].B58String())
	case viaCid:
		rsp, err = sw.getRaw(ctx, "/cid/"+cid.NewCidV1(cid.Raw, mhs[0]).String())
	default:
		return sw.fh.Find(mhs)
	}
	ok := false
	atomically(func() {
		if err != nil {
			ok = sw.excusable(op, start)
		}
		if via == viaP2P {
			sw.used[fmt.Sprint(op.B)] = time.Now()
		}
	})
	if err != nil && ok {
		sw.hit("serve.excused")
		return nil, errGone
	}
	sw.hit(fmt.Sprintf("serve.via%d", via))
	return rsp, err
}

func (sw *ServeWorld) getRaw(ctx context.Context, path string) (*model.FindResponse, error) {
	req, err := http.NewRequestWithContext(ctx, http.MethodGet, sw.http.URL()+path, nil)
	if err != nil {
		return nil, err
	}
	rsp, err := http.DefaultClient.Do(req)
	if err != nil {
		return nil, err
	}
	defer rsp.Body.Close()
	body, err := io.ReadAll(rsp.Body)
	if err != nil {
		return nil, err
	}
	switch rsp.StatusCode {
	case http.StatusNotFound:
		return &model.FindResponse{}, nil
	case http.StatusOK:
		var fr model.FindResponse
		if err := json.Unmarshal(body, &fr); err != nil {
			return nil, err
		}
		if len(fr.MultihashResults) == 0 {
			sw.failP("P14", "empty-200", "a lookup of a multihash without provider was answered %d", rsp.StatusCode)
		}
		return &fr, nil
	}
	return nil, fmt.Errorf("status %d: %s", rsp.StatusCode, body)
}

func (sw *ServeWorld) getVia(op *Op, id peer.ID) ([]byte, error) {
	via := int(op.Z)
	start := time.Now()
	ctx, cancel := sw.reqCtx(op)
	defer cancel()
	var in *model.ProviderInfo
	var err error
	b := int(op.B) % len(sw.httpc)
	switch via {
	case viaHTTP, viaRaw, viaCid:
		in, err = sw.httpc[b].GetProvider(ctx, id)
	case viaP2P:
		in, err = sw.p2pc[b].GetProvider(ctx, id)
	default:
		return sw.fh.GetProvider(id)
	}
	return sw.jsonOf(op, via, start, in, err)
}

func (sw *ServeWorld) jsonOf(op *Op, via int, start time.Time, v interface{}, err error) ([]byte, error) {
	ok := false
	atomically(func() {
		if err != nil {
			ok = sw.excusable(op, start)
		}
		if via == viaP2P {
			sw.used[fmt.Sprint(op.B)] = time.Now()
		}
	})
	if err != nil {
		if strings.Contains(err.Error(), "not found") || strings.Contains(err.Error(), "Not Found") {
			return nil, nil
		}
		if ok {
			sw.hit("serve.excused")
			return nil, errGone
		}
		return nil, err
	}
	return json.Marshal(v)
}

func (sw *ServeWorld) listVia(op *Op) ([]byte, error) {
	via := int(op.Z)
	start := time.Now()
	ctx, cancel := sw.reqCtx(op)
	defer cancel()
	var in []*model.ProviderInfo
	var err error
	b := int(op.B) % len(sw.httpc)
	switch via {
	case viaHTTP, viaRaw, viaCid:
		in, err = sw.httpc[b].ListProviders(ctx)
	case viaP2P:
		in, err = sw.p2pc[b].ListProviders(ctx)
	default:
		return sw.fh.ListProviders()
	}
	return sw.jsonOf(op, via, start, in, err)
}

// doReframe asks for the bitswap providers of one multihash.
func (sw *ServeWorld) doReframe(op *Op) {
	i := 0
	if len(op.L) > 0 {
		i = op.L[0] % len(sw.mhs)
	}
	var t0 int64
	var f0 int64
	atomically(func() { t0, f0 = sw.next(), sw.count["fault:vs.rdeio"] })
	start := time.Now()
	ctx, cancel := sw.reqCtx(op)
	defer cancel()
	var infos []peer.AddrInfo
	var err error
	n := 0
	if !within(time.Hour, func() {
		var ch <-chan drclient.FindProvidersAsyncResult
		ch, err = sw.refc[int(op.B)%len(sw.refc)].FindProvidersAsync(ctx, cid.NewCidV1(cid.Raw, sw.mhs[i]))
		if err != nil {
			return
		}
		for r := range ch {
			if r.Err != nil {
				// The reframe client library repeats it for ever.
				err = r.Err
				cancel()
				break
			}
			n++
			infos = append(infos, r.AddrInfo...)
		}
		if err == nil && n == 0 {
			err = errGone
		}
	}) {
		sw.failP("P14", "find-hangs", "a reframe lookup does not end")
		return
	}
	atomically(func() {
		t1, end := sw.next(), time.Now()
		if err != nil {
			if !sw.excusable(op, start) && sw.count["fault:vs.rdeio"] == f0 {
				sw.failP("P14", "find-error", "a reframe lookup failed although everything works: %s", err)
			}
			sw.hit("serve.excused")
			return
		}
		got := map[peer.ID]bool{}
		for _, in := range infos {
			p := sw.byID[in.ID]
			if p == nil {
				sw.failP("P14", "strange-result", "a reframe lookup named an unknown provider")
				return
			}
			got[in.ID] = true
			s, _, as := sw.could(p, t0, t1, start, end)
			if !s {
				sw.failP("P14", "not-serving", "a reframe lookup named provider %d, which was not registered and active", p.i)
				return
			}
			if len(in.Addrs) != 1 || !as[in.Addrs[0].String()] {
				sw.failP("P14", "stale-address", "a reframe lookup gave provider %d the addresses %s, current were %v", p.i, in.Addrs, as)
				return
			}
		}
		why := ""
		s := sw.snaps[i]
		for k, e := range s {
			if e.tick > t1 || k < len(s)-1 && s[k+1].tick <= t0 {
				continue
			}
			why = ""
			have := map[peer.ID]bool{}
			for _, v := range e.es {
				if v.Md != bitswapMd {
					continue
				}
				have[v.Prov] = true
				if _, un, _ := sw.could(sw.byID[v.Prov], t0, t1, start, end); !un && !got[v.Prov] {
					why = fmt.Sprintf("bitswap provider %d is missing", sw.byID[v.Prov].i)
				}
			}
			for id := range got {
				if !have[id] {
					why = fmt.Sprintf("provider %d does not provide it by bitswap", sw.byID[id].i)
				}
			}
			if why == "" {
				break
			}
		}
		if why != "" {
			sw.failP("P14", "wrong-result", "a reframe lookup of multihash %d: %s", i, why)
		}
		sw.hitN("serve.bitswap", int64(len(got)))
		sw.hit("serve.via5")
	})
}

func (sw *ServeWorld) exec(op *Op) {
	switch op.K {
	case "reframe":
		sw.doReframe(op)
	case "cut":
		// The connections of a client break.
		atomically(func() { sw.cut = true })
		b := int(op.B) % len(sw.hosts)
		if op.A == 0 {
			_ = sw.hosts[b].Network().ClosePeer(sw.sh.ID())
		} else {
			for _, c := range sw.sh.Network().ConnsToPeer(sw.hosts[b].ID()) {
				for _, s := range c.GetStreams() {
					_ = s.Reset()
				}
			}
		}
	case "cutwire":
		var c *wireConn
		atomically(func() {
			if n := len(sw.wire.conns); n > 0 {
				c = sw.wire.conns[int(op.A)%n]
				sw.count["fault:wire.cut"]++
			}
		})
		if c != nil {
			c.breakBoth()
		}
	default:
		sw.FindWorld.exec(op)
	}
}

func runServe(w *World) {
	sw := newServeWorld(w)
	sw.boot()
	sw.bootServers()
	sw.closeOut(w.runClients(sw.exec))
}

func genServe(r *rand.Rand, p *Plan, tier string) {
	genFind(r, p, tier)
	k := p.Knobs
	k["netLat"] = pick(r, 0, 100, 2000, 50000)
	k["clients"] = 1 + r.Int63n(3)
	k["wireChunk"] = pick(r, 0, 0, 1, 7, 100)
	faulty := chance(r, 60)
	var ops []Op
	for _, op := range p.Ops {
		switch op.K {
		case "close":
			continue // the servers are shut down before the registry
		case "put":
			if chance(r, 40) {
				op.S = "bitswap"
			}
		case "find", "findall", "list", "get":
			op.Z = r.Int63n(6)
			op.B = r.Int63n(k["clients"])
			if op.Z == viaReframe && strings.HasPrefix(op.K, "find") {
				op.K = "reframe"
				op.L = []int{r.Intn(8)}
			}
			if (op.Z == viaRaw || op.Z == viaCid) && op.K != "list" && op.K != "get" {
				op.K = "find"
				op.L = []int{r.Intn(8)}
			}
			if faulty && chance(r, 25) {
				op.X = 1 + r.Int63n(pick(r, 300, 5000, 100000, 2000000))
				op.Y = r.Int63n(2)
			}
		}
		ops = append(ops, op)
		if faulty && op.C >= 100 && chance(r, 6) {
			ops = append(ops, Op{C: op.C, K: pick2(r, "cut", "cutwire"), A: r.Int63n(2), B: r.Int63n(k["clients"]), D: r.Int63n(5000)})
		}
	}
	p.Ops = ops
	if chance(r, 50) {
		// Bursts of queries at the same time, mostly over one interface.
		via := pick(r, viaHTTP, viaP2P, viaP2P, viaP2P, viaReframe, viaCid)
		nc := 2 + r.Intn(6)
		if chance(r, 70) {
			k["vsLat"], k["netLat"], k["wireChunk"] = 0, pick(r, 0, 0, 100), 0
		}
		at := r.Int63n(3000000)
		tmo := chance(r, 60)
		ctx := []int64{1 + 2*k["netLat"], 1 + 4*k["netLat"], 1 + 6*k["netLat"] + 4*k["vsLat"], 1 + 20*k["netLat"] + 20*k["vsLat"]}
		one := chance(r, 35) // all share one client
		if !one {
			k["clients"] = int64(nc)
		}
		for c := 0; c < nc; c++ {
			d := at
			for j := 0; j < 4+r.Intn(12); j++ {
				op := Op{C: 200 + c, D: d, K: "find", Z: via, B: int64(c) % k["clients"]}
				if one {
					op.B = 0
				}
				d = r.Int63n(pick(r, 1, 200, 1+3*k["netLat"]))
				if chance(r, 10) {
					op.Z = r.Int63n(5)
				}
				for q := 0; q < 1+r.Intn(3); q++ {
					op.L = append(op.L, r.Intn(8))
				}
				switch op.Z {
				case viaReframe:
					op.K = "reframe"
				case viaRaw, viaCid:
					op.L = op.L[:1]
				}
				if tmo && chance(r, 50) {
					op.X = 1 + r.Int63n(ctx[r.Intn(len(ctx))])
					op.Y = r.Int63n(2)
				}
				p.Ops = append(p.Ops, op)
			}
		}
	}
	if faulty {
		for _, f := range []string{"wire.refuse", "wire.dialhang", "wire.break", "wire.stall"} {
			if chance(r, 35) {
				p.Faults = append(p.Faults, Fault{K: f, N: r.Int63n(40), M: 1 + r.Int63n(3), A: r.Int63n(3000000)})
			}
		}
	}
}

func init() {
	register("serve", &Scenario{run: runServe, gen: genServe}, "P14")
}
