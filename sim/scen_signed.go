package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"regexp"
	"runtime"
	"strings"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	pb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pingestserver "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	mocknet "github.com/libp2p/go-libp2p/p2p/net/mock"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// P15: signed register, index and discover requests, genuine, forged, altered,
// duplicated, delayed and reordered, over the real HTTP and libp2p servers.

type sreq struct {
	n       int
	kind    string // reg, idx, disc
	prov    int
	seq     uint64
	data    []byte
	addr    string
	ctxID   string
	genuine bool   // signed by the provider's key and unaltered
	note    string // how it is not
	sent    int64  // tick of the first delivery
	acks    int
	effects int // content indexed, or lookup started
	turns   int // times its address became the registered one
}

type sprov struct {
	i         int
	id        peer.ID
	key       crypto.PrivKey
	blockedAt int64 // blocked since, or 0
	cur       string
	seq       uint64 // largest sequence signed
}

type SignWorld struct {
	*RegWorld
	ps     []*sprov
	byID   map[peer.ID]*sprov
	reqs   []*sreq
	made   int
	byAddr map[string]*sreq
	byCtx  map[string]*sreq
	byDisc map[string]*sreq
	wire   *Wire
	http   *httpingestserver.Server
	sh     host.Host
	p2pc   []*libp2pclient.Client
}

var addrRE = regexp.MustCompile(`/ip4/[0-9.]+/tcp/[0-9]+`)

func newSignWorld(w *World) *SignWorld {
	sw := &SignWorld{RegWorld: newRegWorld(w), byID: map[peer.ID]*sprov{}, byAddr: map[string]*sreq{}, byCtx: map[string]*sreq{}, byDisc: map[string]*sreq{}}
	sw.hangProp = "P15"
	for i := 0; i < int(w.knob("provs", 2)); i++ {
		p := &sprov{i: i, id: idFor("provider", i), key: keyFor("provider", i)}
		sw.ps = append(sw.ps, p)
		sw.byID[p.id] = p
	}
	sw.wire = newWire(w)
	disc := &simDiscoverer{w: w}
	disc.onIn = func(c *discCall) {
		r := sw.byDisc[c.addr]
		if r == nil {
			sw.failP("P15", "strange-lookup", "a lookup of an address nobody asked for")
			return
		}
		r.effects++
		sw.judge(r, r.effects, "started a lookup", c.peer)
	}
	sw.node.disc = disc
	return sw
}

// judge is called (atomically) when a request has had an effect.
func (sw *SignWorld) judge(r *sreq, times int, what string, id peer.ID) {
	p := sw.ps[r.prov]
	switch {
	case !r.genuine:
		sw.failP("P15", "forged", "a %s request for provider %d that was %s %s", r.kind, r.prov, r.note, what)
	case id != p.id:
		sw.failP("P15", "wrong-provider", "a %s request of provider %d %s for another provider", r.kind, r.prov, what)
	case times > 1:
		sw.failP("P15", "twice", "a %s request of provider %d %s %d times", r.kind, r.prov, what, times)
	case p.blockedAt != 0 && p.blockedAt < r.sent:
		sw.failP("P15", "not-allowed", "a %s request of provider %d, which is not allowed, %s", r.kind, r.prov, what)
	}
	sw.hit("sign.effect." + r.kind)
}

func (sw *SignWorld) boot() {
	sw.node.disk.onOp = func(h *DiskHandle, op, k string, v []byte) {
		if op != "put" || !strings.Contains(k, "pinfo") {
			return
		}
		var p *sprov
		for _, q := range sw.ps {
			if strings.HasSuffix(k, q.id.String()) {
				p = q
			}
		}
		for _, a := range addrRE.FindAllString(string(v), -1) {
			r := sw.byAddr[a]
			if r == nil {
				continue // discovered
			}
			if p == nil {
				sw.failP("P15", "wrong-provider", "a request registered somebody it does not speak for")
				return
			}
			if p.cur != a {
				r.turns++
				p.cur = a
				sw.judge(r, r.turns, "changed the registration", p.id)
			}
			return
		}
		if p != nil {
			p.cur = "discovered"
		}
	}
	sw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		r := sw.byCtx[string(v.ContextID)]
		if r == nil {
			sw.failP("P15", "strange-content", "content was indexed that nobody asked to index")
			return
		}
		r.effects++
		sw.judge(r, r.effects, "indexed content", v.ProviderID)
	}
	if err := sw.startNode(); err != nil {
		panic(err)
	}
	s, err := httpingestserver.New("127.0.0.1:0", sw.node.store, nil, sw.node.reg)
	if err != nil {
		panic(err)
	}
	sw.http = s
	go func() { _ = s.Start() }()
	mn := mocknet.New()
	if l := sw.knob("netLat", 2000); l > 0 {
		mn.SetLinkDefaults(mocknet.LinkOptions{Latency: time.Duration(l) * time.Microsecond})
	}
	sw.sh, err = mn.AddPeer(keyFor("indexer", 0), mustAddr("/ip4/10.9.0.1/tcp/3003"))
	if err != nil {
		panic(err)
	}
	p2pingestserver.New(context.Background(), sw.sh, sw.node.store, nil, sw.node.reg)
	for i := 0; i < 4; i++ {
		h, err := mn.AddPeer(keyFor("client", i), mustAddr(fmt.Sprintf("/ip4/10.8.0.%d/tcp/3003", i+1)))
		if err != nil {
			panic(err)
		}
		if _, err = mn.LinkPeers(h.ID(), sw.sh.ID()); err != nil {
			panic(err)
		}
		c, err := libp2pclient.New(h, sw.sh.ID(), v0.IngestProtocolID)
		if err != nil {
			panic(err)
		}
		if err = c.ConnectAddrs(context.Background(), sw.sh.Addrs()...); err != nil {
			panic(err)
		}
		sw.p2pc = append(sw.p2pc, c)
	}
}

// make creates a request. key signs it.
func (sw *SignWorld) make(kind string, prov int, key crypto.PrivKey, off int64) *sreq {
	r := &sreq{kind: kind, prov: prov, genuine: true}
	p := sw.ps[prov]
	atomically(func() {
		r.n = sw.made
		sw.made++
	})
	r.addr = fmt.Sprintf("/ip4/%d.%d.%d.%d/tcp/%d", 20+prov, r.n/62500, r.n/250%250, r.n%250+1, 1000+r.n)
	r.ctxID = fmt.Sprintf("ctx-%d", r.n)
	r.seq = uint64(time.Now().UnixNano() + off)
	atomically(func() {
		if key.Equals(p.key) {
			if r.seq <= p.seq && off >= 0 {
				r.seq = p.seq + 1
			}
			if r.seq > p.seq {
				p.seq = r.seq
			}
		}
	})
	var rec record.Record
	switch kind {
	case "reg":
		rec = &peer.PeerRecord{PeerID: p.id, Addrs: []multiaddr.Multiaddr{mustAddr(r.addr)}, Seq: r.seq}
		sw.byAddr[r.addr] = r
	case "idx":
		mh, err := multihash.Sum([]byte(r.ctxID), multihash.SHA2_256, -1)
		if err != nil {
			panic(err)
		}
		rec = &model.IngestRequest{Multihash: mh, ProviderID: p.id, ContextID: []byte(r.ctxID), Metadata: []byte("md"), Addrs: []string{r.addr}, Seq: r.seq}
		sw.byAddr[r.addr], sw.byCtx[r.ctxID] = r, r
	default:
		d := fmt.Sprintf("t0%d", 1000+r.n)
		rec = &model.DiscoverRequest{ProviderID: p.id, DiscoveryAddr: d, Seq: r.seq}
		sw.byDisc[d] = r
	}
	env, err := record.Seal(rec, key)
	if err != nil {
		panic(err)
	}
	if r.data, err = env.Marshal(); err != nil {
		panic(err)
	}
	atomically(func() { sw.reqs = append(sw.reqs, r) })
	return r
}

// deliver sends the bytes of a request to an endpoint and returns the error.
func (sw *SignWorld) deliver(r *sreq, data []byte, endpoint string, via int64, tmo int64) error {
	atomically(func() {
		if r.sent == 0 {
			r.sent = sw.next()
		}
	})
	ctx := context.Background()
	if tmo > 0 {
		var cancel context.CancelFunc
		ctx, cancel = context.WithTimeout(ctx, time.Duration(tmo)*time.Microsecond)
		defer cancel()
	}
	var err error
	if !within(2*time.Hour, func() { err = sw.post(ctx, data, endpoint, via) }) {
		sw.failP("P15", "hang", "a %s request was never answered", endpoint)
		return errGone
	}
	sw.event("request %d (%s) to %s: %v", r.n, r.note, endpoint, err)
	return err
}

func (sw *SignWorld) post(ctx context.Context, data []byte, endpoint string, via int64) error {
	if via < 4 || endpoint == "idx" {
		m := &pb.IngestMessage{Data: data}
		want := pb.IngestMessage_REGISTER_PROVIDER_RESPONSE
		switch endpoint {
		case "reg":
			m.Type = pb.IngestMessage_REGISTER_PROVIDER
		case "idx":
			m.Type, want = pb.IngestMessage_INDEX_CONTENT, pb.IngestMessage_INDEX_CONTENT_RESPONSE
		default:
			m.Type, want = pb.IngestMessage_DISCOVER_PROVIDER, pb.IngestMessage_DISCOVER_PROVIDER_RESPONSE
		}
		rsp := new(pb.IngestMessage)
		err := sw.p2pc[via%4].SendRequest(ctx, m, func(b []byte) error { return rsp.Unmarshal(b) })
		if err != nil {
			return err
		}
		if rsp.GetType() != want {
			return fmt.Errorf("refused: %s", rsp.GetData())
		}
		return nil
	}
	path := "/register"
	if endpoint == "disc" {
		path = "/discover"
	}
	req, err := http.NewRequestWithContext(ctx, http.MethodPost, sw.http.URL()+path, bytes.NewReader(data))
	if err != nil {
		return err
	}
	rsp, err := http.DefaultClient.Do(req)
	if err != nil {
		return err
	}
	defer rsp.Body.Close()
	b, err := io.ReadAll(rsp.Body)
	if err != nil {
		return err
	}
	if rsp.StatusCode != http.StatusOK && rsp.StatusCode != http.StatusAccepted {
		return fmt.Errorf("refused: %d %s", rsp.StatusCode, b)
	}
	return nil
}

// ack judges an acknowledgement.
func (sw *SignWorld) ack(r *sreq, endpoint string, err error) {
	if err != nil {
		sw.hit("sign.refused")
		return
	}
	atomically(func() {
		r.acks++
		sw.hit("sign.ack")
		switch {
		case !r.genuine:
			sw.failP("P15", "forged-ack", "a %s request for provider %d that was %s was acknowledged", r.kind, r.prov, r.note)
		case endpoint != r.kind:
			sw.failP("P15", "cross-ack", "a %s request was acknowledged as a %s request", r.kind, endpoint)
		case r.acks > 1:
			sw.failP("P15", "twice-ack", "a %s request of provider %d was acknowledged %d times", r.kind, r.prov, r.acks)
		case sw.ps[r.prov].blockedAt != 0 && sw.ps[r.prov].blockedAt < r.sent:
			sw.failP("P15", "not-allowed-ack", "a %s request of provider %d, which is not allowed, was acknowledged", r.kind, r.prov)
		case r.kind == "idx" && r.effects == 0:
			sw.failP("P15", "no-effect", "an index request was acknowledged but nothing was indexed")
		case r.kind == "reg" && r.turns == 0:
			sw.failP("P15", "no-effect", "a register request was acknowledged but nothing was registered")
		}
	})
}

func (sw *SignWorld) send(r *sreq, endpoint string, via, tmo int64) {
	sw.ack(r, endpoint, sw.deliver(r, r.data, endpoint, via, tmo))
}

// same tells whether altered bytes still are the same signed request.
func (sw *SignWorld) same(r *sreq, data []byte) bool {
	for _, dom := range []string{peer.PeerRecordEnvelopeDomain, model.IngestRequestEnvelopeDomain, model.DiscoverRequestEnvelopeDomain} {
		e, _, err := record.ConsumeEnvelope(data, dom)
		if err == nil {
			o, _, err := record.ConsumeEnvelope(r.data, dom)
			return err == nil && e.Equal(o)
		}
	}
	return false
}

func (sw *SignWorld) exec(op *Op) {
	prov := op.P % len(sw.ps)
	p := sw.ps[prov]
	old := func() *sreq {
		if len(sw.reqs) == 0 {
			return nil
		}
		return sw.reqs[int(op.X)%len(sw.reqs)]
	}
	switch op.K {
	case "req":
		r := sw.make(op.S, prov, p.key, op.A)
		if op.Z > 0 {
			// Delivered several times at once.
			done := make(chan struct{}, op.Z)
			for i := int64(0); i < op.Z; i++ {
				via := (op.B + i) % 6
				go func() { sw.send(r, r.kind, via, op.Y); done <- struct{}{} }()
			}
			for i := int64(0); i < op.Z; i++ {
				<-done
			}
			return
		}
		sw.send(r, r.kind, op.B, op.Y)
	case "dup":
		if r := old(); r != nil {
			sw.send(r, r.kind, op.B, op.Y)
		}
	case "cross":
		if r := old(); r != nil && op.S != r.kind {
			sw.ack(r, op.S, sw.deliver(r, r.data, op.S, op.B, op.Y))
		}
	case "forge":
		key := keyFor("attacker", 0)
		if op.X%2 == 1 {
			key = sw.ps[(prov+1)%len(sw.ps)].key
			if len(sw.ps) == 1 {
				key = keyFor("attacker", 1)
			}
		}
		r := sw.make(op.S, prov, key, op.A)
		r.genuine, r.note = false, "signed by somebody else"
		sw.send(r, r.kind, op.B, op.Y)
	case "alter":
		var r *sreq
		if op.X >= 0 {
			r = old()
		}
		if r == nil {
			r = sw.make(op.S, prov, p.key, 0)
		}
		data := append([]byte(nil), r.data...)
		switch op.Z {
		case 0:
			i := int(uint64(op.A) % uint64(len(data)*8))
			data[i/8] ^= 1 << uint(i%8)
		case 1:
			data = data[:int(uint64(op.A)%uint64(len(data)))]
		case 2:
			// the address or context of another request, same length
			o := sw.make(r.kind, r.prov, keyFor("attacker", 0), 0)
			o.genuine, o.note = false, "never signed"
			data = bytes.Replace(data, []byte(r.ctxID), []byte(o.ctxID), 1)
			data = bytes.Replace(data, []byte(r.addr), []byte(o.addr), 1)
			data = bytes.Replace(data, mustAddr(r.addr).Bytes(), mustAddr(o.addr).Bytes(), 1)
			if bytes.Equal(data, r.data) {
				return
			}
		case 3:
			data = append(data, data[:int(uint64(op.A)%uint64(len(data)))]...)
		}
		if sw.same(r, data) {
			sw.hit("sign.same")
			sw.ack(r, r.kind, sw.deliver(r, data, r.kind, op.B, op.Y))
			return
		}
		if sw.deliver(r, data, r.kind, op.B, op.Y) == nil {
			sw.failP("P15", "altered-ack", "an altered %s request was acknowledged", r.kind)
		}
		sw.hit("sign.altered")
	case "block":
		sw.node.reg.BlockPeer(p.id)
		atomically(func() { p.blockedAt = sw.next() })
	case "allow":
		atomically(func() { p.blockedAt = 0 })
		sw.node.reg.AllowPeer(p.id)
	case "jump":
		runtime.SimJumpWall(op.A * int64(time.Second))
		sw.hit("fault:clock.jump")
	case "rm":
		_ = sw.node.reg.RemoveProvider(context.Background(), p.id)
		atomically(func() { p.cur = "" })
	}
}

func runSigned(w *World) {
	sw := newSignWorld(w)
	sw.boot()
	wait := w.runClients(sw.exec)
	if !wait(365 * 24 * time.Hour) {
		sw.failP("P15", "hang", "the clients do not end")
		return
	}
	if w.failed() {
		return
	}
	w.faultOn = false
	time.Sleep(time.Minute)
	// Whoever is allowed is honoured, whatever others sent in its name.
	for _, p := range sw.ps {
		sw.exec(&Op{K: "allow", P: p.i})
		for _, kind := range []string{"reg", "idx"} {
			r := sw.make(kind, p.i, p.key, 0)
			var err error
			for i := int64(0); i < 3; i++ {
				// a stream or connection may have become stale
				if err = sw.deliver(r, r.data, kind, 0, 0); err == nil || strings.HasPrefix(err.Error(), "refused") {
					break
				}
			}
			if err != nil {
				sw.failP("P15", "refused", "a fresh %s request of provider %d was refused: %s", kind, p.i, err)
				return
			}
			sw.ack(r, kind, nil)
			info := sw.node.reg.ProviderInfo(p.id)
			if info == nil || len(info.AddrInfo.Addrs) != 1 || info.AddrInfo.Addrs[0].String() != r.addr {
				sw.failP("P15", "no-effect", "an acknowledged %s request of provider %d did not change its registration", kind, p.i)
				return
			}
		}
	}
	// Everything ever sent is sent again.
	for i := 0; i < len(sw.reqs) && i < 60; i++ {
		sw.send(sw.reqs[i], sw.reqs[i].kind, int64(i%6), 0)
	}
	time.Sleep(time.Hour)
}

func genSigned(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	np := 1 + r.Intn(3)
	k["provs"] = int64(np)
	k["netLat"] = pick(r, 0, 0, 100, 2000, 50000)
	k["diskLat"] = pick(r, 0, 0, 500, 20000)
	k["vsLat"] = pick(r, 0, 0, 20, 3000)
	k["pollRetry"] = pick(r, 60, 3600, 18000)
	k["rediscWait"] = pick(r, 0, 1, 300)
	k["discTimeout"] = 120
	kinds := []string{"reg", "idx", "disc", "reg", "idx"}
	kind := func() string { return kinds[r.Intn(len(kinds))] }
	long := chance(r, 30)
	gap := func() int64 {
		switch x := r.Intn(100); {
		case x < 40:
			return r.Int63n(300)
		case x < 75:
			return r.Int63n(20000)
		case x < 95 || !long:
			return r.Int63n(3000000)
		case x < 98:
			return r.Int63n(7200) * 1000000
		}
		return r.Int63n(60*3600) * 1000000
	}
	nc := 1 + r.Intn(5)
	jumps := chance(r, 25)
	for c := 0; c < nc; c++ {
		for j := 0; j < 3+r.Intn(12); j++ {
			op := Op{C: c, D: gap(), P: r.Intn(np), B: r.Int63n(6)}
			if chance(r, 12) {
				op.Y = 1 + r.Int63n(pick(r, 200, 5000, 100000))
			}
			switch x := r.Intn(100); {
			case x < 35:
				op.K, op.S = "req", kind()
				switch r.Intn(12) {
				case 0:
					op.A = -r.Int63n(int64(47 * time.Hour)) // old but valid
				case 1:
					op.A = -int64(48*time.Hour) - r.Int63n(int64(time.Hour))
				case 2:
					op.A = r.Int63n(int64(10 * time.Minute))
				}
				if chance(r, 35) {
					op.Z = 2 + r.Int63n(4)
				}
			case x < 60:
				op.K, op.X = "dup", r.Int63n(1000)
			case x < 70:
				op.K, op.S, op.X = "forge", kind(), r.Int63n(2)
				if chance(r, 30) {
					op.A = int64(time.Hour) + r.Int63n(int64(100*time.Hour))
				}
			case x < 80:
				op.K, op.S, op.A, op.Z = "alter", kind(), r.Int63(), r.Int63n(4)
				op.X = r.Int63n(1000)
				if chance(r, 50) {
					op.X = -1
				}
			case x < 86:
				op.K, op.S, op.X = "cross", kind(), r.Int63n(1000)
			case x < 90:
				op.K = "rm"
			case x < 96 && jumps:
				op.K, op.A = "jump", r.Int63n(4*3600)-r.Int63n(2)*r.Int63n(60*3600)
			default:
				op.K, op.X = "dup", r.Int63n(1000)
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 50) {
		for i := 0; i < np; i++ {
			for j := 0; j < 1+r.Intn(4); j++ {
				p.Ops = append(p.Ops, Op{C: 50 + i, P: i, K: pick2(r, "block", "allow"), D: gap()})
				if chance(r, 60) {
					p.Ops = append(p.Ops, Op{C: 50 + i, P: i, K: "req", S: kind(), B: r.Int63n(6)})
				}
			}
		}
	}
	for _, f := range []string{"wire.break", "wire.stall", "vs.stall", "vs.eio", "disk.eio"} {
		if chance(r, 15) {
			p.Faults = append(p.Faults, Fault{K: f, N: r.Int63n(30), M: 1 + r.Int63n(3), A: r.Int63n(2000000)})
		}
	}
}

func init() {
	register("signed", &Scenario{run: runSigned, gen: genSigned}, "P15")
}
