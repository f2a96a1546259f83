package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/internal/lotus"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

// P16: discovery requests against a slow and broken backend, either a planned
// stand-in or the real lotus discoverer talking TLS to a simulated gateway.

type discReq struct {
	prov    int
	addr    string
	t0, t1  time.Time
	k0      int64 // tick at which it was issued
	barred  bool  // the provider was known not to be allowed
	sync    bool
	started int // lookups it accounts for
}

type DiscWorld struct {
	*RegWorld
	wire    *Wire
	calls   []*discCall
	active  map[string]*discCall
	last    map[string]*discCall // latest ended lookup per address
	reqs    []*discReq
	blocked map[int]int64 // provider -> tick since which it is blocked
	endTick map[*discCall]int64
	puts    map[*discCall]int
	byAddrs map[string]*discCall // discovered addresses -> lookup
	stored  map[int]rstate       // what the disk has
	answers map[string][]gwAns
	ndisc   int64
	sd      *simDiscoverer
	stuck   bool // the gateway answers nobody any more
	wait    time.Duration
	tmo     time.Duration
	slack   time.Duration
}

type gwAns struct {
	peer  peer.ID
	addrs string
}

// recDiscoverer records what arrives at and leaves the backend.
type recDiscoverer struct {
	dw    *DiscWorld
	inner discovery.Discoverer
}

func (d *recDiscoverer) Discover(ctx context.Context, id peer.ID, addr string) (*discovery.Discovered, error) {
	dw := d.dw
	c := &discCall{peer: id, addr: addr}
	atomically(func() {
		c.n, c.t0 = int64(len(dw.calls)), time.Now()
		dw.calls = append(dw.calls, c)
		dw.lookupIn(c)
	})
	dw.event("lookup %s begins", addr)
	if dw.fault("disc.pause", 0) != nil {
		time.Sleep(time.Second)
	}
	res, err := d.inner.Discover(ctx, id, addr)
	atomically(func() {
		c.t1, c.ok = time.Now(), err == nil
		if err == nil {
			c.addrs, c.reg = fmtAddrs(res.AddrInfo.Addrs), res.AddrInfo.ID
		}
		dw.lookupOut(c)
	})
	dw.event("lookup %s ends %v", addr, err)
	return res, err
}

func (dw *DiscWorld) provOf(id peer.ID) int {
	for i := 0; i < dw.provs; i++ {
		if provID(i) == id {
			return i
		}
	}
	return -1
}

func (dw *DiscWorld) lookupIn(c *discCall) {
	dw.hit("disc.lookup")
	if a := dw.active[c.addr]; a != nil {
		dw.failP("P16", "overlap", "a lookup of %s started while another was running", c.addr)
	}
	if l := dw.last[c.addr]; l != nil && c.t0.Sub(l.t1) < dw.wait {
		dw.failP("P16", "too-soon", "a lookup of %s started %s after the previous one ended, the wait is %s", c.addr, c.t0.Sub(l.t1), dw.wait)
	}
	dw.active[c.addr] = c
	// Somebody who may must have asked for it.
	i := dw.provOf(c.peer)
	for _, r := range dw.reqs {
		if r.prov == i && r.addr == c.addr && r.started == 0 && !r.barred {
			r.started = 1
			return
		}
	}
	dw.failP("P16", "unasked", "a lookup of %s for provider %d that nobody who is allowed asked for", c.addr, i)
}

func (dw *DiscWorld) lookupOut(c *discCall) {
	delete(dw.active, c.addr)
	dw.last[c.addr] = c
	dw.endTick[c] = dw.next()
	if d := c.t1.Sub(c.t0); d > dw.tmo+dw.slack {
		dw.failP("P16", "lookup-late", "a lookup of %s ran for %s, the timeout is %s", c.addr, d, dw.tmo)
	}
	if !c.ok {
		dw.hit("disc.lookup.failed")
		return
	}
	dw.hit("disc.lookup.ok")
	if dw.wire == nil {
		dw.byAddrs[c.addrs] = c
		return
	}
	for _, a := range dw.answers[c.addr] {
		if a.peer == c.peer && a.addrs == c.addrs && c.reg == c.peer {
			dw.byAddrs[c.addrs] = c
			return
		}
	}
	dw.failP("P16", "wrong-answer", "a lookup of %s for provider %d ended with %s %s, which the gateway did not say", c.addr, dw.provOf(c.peer), dw.pname(c.reg), c.addrs)
}

func (dw *DiscWorld) pname(id peer.ID) string { return fmt.Sprintf("provider %d", dw.provOf(id)) }

func (dw *DiscWorld) diskOp(h *DiskHandle, op, k string, v []byte) {
	if !strings.Contains(k, "pinfo") {
		return
	}
	i := -1
	for j := 0; j < dw.provs; j++ {
		if strings.HasSuffix(k, provID(j).String()) {
			i = j
		}
	}
	switch op {
	case "del":
		delete(dw.stored, i)
	case "put":
		info := new(registry.ProviderInfo)
		if err := json.Unmarshal(v, info); err != nil {
			dw.failP("P16", "garbage", "a registration that cannot be read was stored")
			return
		}
		st := stateOf(info)
		dw.stored[i] = st
		if !strings.HasPrefix(st.Disc, "t01") {
			return
		}
		// the result of a discovery
		c := dw.byAddrs[st.Addrs]
		switch {
		case c == nil || st.Disc != c.addr || provID(i) != c.peer || c.reg != c.peer:
			dw.failP("P16", "wrong-info", "discovery of %s registered %s for provider %d, which was not discovered", st.Disc, st, i)
		case st.Pub != "" || st.Ad != "":
			dw.failP("P16", "wrong-info", "discovery of %s registered more than was discovered: %s", st.Disc, st)
		case dw.blocked[i] != 0 && dw.blocked[i] < dw.endTick[c]:
			dw.failP("P16", "not-allowed", "provider %d was registered by a discovery after it was blocked", i)
		case dw.puts[c] > 0:
			dw.failP("P16", "twice", "one discovery of %s registered provider %d twice", c.addr, i)
		default:
			dw.puts[c]++
			dw.hit("disc.registered")
		}
	}
}

func (dw *DiscWorld) request(prov int, addr string, sync bool) {
	r := &discReq{prov: prov, addr: addr, sync: sync}
	atomically(func() {
		r.t0, r.k0 = time.Now(), dw.next()
		r.barred = dw.blocked[prov] != 0
		dw.reqs = append(dw.reqs, r)
	})
	var err error
	if !within(dw.tmo+dw.slack+time.Hour, func() { err = dw.node.reg.Discover(provID(prov), addr, sync) }) {
		dw.failP("P16", "never-ends", "a discovery request for %s never ended", addr)
		return
	}
	atomically(func() {
		r.t1 = time.Now()
		dw.event("discover p%d %s sync=%v: %v", prov, addr, sync, err)
		if d := r.t1.Sub(r.t0); d > dw.tmo+dw.slack {
			dw.failP("P16", "late", "a discovery request for %s ended after %s, the timeout is %s", addr, d, dw.tmo)
		}
		if !sync {
			if err == nil && r.barred && dw.blocked[prov] != 0 && dw.blocked[prov] < r.k0 {
				dw.failP("P16", "not-allowed-ack", "a discovery request for provider %d, which is not allowed, was accepted", prov)
			}
			return
		}
		switch {
		case err == nil:
			dw.hit("disc.req.ok")
			for _, c := range dw.calls {
				if c.addr == addr && c.peer == provID(prov) && !c.t0.Before(r.t0) && c.ok && dw.puts[c] == 1 {
					return
				}
			}
			dw.failP("P16", "hollow", "a discovery request for %s succeeded, but nothing was registered", addr)
		case errors.Is(err, registry.ErrInProgress):
			dw.hit("disc.req.inprogress")
			for _, c := range dw.calls {
				if c.addr == addr && !c.t0.After(r.t1) && (c.t1.IsZero() || c.t1.Add(dw.slack).After(r.t0)) {
					return
				}
			}
			for _, q := range dw.reqs {
				if q != r && q.addr == addr && q.t0.Add(dw.slack).After(r.t0) {
					return // its lookup is about to begin
				}
			}
			dw.failP("P16", "not-in-progress", "a discovery request for %s was refused because of one in progress, but there is none", addr)
		case errors.Is(err, registry.ErrTooSoon):
			dw.hit("disc.req.toosoon")
			for _, c := range dw.calls {
				if c.addr == addr && !c.t1.IsZero() && c.t1.Add(dw.wait+dw.slack).After(r.t0) {
					return
				}
			}
			dw.failP("P16", "not-too-soon", "a discovery request for %s was refused as too soon, but was not", addr)
		default:
			dw.hit("disc.req.failed")
		}
	})
}

func (dw *DiscWorld) exec(op *Op) {
	i := op.P % dw.provs
	switch op.K {
	case "disc":
		dw.request(i, fmt.Sprintf("t01%d", 100+op.A), op.B == 1)
	case "block":
		dw.node.reg.BlockPeer(provID(i))
		atomically(func() { dw.blocked[i] = dw.next() })
	case "allow":
		atomically(func() {
			delete(dw.blocked, i)
			for _, r := range dw.reqs {
				if r.prov == i && r.t1.IsZero() {
					r.barred = false // still running, may see the new policy
				}
			}
		})
		dw.node.reg.AllowPeer(provID(i))
	default:
		dw.RegWorld.exec(op)
	}
}

func (dw *DiscWorld) checkStored(when string) {
	for i := 0; i < dw.provs; i++ {
		got := stateOf(dw.node.reg.ProviderInfo(provID(i)))
		want := dw.stored[i]
		if got != want {
			dw.failP("P16", "diverged", "%s the registry has %s for provider %d, and %s was stored", when, got, i, want)
		}
	}
}

func runDisc(w *World) {
	dw := &DiscWorld{RegWorld: newRegWorld(w), active: map[string]*discCall{}, last: map[string]*discCall{}, blocked: map[int]int64{},
		endTick: map[*discCall]int64{}, puts: map[*discCall]int{}, byAddrs: map[string]*discCall{}, stored: map[int]rstate{}, answers: map[string][]gwAns{}}
	dw.hangProp = "P16"
	dw.wait = time.Duration(dw.node.dcfg.RediscoverWait)
	dw.tmo = time.Duration(dw.node.dcfg.Timeout)
	dw.slack = time.Minute
	for _, f := range w.plan.Faults {
		if f.K == "disk.stall" {
			dw.slack += time.Duration(f.A*f.M) * time.Microsecond
		}
	}
	dw.node.disk.onOp = dw.diskOp
	if w.knob("gateway", 0) == 1 {
		dw.wire = newWire(w)
		d, err := lotus.NewDiscoverer("gateway.sim")
		if err != nil {
			panic(err)
		}
		dw.gateway()
		dw.node.disc = &recDiscoverer{dw, d}
	} else {
		dw.sd = &simDiscoverer{w: w}
		dw.node.disc = &recDiscoverer{dw, dw.sd}
	}
	if err := dw.startNode(); err != nil {
		panic(err)
	}
	wait := w.runClients(dw.exec)
	if !wait(365 * 24 * time.Hour) {
		dw.failP("P16", "never-ends", "the clients do not end")
		return
	}
	if w.failed() {
		return
	}
	w.faultOn = false
	time.Sleep(dw.tmo + dw.slack + dw.wait + time.Hour)
	if len(dw.active) != 0 {
		dw.failP("P16", "lookup-late", "a lookup is still running an hour after the timeout")
		return
	}
	dw.checkStored("at rest")
	// Once the backend works again, every address can be discovered.
	for i := 0; i < dw.provs; i++ {
		dw.exec(&Op{K: "allow", P: i})
	}
	if dw.sd != nil {
		dw.sd.quick = true
	}
	seen := map[string]bool{}
	n := 0
	for _, r := range append([]*discReq(nil), dw.reqs...) {
		if seen[r.addr] || n == 4 || w.failed() {
			continue
		}
		seen[r.addr] = true
		n++
		prov := r.prov
		if dw.wire != nil {
			prov = dw.minerOwner(r.addr)
		}
		before := len(dw.calls)
		dw.request(prov, r.addr, true)
		if w.failed() {
			return
		}
		if len(dw.calls) == before || !dw.calls[len(dw.calls)-1].ok {
			dw.failP("P16", "no-progress", "%s cannot be discovered although nothing is wrong", r.addr)
			return
		}
	}
	dw.checkStored("at the end")
	if dw.knob("close", 0) == 1 {
		// A lookup that hangs does not keep the registry from closing.
		dw.stuck = true
		if dw.sd != nil {
			dw.sd.quick = false
		}
		go dw.request(0, "t01999", dw.knob("closeSync", 0) == 1)
		time.Sleep(time.Duration(dw.knob("closeAt", 1000)) * time.Microsecond)
		if !within(dw.tmo+dw.slack, func() { _ = dw.node.reg.Close() }) {
			dw.failP("P16", "close-hangs", "closing the registry did not end within the discovery timeout")
		}
	}
}

// ---- the simulated lotus gateway ------------------------------------------

func (dw *DiscWorld) minerOwner(addr string) int {
	h := 0
	for _, c := range addr {
		h = h*31 + int(c)
	}
	return h % dw.provs
}

// gatewayTLS makes the gateway's certificate and has it trusted.
func gatewayTLS() *tls.Config {
	seed := sha256.Sum256([]byte("sim gateway"))
	key := ed25519.NewKeyFromSeed(seed[:])
	t := &x509.Certificate{
		SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "gateway.sim"}, DNSNames: []string{"gateway.sim"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), IsCA: true, BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
	}
	der, err := x509.CreateCertificate(zeroReader{}, t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	f, err := os.CreateTemp("", "simca")
	if err != nil {
		panic(err)
	}
	_ = pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: der})
	_ = f.Close()
	_ = os.Setenv("SSL_CERT_FILE", f.Name())
	_ = os.Setenv("SSL_CERT_DIR", "/nonexistent")
	if _, err = x509.SystemCertPool(); err != nil {
		panic(err)
	}
	_ = os.Remove(f.Name())
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}

type zeroReader struct{}

func (zeroReader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

func (dw *DiscWorld) gateway() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	dw.wire.listeners["gateway.sim:443"] = l.(*wireListener)
	srv := &http.Server{Handler: http.HandlerFunc(dw.rpc), ErrorLog: nil}
	tl := tls.NewListener(l, gatewayTLS())
	go func() { _ = srv.Serve(tl) }()
}

func (dw *DiscWorld) rpc(rw http.ResponseWriter, req *http.Request) {
	b, err := io.ReadAll(req.Body)
	if err != nil {
		return
	}
	var call struct {
		Method string
		Params []json.RawMessage
		ID     int
	}
	if err = json.Unmarshal(b, &call); err != nil {
		rw.WriteHeader(400)
		return
	}
	if dw.stuck || dw.fault("gw.hang", 0) != nil {
		<-req.Context().Done()
		return
	}
	if f := dw.fault("gw.slow", 0); f != nil {
		time.Sleep(time.Duration(f.A) * time.Microsecond)
	}
	if dw.fault("gw.status", 0) != nil {
		rw.WriteHeader(502)
		return
	}
	if dw.fault("gw.rpcerr", 0) != nil {
		fmt.Fprintf(rw, `{"jsonrpc":"2.0","error":{"code":1,"message":"sim"},"id":%d}`, call.ID)
		return
	}
	if dw.fault("gw.garbage", 0) != nil {
		fmt.Fprintf(rw, `{"jsonrpc":"2.0","result":`)
		return
	}
	var out bytes.Buffer
	switch call.Method {
	case "Filecoin.ChainHead":
		fmt.Fprintf(&out, `{"jsonrpc":"2.0","result":{"Cids":[{"/":"%s"}],"Blocks":[],"Height":%d},"id":%d}`, adCid(int64(dw.ndisc)), dw.ndisc, call.ID)
	case "Filecoin.StateMinerInfo":
		var addr string
		if len(call.Params) != 2 || json.Unmarshal(call.Params[0], &addr) != nil {
			dw.failP("P16", "bad-call", "the gateway was asked something strange: %s", b)
			return
		}
		addr = "t" + addr[1:]
		dw.ndisc++
		id := provID(dw.minerOwner(addr))
		as := []multiaddr.Multiaddr{regAddr(50000 + dw.ndisc)}
		if dw.ndisc%3 == 0 {
			as = append(as, regAddr(60000+dw.ndisc))
		}
		if dw.fault("gw.noaddr", 0) != nil {
			as = nil
		}
		list := [][]byte{}
		for _, a := range as {
			list = append(list, a.Bytes())
		}
		if dw.fault("gw.badaddr", 0) != nil {
			list = append([][]byte{{0xff, 0xff, 1}}, list...)
		}
		res := map[string]interface{}{"PeerId": id.String(), "Multiaddrs": list, "Owner": "t0100", "Worker": "t0100", "NewWorker": "<empty>", "SectorSize": 1}
		if dw.fault("gw.nopeer", 0) != nil {
			res["PeerId"] = nil
		} else {
			atomically(func() { dw.answers[addr] = append(dw.answers[addr], gwAns{id, fmtAddrs(as)}) })
		}
		_ = json.NewEncoder(&out).Encode(map[string]interface{}{"jsonrpc": "2.0", "result": res, "id": call.ID})
	default:
		rw.WriteHeader(404)
		return
	}
	rw.Header().Set("Content-Type", "application/json")
	_, _ = rw.Write(out.Bytes())
}

func genDisc(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	np := 1 + r.Intn(3)
	k["provs"] = int64(np)
	k["discTimeout"] = pick(r, 1, 5, 60, 120)
	k["rediscWait"] = pick(r, 0, 1, 30, 300, 3600)
	k["pollRetry"] = pick(r, 60, 300, 18000)
	k["diskLat"] = pick(r, 0, 0, 500, 20000)
	k["netLat"] = pick(r, 0, 100, 2000, 50000)
	k["gateway"] = r.Int63n(2)
	k["close"] = r.Int63n(2)
	k["closeSync"] = r.Int63n(2)
	k["closeAt"] = r.Int63n(pick(r, 10, 1000, 2000000))
	na := int64(1 + r.Intn(3))
	unit := pick(r, 100, 10000, 1000000, 10000000)
	for i := int64(0); i < 40; i++ {
		k[discKnob(i, "lat")] = r.Int63n(pick(r, 1, unit, unit*10))
	}
	gap := func() int64 {
		switch x := r.Intn(100); {
		case x < 40:
			return r.Int63n(50)
		case x < 75:
			return r.Int63n(unit)
		case x < 90:
			return r.Int63n(unit * 10)
		}
		// about the rediscovery wait and the clean-up
		return (k["rediscWait"]*1000000 + r.Int63n(2*unit)) % (4000 * 1000000)
	}
	for c := 0; c < 1+r.Intn(5); c++ {
		for j := 0; j < 2+r.Intn(8); j++ {
			op := Op{C: c, D: gap(), P: r.Intn(np)}
			switch x := r.Intn(100); {
			case x < 75:
				op.K, op.A, op.B = "disc", r.Int63n(na), r.Int63n(2)
			case x < 85:
				op.K, op.A = "reg", r.Int63n(500)
			case x < 92:
				op.K = "rm"
			default:
				op.K = "read"
			}
			p.Ops = append(p.Ops, op)
		}
	}
	if chance(r, 50) {
		for i := 0; i < np; i++ {
			for j := 0; j < 1+r.Intn(4); j++ {
				p.Ops = append(p.Ops, Op{C: 50 + i, P: i, K: pick2(r, "block", "allow"), D: gap()})
				if chance(r, 50) {
					p.Ops = append(p.Ops, Op{C: 50 + i, P: i, K: "disc", A: r.Int63n(na), B: r.Int63n(2), D: r.Int63n(3) * gap()})
				}
			}
		}
	}
	kinds := []string{"disc.hang", "disc.slow", "disc.err", "disc.pause", "disk.eio", "disk.stall"}
	if k["gateway"] == 1 {
		kinds = []string{"gw.hang", "gw.slow", "gw.status", "gw.rpcerr", "gw.garbage", "gw.noaddr", "gw.badaddr", "gw.nopeer", "wire.break", "wire.stall", "wire.refuse", "wire.dialhang", "disk.eio", "disc.pause"}
	}
	for i := 0; i < r.Intn(6); i++ {
		f := Fault{K: kinds[r.Intn(len(kinds))], N: r.Int63n(12), M: 1 + r.Int63n(3)}
		switch f.K {
		case "gw.slow", "wire.stall":
			f.A = r.Int63n(pick(r, unit, 200000000, 4000000000))
		case "disk.stall":
			f.A = r.Int63n(5000000)
		default:
			f.A = r.Int63n(1000)
		}
		p.Faults = append(p.Faults, f)
	}
}

func init() {
	register("disc", &Scenario{run: runDisc, gen: genDisc}, "P16")
}
