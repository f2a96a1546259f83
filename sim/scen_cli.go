package main

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	ingestmodel "github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	"github.com/filecoin-project/storetheindex/command"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
	"github.com/urfave/cli/v2"
)

// P23: the operator's commands, run one after the other as the command line
// runs them, against the whole daemon over a network that fails now and then,
// while publishers publish and announce.

const otherIndexer = "127.0.0.1:4100"

type CliWorld struct {
	*DaemonWorld
	noise   int                // publishers that announce by themselves
	own     *Publisher         // the one that only commands sync
	fresh   []*Publisher       // known to the other indexer only
	barred  map[peer.ID]bool   // what policy says
	vague   map[peer.ID]bool   // not known what policy says
	allVag  bool               //
	regd    map[peer.ID]string // addresses that a register command gave
	regVag  map[peer.ID]bool
	loaded  map[peer.ID]bool // successfully imported
	list    func(w http.ResponseWriter)
	listN   int
	mode    int64
	p2pn    int
	mhs     []multihash.Multihash
	npeer   int
	inCmd   bool
	tried   map[peer.ID]bool // an import that failed may have registered it
	polCh   int              // policy changes begun
	srvStop func()
}

// cliHost is a libp2p host that reaches the daemon only at its address.
type cliHost struct {
	host.Host
	cw *CliWorld
}

func (h *cliHost) Connect(ctx context.Context, ai peer.AddrInfo) error {
	for _, a := range ai.Addrs {
		for _, b := range h.cw.h.Addrs() {
			if a.Equal(b) && ai.ID == h.cw.h.ID() {
				_, err := h.cw.mn.ConnectPeers(h.ID(), ai.ID)
				return err
			}
		}
	}
	return errRefused
}

func wireFaults(w *World) int {
	n := 0
	atomically(func() {
		for k, c := range w.count {
			if strings.HasPrefix(k, "fault:wire.") {
				n += int(c)
			}
		}
	})
	return n
}

// command runs one command; ok is false if it failed although nothing was made
// to fail.
func (cw *CliWorld) command(args ...string) (out string, err error, excused bool) {
	f0 := wireFaults(cw.World)
	t0 := time.Now()
	name := filepath.Join(cw.dir, "stdout")
	f, ferr := os.Create(name)
	cw.must(ferr)
	old := os.Stdout
	os.Stdout = f
	tr := &http.Transport{MaxIdleConns: 10, IdleConnTimeout: 5 * time.Second}
	to := &http.Transport{MaxIdleConns: 10, IdleConnTimeout: 5 * time.Second}
	cw.net.other = func(req *http.Request) (*http.Response, error) {
		if req.URL.Host == otherIndexer {
			return to.RoundTrip(req)
		}
		return tr.RoundTrip(req)
	}
	app := &cli.App{Name: "storetheindex", Writer: io.Discard, ErrWriter: io.Discard, ExitErrHandler: func(*cli.Context, error) {},
		Commands: []*cli.Command{command.AdminCmd, command.ImportCmd, command.RegisterCmd, command.FindCmd, command.ProvidersCmd}}
	err = app.RunContext(context.Background(), append([]string{"storetheindex"}, args...))
	cw.net.other = nil
	tr.CloseIdleConnections()
	to.CloseIdleConnections()
	os.Stdout = old
	_ = f.Close()
	b, ferr := os.ReadFile(name)
	cw.must(ferr)
	d := time.Since(t0)
	cw.event("%.60s: %v", strings.Join(args, " "), err)
	if d > 10*time.Minute {
		cw.failP(cw.prop, "command-hangs", "%s took %s", strings.Join(args, " "), d)
	}
	excused = wireFaults(cw.World) != f0 || d > 50*time.Second
	return string(b), err, excused
}

// at says where the indexer is, in the way this run does.
func (cw *CliWorld) at(api string) []string {
	switch cw.mode {
	case 0: // the configuration file
		return nil
	case 1: // the environment says where the admin server is
		if api == dAdmin {
			return nil
		}
	}
	if cw.npeer++; cw.npeer%2 == 0 {
		return []string{"-i", api}
	}
	return []string{"--indexer", api}
}

// try judges how a command that has to work ended.
func (cw *CliWorld) try(args ...string) (string, bool, bool) {
	out, err, excused := cw.command(args...)
	if err != nil && !excused && !cw.gone() {
		cw.failP(cw.prop, "command-failed", "%q failed although nothing is wrong: %s", strings.Join(args, " "), err)
	}
	cw.hit(fmt.Sprintf("cli.%.16s.%v", strings.Join(args[:2], "."), err == nil))
	return out, err == nil, excused
}

// raw asks the daemon directly, again if the network fails.
func (cw *CliWorld) raw(method, addr, path string, body []byte) (int, []byte) {
	for i := 0; i < 60; i++ {
		st, b, err := cw.request(method, addr, path, body, time.Minute)
		if err == nil {
			return st, b
		}
		time.Sleep(time.Second)
	}
	return 0, nil
}

func (cw *CliWorld) provider(id peer.ID) *model.ProviderInfo {
	st, b := cw.raw(http.MethodGet, dFinder, "/providers/"+id.String(), nil)
	if st != http.StatusOK {
		return nil
	}
	var pi model.ProviderInfo
	if json.Unmarshal(b, &pi) != nil {
		return nil
	}
	return &pi
}

func addrsOf(ai peer.AddrInfo) string {
	var ss []string
	for _, a := range ai.Addrs {
		ss = append(ss, a.String())
	}
	return strings.Join(ss, " ")
}

func (cw *CliWorld) someone(k int64) (peer.ID, *Publisher) {
	n := int64(cw.noise)
	if k %= n + 5; k < n {
		return cw.pubs[k].id, cw.pubs[k]
	}
	if k -= n; k < 3 {
		return idFor("cliprov", int(k)), nil
	}
	p := cw.fresh[int(k-3)%len(cw.fresh)]
	return p.prov, nil
}

func (cw *CliWorld) known(id peer.ID) bool { return !cw.allVag && !cw.vague[id] }

// probe checks that policy is what the commands made it.
func (cw *CliWorld) probe() {
	for i := 0; i < cw.noise && !cw.failed(); i++ {
		p := cw.pubs[i]
		if !cw.known(p.id) || len(p.ads) == 0 {
			continue
		}
		st := 0
		for k := 0; k < 60 && st == 0; k++ {
			if s, err := cw.announceHTTP(p); err == nil {
				st = s
			} else {
				time.Sleep(time.Second)
			}
		}
		if st == 0 {
			continue
		}
		if b := cw.barred[p.id]; b == (st/100 == 2) {
			cw.failP(cw.prop, "policy-differs", "publisher %d announces and gets status %d, though the commands that succeeded blocked it: %v", i, st, b)
		}
	}
	for k := 0; k < 3; k++ {
		id := idFor("cliprov", k)
		if !cw.known(id) || cw.failed() {
			continue
		}
		// An announcement of nothing that exists, from there.
		a := mustAddr("/dns4/nowhere.sim/tcp/80/http/p2p/" + id.String())
		st, _ := cw.raw(http.MethodPut, dIngest, "/ingest/announce", announceCbor(cid.NewCidV1(cid.Raw, mhFor(1)), []multiaddr.Multiaddr{a}))
		if b := cw.barred[id]; st != 0 && b == (st/100 == 2) {
			cw.failP(cw.prop, "policy-differs", "provider %d announces and gets status %d, though the commands that succeeded blocked it: %v", k, st, b)
		}
	}
}

func (cw *CliWorld) cliExec(op *Op) {
	switch op.K {
	case "pub":
		cw.publish(op)
		return
	case "ann":
		_, _ = cw.announceHTTP(cw.pubs[op.P])
		return
	case "cli":
	default:
		return
	}
	r := rand.New(rand.NewSource(op.Z))
	switch op.X {
	case 0, 1:
		id, _ := cw.someone(op.A)
		verb := []string{"allow", "block"}[op.X]
		fl := pick2(r, "--peer", "-p", "--peer")
		_, ok, _ := cw.try(append([]string{"admin", verb, fl, id.String()}, cw.at(dAdmin)...)...)
		if !ok {
			cw.vague[id] = true
			return
		}
		delete(cw.vague, id)
		cw.barred[id] = op.X == 1
		cw.probe()
	case 2:
		cw.cliReload(op)
	case 3:
		p := cw.pubs[int(op.A)%cw.noise]
		cw.cliSync(p, 0, false)
	case 4:
		cw.cliImport(op, r)
	case 5:
		cw.cliRegister(op, r)
	case 6:
		cw.cliFind(op, r)
	case 7:
		cw.cliProviders(op)
	case 8:
		cw.cliImportProviders(op, r)
	case 9:
		cw.cliWrong(op, r)
	case 10: // the publisher that only commands sync
		cw.cliOwn(op)
	}
}

func (cw *CliWorld) cliReload(op *Op) {
	c := cw.cfg
	c.Discovery.Policy = config.Policy{Allow: true, Publish: true}
	barred := map[peer.ID]bool{}
	for _, k := range op.L {
		id, _ := cw.someone(int64(k))
		if !barred[id] {
			barred[id] = true
			c.Discovery.Policy.Except = append(c.Discovery.Policy.Except, id.String())
		}
	}
	broken := int64(0)
	if cw.mode != 0 {
		broken = op.A
	}
	if op.A == 5 {
		broken = 0
		c.Discovery.Policy.Except = []string{"nobody"}
	}
	cw.save(c, broken)
	args := append([]string{"admin", "reload-config"}, cw.at(dAdmin)...)
	if broken != 0 || op.A == 5 {
		_, err, _ := cw.command(args...)
		if err == nil {
			cw.failP(cw.prop, "bad-config-accepted", "reload-config reports success with a configuration file that is not valid")
		}
		cw.save(cw.cfg, 0)
		cw.probe()
		return
	}
	cw.cfg = c
	_, ok, _ := cw.try(args...)
	if !ok {
		cw.allVag = true
		return
	}
	cw.allVag = false
	cw.vague = map[peer.ID]bool{}
	cw.barred = barred
	cw.probe()
}

func (cw *CliWorld) cliSync(p *Publisher, depth int64, resync bool) bool {
	args := []string{"admin", "sync", pick2(cw.rng, "--pubid", "-p", "--pubid"), p.id.String(), "--addr", p.addr.String()}
	if depth != 0 {
		args = append(args, "--depth", fmt.Sprint(depth))
	}
	if resync {
		args = append(args, "--resync")
	}
	args = append(args, cw.at(dAdmin)...)
	asked := false
	prev := cw.net.onReq
	cw.net.onReq = func(q *Publisher, ask string) {
		if q == p {
			asked = true
		}
		if prev != nil {
			prev(q, ask)
		}
	}
	_, ok, _ := cw.try(args...)
	if ok && cw.known(p.id) && !cw.barred[p.id] {
		if !cw.waitUntil(10*time.Minute, func() bool { return asked || cw.gone() }) {
			cw.failP(cw.prop, "nothing-synced", "a sync command for publisher %d succeeded, but the publisher was never asked for anything", p.i)
		}
	}
	cw.net.onReq = prev
	return ok
}

// cliOwn publishes for, and syncs, the publisher that nobody else syncs.
func (cw *CliWorld) cliOwn(op *Op) {
	p := cw.own
	if op.A > 0 || len(p.ads) == 0 {
		for i := int64(0); i < 1+op.A%3; i++ {
			cw.publish(&Op{K: "pub", P: p.i, A: 3, B: 2, X: adChunks, Y: int64(100 + len(p.ads)), Z: int64(60000 + 10*len(p.ads))})
		}
	}
	done := 0 // advertisements already processed
	depth, resync := op.B, op.Y == 1
	have := func() bool {
		m := cw.model(nil)
		ok := true
		atomically(func() {
			for _, a := range p.ads {
				for _, mh := range a.mhs {
					if !entriesEqual(own(cw.node.lookup(mh), p.prov), own(m.lookup(mh), p.prov)) {
						ok = false
					}
				}
			}
		})
		return ok
	}
	for i, a := range p.ads {
		if len(own(cw.node.lookup(a.mhs[0]), p.prov)) > 0 {
			done = i + 1
		}
	}
	asked := map[int]bool{}
	prev := cw.net.onReq
	cw.net.onReq = func(q *Publisher, ask string) {
		if q == p {
			for i, a := range p.ads {
				if a.cid.String() == ask {
					asked[i] = true
				}
			}
		}
		if prev != nil {
			prev(q, ask)
		}
	}
	defer func() { cw.net.onReq = prev }()
	if done < len(p.ads) {
		depth, resync = 0, false
	}
	ok := cw.cliSync(p, depth, resync)
	if !ok || cw.failed() {
		time.Sleep(20 * time.Minute) // it may have begun all the same
		return
	}
	time.Sleep(5 * time.Minute)
	if !resync {
		if !cw.waitUntil(time.Hour, func() bool { return have() || cw.gone() }) {
			cw.failP(cw.prop, "not-synced", "a sync command for publisher %d succeeded, but its content is not all indexed", p.i)
		}
		for i := range asked {
			if i < done {
				cw.failP(cw.prop, "too-much-synced", "a sync command without --resync fetched advertisement %d again, of which %d had been processed", i, done)
			}
		}
		cw.hit("cli.own.sync")
		return
	}
	n := len(p.ads)
	from := 0
	if depth > 0 && depth < int64(n) {
		from = n - int(depth)
	}
	cw.waitUntil(30*time.Minute, func() bool {
		for i := from; i < n; i++ {
			if !asked[i] {
				return cw.gone()
			}
		}
		return true
	})
	for i := 0; i < n; i++ {
		if asked[i] != (i >= from) && !cw.gone() {
			cw.failP(cw.prop, "wrong-depth", "a sync command with --resync --depth %d fetched of %d advertisements these: %v", depth, n, asked)
			return
		}
	}
	time.Sleep(10 * time.Minute)
	cw.hit("cli.own.resync")
}

func own(es []entry, id peer.ID) []entry {
	out := dropEntries(es, func(e entry) bool { return e.Prov != id })
	sortEntries(out)
	return out
}

func (cw *CliWorld) cliImport(op *Op, r *rand.Rand) {
	id := idFor("cliprov", int(op.A)%3)
	n := int(op.B)
	var mhs []multihash.Multihash
	var sb strings.Builder
	manifest := op.Y == 1
	if manifest {
		sb.WriteString("")
	}
	for i := 0; i < n; i++ {
		mh := mhFor(50000 + r.Int63n(400))
		mhs = append(mhs, mh)
		sb.WriteString(encodeCid(r, mh) + "\n")
	}
	file := filepath.Join(cw.dir, fmt.Sprintf("cids %d", op.Z%1000))
	cw.must(os.WriteFile(file, []byte(sb.String()), 0o600))
	ctx := fmt.Sprintf("%s ctx %d", pick2(r, "a", "ünï", "x=y,z"), op.Z)
	md := fmt.Sprintf("%smd %d", pick2(r, "", "--", "{\"a\":1} "), op.Z)
	args := []string{"import", "cidlist", pick2(r, "--provider", "-p"), id.String(), pick2(r, "--ctxid", "-c"), ctx, pick2(r, "--metadata=", "-m=") + md, pick2(r, "--file", "-f"), file}
	_, ok, _ := cw.try(append(args, cw.at(dAdmin)...)...)
	if !ok {
		return
	}
	atomically(func() {
		for _, mh := range mhs {
			found := false
			for _, e := range cw.node.lookup(mh) {
				if e.Prov == id && e.Ctx == ctx && e.Md == md {
					found = true
				}
			}
			if !found {
				cw.failP(cw.prop, "not-imported", "import reported success, but %s is not indexed for provider %d context %q metadata %q; it has %s", mh.B58String(), int(op.A)%3, ctx, md, fmtEntries(cw.node.lookup(mh)))
				return
			}
			cw.mhs = append(cw.mhs, mh)
		}
	})
	cw.hit("cli.imported")
}

func (cw *CliWorld) cliRegister(op *Op, r *rand.Rand) {
	k := int(op.A) % 3
	id, key := idFor("cliprov", k), keyFor("cliprov", k)
	kb, err := crypto.MarshalPrivateKey(key)
	cw.must(err)
	c := config.Config{Version: config.Version, Identity: config.Identity{PeerID: id.String(), PrivKey: base64.StdEncoding.EncodeToString(kb)}}
	c.Addresses = config.NewAddresses()
	if op.Y == 1 { // a key that is not its own
		kb, _ = crypto.MarshalPrivateKey(keyFor("cliprov", k+1))
		c.Identity.PrivKey = base64.StdEncoding.EncodeToString(kb)
	}
	b, err := config.Marshal(&c)
	cw.must(err)
	file := filepath.Join(cw.dir, "provider.config")
	cw.must(os.WriteFile(file, b, 0o600))
	var addrs []string
	args := []string{"register", "--config", file}
	fl := pick2(r, "--provider-addr", "--pa")
	for i := int64(0); i < 1+op.B%3; i++ {
		a := fmt.Sprintf("/ip4/10.%d.%d.%d/tcp/%d", r.Intn(250), r.Intn(250), r.Intn(250), 1+r.Intn(60000))
		addrs = append(addrs, a)
		args = append(args, fl, a)
	}
	args = append(args, cw.at(dIngest)...)
	before := cw.provider(id)
	_, err, excused := cw.command(args...)
	cw.hit(fmt.Sprintf("cli.register.%v", err == nil))
	must := cw.known(id) && !cw.barred[id] && op.Y != 1
	mustNot := cw.known(id) && cw.barred[id] || op.Y == 1
	switch {
	case err == nil && mustNot:
		cw.failP(cw.prop, "registered", "register succeeded for a provider that is blocked, or with a key that is not the provider's")
	case err != nil && must && !excused && !cw.gone():
		cw.failP(cw.prop, "command-failed", "register failed although nothing is wrong: %s", err)
	}
	after := cw.provider(id)
	if err == nil {
		want := strings.Join(addrs, " ")
		if after == nil || addrsOf(after.AddrInfo) != want {
			cw.failP(cw.prop, "not-registered", "register reported success for addresses %s, the indexer has %+v", want, after)
		}
	} else if !excused && before != nil && after != nil && addrsOf(before.AddrInfo) != addrsOf(after.AddrInfo) || mustNot && before == nil && after != nil {
		cw.failP(cw.prop, "register-effect", "a register command that failed changed the provider from %+v to %+v", before, after)
	}
}

func (cw *CliWorld) findRaw(mhs []multihash.Multihash) (*model.FindResponse, string) {
	req, err := model.MarshalFindRequest(&model.FindRequest{Multihashes: mhs})
	cw.must(err)
	st, b := cw.raw(http.MethodPost, dFinder, "/multihash", req)
	if st == http.StatusNotFound {
		return &model.FindResponse{}, "none"
	}
	if st != http.StatusOK {
		return nil, ""
	}
	rsp, err := model.UnmarshalFindResponse(b)
	if err != nil {
		return nil, ""
	}
	return rsp, string(b)
}

func (cw *CliWorld) cliFind(op *Op, r *rand.Rand) {
	var pool []multihash.Multihash
	atomically(func() { pool = append(cw.sortedUniverse(), cw.mhs...) })
	pool = append(pool, mhFor(70001), mhFor(70002))
	var mhs []multihash.Multihash
	args := []string{"find"}
	seen := map[string]bool{}
	for i := int64(0); i < 1+op.B%5; i++ {
		mh := pool[r.Intn(len(pool))]
		if seen[string(mh)] {
			continue
		}
		seen[string(mh)] = true
		mhs = append(mhs, mh)
		if r.Intn(2) == 0 {
			args = append(args, "--mh", mh.B58String())
		} else {
			args = append(args, "--cid", encodeCid(r, mh))
		}
	}
	if op.Y == 1 {
		args = append(args, "--protocol", "libp2p", pick2(r, "--indexerid", "--iid"), cw.h.ID().String())
		if cw.mode == 2 {
			args = append(args, pick2(r, "--indexer", "-i"), p2pAt)
		} else if cw.mode == 1 {
			args = append(args, "--indexer", p2pAt)
		}
	} else {
		args = append(args, cw.at(dFinder)...)
	}
	rsp, before := cw.findRaw(mhs)
	out, ok, _ := cw.try(args...)
	_, after := cw.findRaw(mhs)
	if !ok || rsp == nil || before != after {
		return
	}
	// Each multihash with what is known about it.
	pos := map[string]int{}
	for _, mh := range mhs {
		pos[string(mh)] = strings.Index(out, mh.B58String())
	}
	section := func(mh multihash.Multihash) string {
		i := pos[string(mh)]
		if i < 0 {
			return ""
		}
		end := len(out)
		for _, j := range pos {
			if j > i && j < end {
				end = j
			}
		}
		return out[i:end]
	}
	got := map[string]bool{}
	for _, res := range rsp.MultihashResults {
		got[string(res.Multihash)] = true
		sec := section(res.Multihash)
		type key struct{ id, cx, md string }
		for _, pr := range res.ProviderResults {
			k := key{pr.Provider.ID.String(), base64.StdEncoding.EncodeToString(pr.ContextID), base64.StdEncoding.EncodeToString(pr.Metadata)}
			if !strings.Contains(sec, k.id) || !strings.Contains(sec, k.cx) || !strings.Contains(sec, k.md) {
				cw.failP(cw.prop, "find-output", "find does not show %v for %s, which the indexer has; it printed\n%s", k, res.Multihash.B58String(), out)
				return
			}
		}
		if n := strings.Count(sec, "Metadata"); n != len(res.ProviderResults) && strings.Contains(sec, "Metadata") {
			cw.failP(cw.prop, "find-output", "find shows %d results for %s, the indexer has %d; it printed\n%s", n, res.Multihash.B58String(), len(res.ProviderResults), out)
		}
	}
	for _, mh := range mhs {
		if !got[string(mh)] && pos[string(mh)] >= 0 {
			cw.failP(cw.prop, "find-output", "find shows %s, which the indexer does not have; it printed\n%s", mh.B58String(), out)
		}
	}
	cw.hit(fmt.Sprintf("cli.find.judged.%d", op.Y))
}

func (cw *CliWorld) cliProviders(op *Op) {
	all := func() ([]*model.ProviderInfo, string) {
		st, b := cw.raw(http.MethodGet, dFinder, "/providers", nil)
		if st != http.StatusOK {
			return nil, ""
		}
		var ps []*model.ProviderInfo
		if json.Unmarshal(b, &ps) != nil {
			return nil, ""
		}
		return ps, string(b)
	}
	ps, before := all()
	one := peer.ID("")
	args := []string{"providers", "list"}
	if op.Y == 1 {
		one, _ = cw.someone(op.A)
		args = []string{"providers", "get", []string{"--provid", "-p"}[op.B%2], one.String()}
	}
	args = append(args, cw.at(dFinder)...)
	out, err, excused := cw.command(args...)
	ok := err == nil
	ps2, _ := all()
	cw.hit(fmt.Sprintf("cli.providers.%d.%v", op.Y, ok))
	if !ok && !excused && before != "" {
		here := one == ""
		for _, p := range ps {
			here = here || p.AddrInfo.ID == one
		}
		if here && !cw.gone() {
			cw.failP(cw.prop, "command-failed", "%v failed although nothing is wrong: %s", args, err)
		}
	}
	if !ok || before == "" || len(ps) != len(ps2) {
		return
	}
	ids := map[peer.ID]*model.ProviderInfo{}
	for _, p := range ps2 {
		ids[p.AddrInfo.ID] = p
	}
	n := 0
	for _, p := range ps {
		q := ids[p.AddrInfo.ID]
		if q == nil || addrsOf(p.AddrInfo) != addrsOf(q.AddrInfo) || p.LastAdvertisement != q.LastAdvertisement {
			return // changed meanwhile
		}
	}
	for _, p := range ps {
		id := p.AddrInfo.ID.String()
		if one != "" && p.AddrInfo.ID != one {
			if strings.Contains(out, "Provider "+id) {
				cw.failP(cw.prop, "providers-output", "providers get %s shows %s", one, id)
			}
			continue
		}
		n++
		if !strings.Contains(out, id) {
			cw.failP(cw.prop, "providers-output", "%v does not show %s, which is registered; it printed\n%s", args, id, out)
			return
		}
		for _, a := range p.AddrInfo.Addrs {
			if !strings.Contains(out, a.String()) {
				cw.failP(cw.prop, "providers-output", "%v does not show address %s of %s; it printed\n%s", args, a, id, out)
				return
			}
		}
		if p.LastAdvertisement != cid.Undef && !strings.Contains(out, p.LastAdvertisement.String()) {
			cw.failP(cw.prop, "providers-output", "%v does not show the last advertisement of %s; it printed\n%s", args, id, out)
			return
		}
	}
	cw.hit("cli.providers.judged")
}

func (cw *CliWorld) cliImportProviders(op *Op, r *rand.Rand) {
	type ent struct {
		info *model.ProviderInfo
		p    *Publisher
		id   peer.ID
		ok   bool // can be registered
	}
	var es []ent
	for i, p := range cw.fresh {
		if op.B&(1<<uint(i)) == 0 {
			continue
		}
		pi := &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: p.prov, Addrs: []multiaddr.Multiaddr{p.addr}}, Publisher: &peer.AddrInfo{ID: p.id, Addrs: []multiaddr.Multiaddr{p.addr}}}
		if p.prov == p.id && r.Intn(2) == 0 {
			switch r.Intn(3) {
			case 0:
				pi.Publisher = nil
			case 1:
				pi.Publisher.Addrs = nil
			case 2: // nothing of the kind
			}
		} else if p.prov != p.id {
			pi.AddrInfo.Addrs = []multiaddr.Multiaddr{mustAddr("/ip4/10.9.9.9/tcp/99")}
		}
		es = append(es, ent{pi, p, p.prov, true})
	}
	// Known here already, with other addresses.
	for k := 0; k < 3; k++ {
		id := idFor("cliprov", k)
		if cw.provider(id) != nil && r.Intn(2) == 0 {
			es = append(es, ent{&model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{mustAddr("/ip4/10.8.8.8/tcp/88")}}}, nil, id, false})
		}
	}
	if r.Intn(2) == 0 { // no addresses at all
		es = append(es, ent{&model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: idFor("cliprov", 9)}}, nil, idFor("cliprov", 9), false})
	}
	if r.Intn(3) == 0 {
		es = append(es, ent{nil, nil, "", false})
	}
	// Registers itself at the same time.
	racer := -1
	rdone := make(chan bool, 1)
	racing := false
	if op.A%2 == 0 && op.Y == 0 {
		for k := 0; k < 3; k++ {
			id := idFor("cliprov", k)
			if cw.provider(id) == nil && cw.known(id) && !cw.barred[id] {
				racer = k
				es = append(es, ent{&model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: id, Addrs: []multiaddr.Multiaddr{mustAddr("/ip4/10.8.8.8/tcp/88")}}}, nil, "", false})
				break
			}
		}
	}
	late := time.Duration(r.Int63n(2*cw.knob("netLat", 2000))) * time.Microsecond
	r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
	var ps []*model.ProviderInfo
	before := map[peer.ID]string{}
	for _, e := range es {
		ps = append(ps, e.info)
		if e.id != "" {
			if q := cw.provider(e.id); q != nil {
				before[e.id] = addrsOf(q.AddrInfo)
			}
		}
	}
	body, err := json.Marshal(ps)
	cw.must(err)
	if ps == nil {
		body = []byte("[]")
	}
	l, err := cw.wire.listen("tcp", otherIndexer)
	cw.must(err)
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
		switch {
		case req.URL.Path != "/providers":
			http.Error(w, "", http.StatusNotFound)
		case op.Y == 1:
			http.Error(w, "not now", http.StatusInternalServerError)
		case op.Y == 2:
			_, _ = w.Write(body[:len(body)/2])
		case op.Y == 3:
			_, _ = w.Write([]byte("<html>"))
		default:
			if racer >= 0 && !racing {
				racing = true
				go func() {
					time.Sleep(late)
					b, err := ingestmodel.MakeRegisterRequest(idFor("cliprov", racer), keyFor("cliprov", racer), []string{"/ip4/10.7.7.7/tcp/77"})
					cw.must(err)
					st, _, err := cw.request(http.MethodPost, dIngest, "/register", b, time.Minute)
					rdone <- err == nil && st == http.StatusOK
				}()
			}
			w.Header().Set("Content-Type", "application/json")
			_, _ = w.Write(body)
		}
	})}
	go func() { _ = srv.Serve(l) }()
	if op.Y == 4 {
		_ = srv.Close()
		time.Sleep(time.Second)
	}
	args := append([]string{"admin", "import-providers", pick2(r, "--from", "-f"), otherIndexer}, cw.at(dAdmin)...)
	var ok, excused bool
	bad := op.Y != 0 && !(op.Y == 2 && false)
	if bad {
		var err error
		_, err, excused = cw.command(args...)
		ok = err == nil
		if ok {
			cw.failP(cw.prop, "bad-list-accepted", "import-providers reports success though the other indexer did not give a list (%d)", op.Y)
		}
	} else {
		_, ok, excused = cw.try(args...)
	}
	_ = srv.Close()
	cw.hit(fmt.Sprintf("cli.import-providers.%d.%v", op.Y, ok))
	if racing && <-rdone {
		time.Sleep(2 * time.Minute) // the server may still be at it if the command gave up
		if q := cw.provider(idFor("cliprov", racer)); q == nil || addrsOf(q.AddrInfo) != "/ip4/10.7.7.7/tcp/77" {
			cw.failP(cw.prop, "import-overwrote", "provider %d registered itself at /ip4/10.7.7.7/tcp/77 while providers were imported; afterwards it is %+v", racer, q)
		}
		cw.hit("cli.import.raced")
	}
	for _, e := range es {
		if e.id == "" || cw.failed() {
			continue
		}
		q := cw.provider(e.id)
		now := ""
		if q != nil {
			now = addrsOf(q.AddrInfo)
		}
		was, had := before[e.id]
		switch {
		case had && e.p == nil && now != was:
			cw.failP(cw.prop, "import-changed", "import-providers changed provider %s, already registered, from %q to %q", e.id, was, now)
		case had:
		case bad:
			if q != nil {
				cw.failP(cw.prop, "bad-import-effect", "import-providers registered %s though the other indexer did not give a list", e.id)
			}
		case !e.ok && q != nil:
			cw.failP(cw.prop, "import-effect", "import-providers registered %s, for which there are no addresses", e.id)
		case e.ok && cw.known(e.id) && cw.known(e.p.id) && !(cw.barred[e.id] || cw.barred[e.p.id]):
			if ok && (q == nil || now != addrsOf(e.info.AddrInfo) && q.LastAdvertisement == cid.Undef) {
				cw.failP(cw.prop, "not-imported", "import-providers succeeded, but provider %s is registered with %q, it should be %q", e.id, now, addrsOf(e.info.AddrInfo))
			}
			if ok && !cw.loaded[e.id] {
				cw.loaded[e.id] = true
				cw.hit("cli.provider.imported")
			}
		case e.ok && cw.known(e.id) && cw.barred[e.id] && q != nil:
			cw.failP(cw.prop, "import-blocked", "import-providers registered %s, which is blocked", e.id)
		}
	}
	_ = excused
	// What was imported gets synced.
	for _, e := range es {
		if e.p == nil || !cw.loaded[e.id] || cw.failed() || !ok || len(before[e.id]) > 0 || !cw.known(e.id) || !cw.known(e.p.id) {
			continue
		}
		p := e.p
		if !cw.waitUntil(time.Hour, func() bool {
			m := cw.model(nil)
			for _, a := range p.ads {
				for _, mh := range a.mhs {
					if !entriesEqual(own(cw.node.lookup(mh), p.prov), own(m.lookup(mh), p.prov)) {
						return cw.gone()
					}
				}
			}
			return true
		}) {
			cw.failP(cw.prop, "imported-not-synced", "provider %s was imported but its content is not indexed", e.id)
		}
		cw.hit("cli.imported.synced")
	}
}

// cliWrong gives commands that cannot work.
func (cw *CliWorld) cliWrong(op *Op, r *rand.Rand) {
	id := idFor("cliprov", int(op.A)%3)
	p := cw.pubs[0]
	var args []string
	api := dAdmin
	switch op.Y {
	case 0:
		args = []string{"admin", "block", "--peer", p.id.String() + "x"}
	case 1:
		args = []string{"admin", "allow", "--peer", "nobody"}
	case 2:
		args = []string{"import", "cidlist", "-p", id.String(), "-c", "c", "-m", "m", "-f", filepath.Join(cw.dir, "nofile")}
	case 3:
		args = []string{"import", "manifest", "-p", id.String(), "-c", "c", "-m", "m", "-f", filepath.Join(cw.dir, "nofile")}
	case 4:
		args, api = []string{"find", "--mh", "zzz"}, dFinder
	case 5:
		args, api = []string{"find", "--cid", "zzz"}, dFinder
	case 6:
		args, api = []string{"find", "--protocol", "pigeon", "--mh", mhFor(1).B58String()}, dFinder
	case 7:
		args = []string{"admin", "sync", "--pubid", "nobody"}
	case 8:
		args = []string{"admin", "sync", "--pubid", p.id.String(), "--addr", "here"}
	case 9:
		args, api = []string{"register", "--config", filepath.Join(cw.dir, "nofile"), "--pa", "/ip4/10.1.1.1/tcp/1"}, dIngest
	case 10: // nobody listens there
		args = []string{"admin", "block", "--peer", p.id.String(), "--indexer", "127.0.0.1:3999"}
		api = ""
	case 11:
		args, api = []string{"find", "--protocol", "libp2p", "--iid", idFor("cliprov", 1).String(), "--mh", mhFor(1).B58String()}, p2pAt
	}
	if api != "" {
		args = append(args, cw.at(api)...)
	}
	_, err, _ := cw.command(args...)
	if err == nil {
		cw.failP(cw.prop, "wrong-command-succeeds", "%q reports success", strings.Join(args, " "))
	}
	cw.hit(fmt.Sprintf("cli.wrong.%d", op.Y))
	cw.probe()
}

func (cw *CliWorld) idle() bool {
	return cw.waitUntil(time.Hour, func() bool { return cw.diff(cw.model(nil)) == "" })
}

func runCli(w *World) {
	prop := w.plan.Property
	if w.knob("ip6", 0) == 1 {
		dFinder, dIngest, dAdmin, p2pAt, dHost = "[::1]:3000", "[::1]:3001", "[::1]:3002", "[::1]:3003", "/ip6/::1"
	}
	dw := newDaemonWorld(w, prop)
	defer dw.tidy()
	defer func() { os.SimExit = nil }()
	dw.hookStore()
	dw.args = []string{"--watch-config=false"}
	cw := &CliWorld{DaemonWorld: dw, barred: map[peer.ID]bool{}, vague: map[peer.ID]bool{}, loaded: map[peer.ID]bool{}}
	cw.mode = w.knob("mode", 0)
	n := len(cw.pubs)
	cw.noise = n - 3
	cw.own, cw.fresh = cw.pubs[n-3], cw.pubs[n-2:]
	dw.alien = map[peer.ID]bool{}
	for k := 0; k < 10; k++ {
		dw.alien[idFor("cliprov", k)] = true
	}
	for _, p := range cw.fresh {
		for j := 0; j < 2; j++ {
			cw.publish(&Op{K: "pub", P: p.i, A: 4, B: 2, X: adChunks, Y: int64(j), Z: int64(80000 + 100*p.i + 10*j)})
		}
	}
	if cw.mode == 1 {
		cw.must(os.Setenv("INDEXER", dAdmin))
		defer os.Unsetenv("INDEXER")
	}
	dw.start()
	if !dw.ready() {
		dw.failP(prop, "not-started", "the daemon does not start: %v", dw.err)
		return
	}
	libp2p.SimNew = func() (host.Host, error) {
		cw.p2pn++
		h, err := dw.mn.AddPeer(keyFor("cli", cw.p2pn), mustAddr(fmt.Sprintf("/ip4/10.2.2.%d/tcp/1", 1+cw.p2pn%200)))
		if err == nil {
			_, err = dw.mn.LinkPeers(h.ID(), dw.h.ID())
		}
		return &cliHost{h, cw}, err
	}
	wait := w.runClients(cw.cliExec)
	if !wait(72 * time.Hour) {
		dw.failP(prop, "client-hangs", "a workload step never finished")
		return
	}
	if w.failed() {
		return
	}
	w.faultOn = false
	time.Sleep(2 * time.Minute)
	r := rand.New(rand.NewSource(int64(w.plan.Seed)))
	do := func(op Op) bool {
		op.K = "cli"
		op.Z = r.Int63n(1 << 30)
		cw.cliExec(&op)
		return !w.failed()
	}
	if !do(Op{X: 2}) {
		return
	}
	for i := 0; i < cw.noise; i++ {
		if len(cw.pubs[i].ads) > 0 {
			if !do(Op{X: 3, A: int64(i)}) {
				return
			}
		}
	}
	if !do(Op{X: 10, A: 2}) || !do(Op{X: 8, B: 3}) {
		return
	}
	// Those registered without having been imported or after a sync failed.
	for _, p := range cw.fresh {
		cw.cliSync(p, 0, false)
	}
	if w.failed() {
		return
	}
	if !cw.idle() {
		dw.failP(prop, "index-differs", "%s", dw.diff(dw.model(nil)))
		return
	}
	time.Sleep(time.Hour)
	for _, op := range []Op{{X: 10, B: w.knob("depth", 1), Y: 1}, {X: 10}, {X: 5}, {X: 4, B: 3}, {X: 6, B: 4}, {X: 6, B: 4, Y: 1}, {X: 7}, {X: 7, Y: 1}} {
		if !do(op) {
			return
		}
	}
	cw.idle()
	dw.served()
	if !w.failed() {
		dw.shutdown()
		time.Sleep(time.Minute)
	}
}

func genCli(r *rand.Rand, p *Plan, tier string) {
	k := p.Knobs
	noise := 1 + r.Intn(2)
	np := noise + 3
	k["pubs"] = int64(np)
	k["workers"] = pick(r, 1, 2, 8)
	k["batch"] = pick(r, 2, 16, 4096)
	k["seg"] = pick(r, -1, 1, 2, 3, 10, 2000)
	k["syncTimeout"] = 7200
	k["vsLat"] = pick(r, 0, 20, 300)
	k["netLat"] = pick(r, 100, 2000, 20000)
	k["provDelta"] = pick(r, 0, 1, 2, 3) << uint(noise+1)
	k["mode"] = pick(r, 0, 0, 1, 2)
	k["ip6"] = pick(r, 0, 0, 1)
	k["depth"] = pick(r, -1, 0, 1, 2, 3)
	o := genOpts{}
	for i := 0; i < noise; i++ {
		for j := 0; j < 1+r.Intn(3); j++ {
			p.Ops = append(p.Ops, genPub(r, i, j, o))
			if chance(r, 60) {
				p.Ops = append(p.Ops, Op{C: i, D: r.Int63n(3000), K: "ann", P: i})
			}
		}
	}
	for i := 0; i < 5+r.Intn(14); i++ {
		op := Op{C: 900, D: r.Int63n(pick(r, 100, 3000, 300000)), K: "cli", Z: r.Int63n(1 << 40)}
		op.X = pick(r, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6, 6, 6, 7, 8, 8, 9, 10, 10)
		op.A = r.Int63n(12)
		op.B = r.Int63n(8)
		op.Y = r.Int63n(2)
		switch op.X {
		case 2:
			op.A = 0
			if chance(r, 25) {
				op.A = 1 + r.Int63n(5)
			}
			for j := 0; j < r.Intn(4); j++ {
				op.L = append(op.L, r.Intn(12))
			}
		case 4:
			op.B = pick(r, 1, 3, 255, 256, 257, 600)
		case 8:
			op.Y = pick(r, 0, 0, 0, 0, 1, 2, 3, 4)
		case 9:
			op.Y = r.Int63n(12)
		case 10:
			op.A = pick(r, 0, 1, 2)
			op.B = pick(r, -1, 0, 1, 2, 3, 9)
			op.Y = pick(r, 0, 1, 1)
		}
		p.Ops = append(p.Ops, op)
	}
	if chance(r, 50) {
		genNetFaults(r, p, noise, 1+r.Intn(3))
	}
	if chance(r, 60) {
		for i := 0; i < 1+r.Intn(5); i++ {
			f := Fault{K: pick2(r, "wire.refuse", "wire.break", "wire.break", "wire.stall", "wire.dialhang"), N: r.Int63n(150), M: 1 + r.Int63n(3), A: r.Int63n(1 << 20)}
			if f.K == "wire.stall" {
				f.A = pick(r, 1000000, 20000000, 70000000)
			}
			p.Faults = append(p.Faults, f)
		}
	}
}

func init() {
	register("cli", &Scenario{run: runCli, gen: genCli}, "P23")
}
