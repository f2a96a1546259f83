package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	"github.com/ipld/go-ipld-prime/datamodel"
	"github.com/ipld/go-ipld-prime/fluent/qp"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// advertisement kinds (Op.X of "pub")
const (
	adChunks = iota
	adHamt
	adMeta
	adRm
	adBadMhs      // chunks with some undecodable multihashes
	adEmptyChunks // chunk chain with empty chunks
	adRmWithEntries
)

type Ad struct {
	cid    cid.Cid
	ad     schema.Advertisement
	idx    int
	prov   peer.ID
	kind   int
	ctx    string
	md     string
	mhs    []multihash.Multihash // valid ones only
	blocks []string              // entry block CIDs
	opaque bool                  // content undefined (malformed); not part of the model

	forged    bool // must never take effect
	forgedTop bool
	stuck     bool // the chain cannot be ingested past it
	set       map[string]bool
}

// Publisher is a simulated advertisement publisher: a chain of signed
// advertisements and the blocks it serves.
type Publisher struct {
	onlyJSON bool
	w        *World
	i        int
	key      crypto.PrivKey
	id       peer.ID
	prov     peer.ID
	provK    crypto.PrivKey
	addr     multiaddr.Multiaddr
	host     string
	blocks   map[string][]byte
	ads      []*Ad
	all      []*Ad // including those no longer on the chain
	byCid    map[cid.Cid]*Ad
	lsys     ipld.LinkSystem
	down     bool
	// with down: requests get no answer instead of an error
	blackhole bool
	raw       [][]byte // hand-made blocks
	headOf    int      // if >0: advertise ads[headOf-1] as head instead of the newest
	annSem    chan struct{}
	served    int64
	onServe   func(what string)
	addrs     []string // provider addresses put in ads
	ctx0      bool     // one of the context IDs is empty
	oldSig    int64    // bitmask: which advertisements have a signature of the old format
	signProv  bool     // the provider, not the publisher, signs the ads
}

func newPublisher(w *World, i int) *Publisher {
	p := &Publisher{w: w, i: i, key: keyFor("pub", i), id: idFor("pub", i), blocks: map[string][]byte{}, byCid: map[cid.Cid]*Ad{}, annSem: make(chan struct{}, 1)}
	p.prov, p.provK = p.id, p.key
	p.host = fmt.Sprintf("10.0.0.%d:3104", i+1)
	p.addr = mustAddr(fmt.Sprintf("/ip4/10.0.0.%d/tcp/3104/http", i+1))
	p.addrs = []string{fmt.Sprintf("/ip4/10.1.0.%d/tcp/9999", i+1)}
	p.lsys = cidlink.DefaultLinkSystem()
	p.lsys.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		b, ok := p.blocks[l.(cidlink.Link).Cid.String()]
		if !ok {
			return nil, ipld.ErrNotExists{}
		}
		return bytes.NewReader(b), nil
	}
	p.lsys.StorageWriteOpener = func(_ ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		var buf bytes.Buffer
		return &buf, func(l ipld.Link) error {
			p.blocks[l.(cidlink.Link).Cid.String()] = append([]byte{}, buf.Bytes()...)
			return nil
		}, nil
	}
	return p
}

func mhFor(id int64) multihash.Multihash {
	m, err := multihash.Sum([]byte(fmt.Sprintf("mh-%d", id)), multihash.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	return m
}

// ctxFor names context n; the first may be the empty one.
func (p *Publisher) ctxFor(n int64) string {
	if n == 0 && p.ctx0 {
		return ""
	}
	return fmt.Sprintf("ctx-%d-%d", p.i, n)
}

// linkproto is how the next block is encoded: DAG-JSON, as the SDK does, or
// DAG-CBOR, or some of both.
func (p *Publisher) linkproto() cidlink.LinkPrototype {
	lp := schema.Linkproto
	if p.onlyJSON {
		return lp
	}
	switch p.w.plan.Knobs["codec"] {
	case 1:
		lp.Codec = cid.DagCBOR
	case 2:
		if len(p.blocks)%2 == 1 {
			lp.Codec = cid.DagCBOR
		}
	}
	return lp
}

func (p *Publisher) store(n ipld.Node) cid.Cid {
	l, err := p.lsys.Store(ipld.LinkContext{Ctx: context.Background()}, p.linkproto(), n)
	if err != nil {
		panic(err)
	}
	return l.(cidlink.Link).Cid
}

// addRaw stores raw bytes under their true CID.
func (p *Publisher) addRaw(b []byte) cid.Cid {
	c, err := schema.Linkproto.Prefix.Sum(b)
	if err != nil {
		panic(err)
	}
	p.blocks[c.String()] = b
	p.raw = append(p.raw, b)
	return c
}

func (p *Publisher) chunks(mhs []multihash.Multihash, size int) (ipld.Link, []string) {
	if size < 1 {
		size = 1
	}
	var groups [][]multihash.Multihash
	for len(mhs) > 0 {
		k := size
		if k > len(mhs) {
			k = len(mhs)
		}
		groups = append(groups, mhs[:k])
		mhs = mhs[k:]
	}
	return p.chunkGroups(groups)
}

func (p *Publisher) chunkGroups(groups [][]multihash.Multihash) (ipld.Link, []string) {
	if len(groups) == 0 {
		groups = [][]multihash.Multihash{{}}
	}
	var next ipld.Link
	var cids []string
	for i := len(groups) - 1; i >= 0; i-- {
		n, err := schema.EntryChunk{Entries: groups[i], Next: next}.ToNode()
		if err != nil {
			panic(err)
		}
		c := p.store(n)
		cids = append(cids, c.String())
		next = cidlink.Link{Cid: c}
	}
	return next, cids
}

func (p *Publisher) hamtEntries(mhs []multihash.Multihash, bits int) (ipld.Link, []string) {
	before := map[string]bool{}
	for k := range p.blocks {
		before[k] = true
	}
	hb := hamt.NewBuilder(hamt.Prototype{BitWidth: bits, BucketSize: 1}).WithLinking(p.lsys, p.linkproto())
	ma, err := hb.BeginMap(0)
	if err != nil {
		panic(err)
	}
	for _, m := range mhs {
		if err := ma.AssembleKey().AssignBytes(m); err != nil {
			panic(err)
		}
		if err := ma.AssembleValue().AssignBool(true); err != nil {
			panic(err)
		}
	}
	if err := ma.Finish(); err != nil {
		panic(err)
	}
	c := p.store(hb.Build().(*hamt.Node).Substrate())
	var cids []string
	for k := range p.blocks {
		if !before[k] {
			cids = append(cids, k)
		}
	}
	sort.Strings(cids)
	return cidlink.Link{Cid: c}, cids
}

// publish appends an advertisement according to op: X kind, Y context, A
// number of multihashes, B chunk size, Z first multihash id.
func (p *Publisher) publish(op *Op) *Ad {
	var a *Ad
	atomically(func() { a = p.publishLocked(op) })
	p.w.event("pub%d ad%d kind=%d ctx=%s n=%d %s", p.i, a.idx, a.kind, a.ctx, len(a.mhs), a.cid)
	return a
}

func (p *Publisher) publishLocked(op *Op) *Ad {
	a := &Ad{kind: int(op.X), prov: p.prov, idx: len(p.ads)}
	a.ctx = p.ctxFor(op.Y)
	a.md = fmt.Sprintf("md-%d-%d", p.i, len(p.all))
	if op.N > 0 {
		a.prov = p.altProv(op.N)
	}
	ad := schema.Advertisement{
		Provider:  a.prov.String(),
		Addresses: p.addrs,
		ContextID: []byte(a.ctx),
		Metadata:  []byte(a.md),
		Entries:   schema.NoEntries,
	}
	var all []multihash.Multihash
	for k := int64(0); k < op.A; k++ {
		all = append(all, mhFor(op.Z+k))
	}
	switch a.kind {
	case adChunks:
		a.mhs = all
		ad.Entries, a.blocks = p.chunks(all, int(op.B))
	case adHamt:
		if len(all) == 0 {
			all = []multihash.Multihash{mhFor(op.Z)}
		}
		a.mhs = all
		bits := 3 + int(op.B%3)
		ad.Entries, a.blocks = p.hamtEntries(all, bits)
	case adMeta:
	case adRm:
		ad.IsRm = true
	case adRmWithEntries:
		ad.IsRm = true
		ad.Entries, a.blocks = p.chunks(all, int(op.B))
	case adBadMhs:
		a.mhs = all
		var mixed []multihash.Multihash
		for k, m := range all {
			if k%2 == 0 {
				mixed = append(mixed, multihash.Multihash(fmt.Sprintf("bad multihash %d", k)))
			}
			mixed = append(mixed, m)
		}
		mixed = append(mixed, multihash.Multihash("x"))
		ad.Entries, a.blocks = p.chunks(mixed, int(op.B))
	case adEmptyChunks:
		a.mhs = all
		var gs [][]multihash.Multihash
		gs = append(gs, nil)
		for _, m := range all {
			gs = append(gs, []multihash.Multihash{m})
			if len(gs)%3 == 0 {
				gs = append(gs, nil)
			}
		}
		gs = append(gs, nil)
		ad.Entries, a.blocks = p.chunkGroups(gs)
	}
	p.link(a, ad)
	return a
}

// sigRecord is the record that an advertisement's signature seals.
type sigRecord []byte

func (sigRecord) Domain() string                   { return "indexer" }
func (sigRecord) Codec() []byte                    { return []byte("/indexer/ingest/adSignature") }
func (r sigRecord) MarshalRecord() ([]byte, error) { return r, nil }
func (r sigRecord) UnmarshalRecord([]byte) error   { return nil }

// signOld signs the way publishers of earlier releases did: the payload is not
// hashed, only dressed up as a multihash.
func signOld(ad *schema.Advertisement, key crypto.PrivKey) error {
	var b bytes.Buffer
	if ad.PreviousID != nil {
		b.Write(ad.PreviousID.(cidlink.Link).Cid.Bytes())
	}
	b.Write(ad.Entries.(cidlink.Link).Cid.Bytes())
	b.WriteString(ad.Provider)
	for _, a := range ad.Addresses {
		b.WriteString(a)
	}
	b.Write(ad.Metadata)
	if ad.IsRm {
		b.WriteByte(1)
	} else {
		b.WriteByte(0)
	}
	id, err := multihash.Encode(b.Bytes(), multihash.SHA2_256)
	if err != nil {
		return err
	}
	env, err := record.Seal(sigRecord(id), key)
	if err != nil {
		return err
	}
	ad.Signature, err = env.Marshal()
	return err
}

// link signs the advertisement, puts it on top of the chain.
func (p *Publisher) link(a *Ad, ad schema.Advertisement) {
	if len(p.ads) > 0 {
		ad.PreviousID = cidlink.Link{Cid: p.ads[len(p.ads)-1].cid}
	}
	key := p.key
	if p.signProv {
		key = p.provK
	}
	sign := ad.Sign
	if p.oldSig&(1<<uint(len(p.all)%8)) != 0 {
		sign = func(k crypto.PrivKey) error { return signOld(&ad, k) }
	}
	if err := sign(key); err != nil {
		panic(err)
	}
	n, err := ad.ToNode()
	if err != nil {
		panic(err)
	}
	a.ad = ad
	a.cid = p.store(n)
	p.push(a)
}

func (p *Publisher) push(a *Ad) {
	a.idx = len(p.ads)
	p.ads = append(p.ads, a)
	p.all = append(p.all, a)
	p.byCid[a.cid] = a
}

func (p *Publisher) head() cid.Cid {
	if len(p.ads) == 0 {
		return cid.Undef
	}
	if p.headOf > 0 && p.headOf <= len(p.ads) {
		return p.ads[p.headOf-1].cid
	}
	return p.ads[len(p.ads)-1].cid
}

// signedHead is the wire form of the publisher's head.
func (p *Publisher) signedHead(c cid.Cid, key crypto.PrivKey) []byte {
	sig, err := key.Sign(c.Bytes())
	if err != nil {
		panic(err)
	}
	pk, err := crypto.MarshalPublicKey(key.GetPublic())
	if err != nil {
		panic(err)
	}
	n, err := qp.BuildMap(basicnode.Prototype.Any, 3, func(ma datamodel.MapAssembler) {
		qp.MapEntry(ma, "head", qp.Link(cidlink.Link{Cid: c}))
		qp.MapEntry(ma, "sig", qp.Bytes(sig))
		qp.MapEntry(ma, "pubkey", qp.Bytes(pk))
	})
	if err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	if err := dagjson.Encode(n, &buf); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// ---- reference model --------------------------------------------------------

// Model is what replaying advertisement chains oldest to newest gives.
type Model struct {
	ctxs map[peer.ID]map[string]*mctx
}

type mctx struct {
	md  string
	mhs map[string]bool
}

func newModel() *Model { return &Model{ctxs: map[peer.ID]map[string]*mctx{}} }

func (m *Model) apply(a *Ad) {
	if a.opaque {
		return
	}
	pc := m.ctxs[a.prov]
	if pc == nil {
		pc = map[string]*mctx{}
		m.ctxs[a.prov] = pc
	}
	switch a.kind {
	case adRm, adRmWithEntries:
		delete(pc, a.ctx)
	case adMeta:
		if c := pc[a.ctx]; c != nil {
			c.md = a.md
		}
	default:
		if len(a.mhs) == 0 {
			// Put without multihashes never reaches the store: nothing stored,
			// nothing updated.
			return
		}
		c := pc[a.ctx]
		if c == nil {
			c = &mctx{mhs: map[string]bool{}}
			pc[a.ctx] = c
		}
		c.md = a.md
		for _, h := range a.mhs {
			c.mhs[string(h)] = true
		}
	}
}

func (m *Model) lookup(h multihash.Multihash) []entry {
	var out []entry
	for p, pc := range m.ctxs {
		for ctx, c := range pc {
			if c.mhs[string(h)] {
				out = append(out, entry{p, ctx, c.md})
			}
		}
	}
	sortEntries(out)
	return out
}

func entriesEqual(a, b []entry) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func fmtEntries(es []entry) string {
	var s []string
	for _, e := range es {
		s = append(s, e.String())
	}
	return "[" + strings.Join(s, " ") + "]"
}
