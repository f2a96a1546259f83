package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/multiformats/go-multihash"
)

// kinds of hostile advertisements: correctly signed, permanently unusable
const (
	evGarbageEntries = iota // first entry block is not decodable
	evWrongShape            // decodable, neither chunk nor HAMT
	evSecondGarbage         // the second chunk is garbage
	evSecondWrong           // the second chunk has the wrong shape
	evHamtBroken            // something is wrong inside a HAMT
	evHamtKeys              // HAMT whose keys are no multihashes
	evBadAddrs              // unparseable provider addresses
	evNoMetadata
	evNoMetadataNoEntries
	evNoMetadataHamt
	evHugeContext
	evEntriesIsAd // entries link names an advertisement
	evNoAddrs
	evEmptyContext
	evKinds
)

func (p *Publisher) rawEntry(b []byte) (ipld.Link, []string) {
	c := p.addRaw(b)
	return cidlink.Link{Cid: c}, []string{c.String()}
}

var wrongShapes = []string{
	`{}`, `[]`, `"string"`, `null`, `7`, `true`, `{"Entries":7}`, `{"Entries":["x"]}`, `{"Next":{"/":"LINK"},"Entries":null}`,
	`{"Entries":[{"/":{"bytes":"AAAA"}}],"Next":"notalink"}`, `{"Entries":[{"/":{"bytes":"AAAA"}}],"Next":7}`,
	`{"hamt":7,"hashAlg":1,"bucketSize":1}`, `{"hamt":null}`, `{"hamt":{"map":{"/":{"bytes":""}},"data":[]}}`,
	`{"Extra":1,"Entries":[]}`, `{"Entries":{"a":1}}`, `{"Entries":[[[]]]}`,
	`{"hashAlg":34,"bucketSize":-1,"hamt":{"map":{"/":{"bytes":"/w"}},"data":[]}}`,
	`{"hashAlg":34,"bucketSize":1,"hamt":{"map":{"/":{"bytes":"AQ"}},"data":[]}}`,
	`{"hashAlg":99999,"bucketSize":1,"hamt":{"map":{"/":{"bytes":"AQ"}},"data":[[[{"/":{"bytes":"YQ"}},true]]]}}`,
	`{"hashAlg":34,"bucketSize":1,"hamt":{"map":{"/":{"bytes":"AQ"}},"data":[7]}}`,
	`{"hashAlg":34,"bucketSize":1,"hamt":{"map":{"/":{"bytes":"AQ"}},"data":[[[7,7]]]}}`,
}

func (p *Publisher) undecodable(b []byte) bool {
	nb := basicnode.Prototype.Any.NewBuilder()
	return dagjson.Decode(nb, bytes.NewReader(b)) != nil
}

func (p *Publisher) wrongShape(op *Op) []byte {
	l := p.addRaw([]byte(`{"a":1}`))
	return []byte(strings.ReplaceAll(wrongShapes[int(op.B)%len(wrongShapes)], "LINK", l.String()))
}

// evil appends a hostile advertisement to the chain.
func (iw *IngWorld) evil(op *Op) {
	p := iw.pubs[op.P%len(iw.pubs)]
	kind := int(op.X % evKinds)
	if kind == evNoAddrs {
		// Without addresses nobody can be registered; this one is already.
		iw.preRegister()
	}
	atomically(func() {
		a := &Ad{kind: adChunks, prov: p.prov, opaque: true}
		a.md = fmt.Sprintf("evil-%d-%d", p.i, len(p.all))
		a.ctx = fmt.Sprintf("evil-ctx-%d", op.Y)
		ad := schema.Advertisement{
			Provider:  p.prov.String(),
			Addresses: p.addrs,
			ContextID: []byte(a.ctx),
			Metadata:  []byte(a.md),
			Entries:   schema.NoEntries,
		}
		for k := int64(0); k < 1+op.A; k++ {
			a.mhs = append(a.mhs, mhFor(op.Z+k))
		}
		first := func(next ipld.Link) {
			n, err := schema.EntryChunk{Entries: a.mhs, Next: next}.ToNode()
			iw.must(err)
			c := p.store(n)
			ad.Entries = cidlink.Link{Cid: c}
			a.blocks = append(a.blocks, c.String())
		}
		p.raw = nil
		switch kind {
		case evGarbageEntries:
			// cannot be told from a failing transfer: such a chain is stuck
			a.stuck = true
			ad.Entries, a.blocks = p.rawEntry([]byte(fmt.Sprintf("garbage %d {[", op.B)))
		case evWrongShape:
			ad.Entries, a.blocks = p.rawEntry(p.wrongShape(op))
		case evSecondGarbage:
			a.stuck = true
			l, _ := p.rawEntry([]byte(fmt.Sprintf("garbage %d }", op.B)))
			first(l)
		case evSecondWrong:
			l, _ := p.rawEntry(p.wrongShape(op))
			first(l)
		case evHamtBroken:
			ad.Entries, a.blocks = p.brokenHamt(a.mhs, op)
		case evHamtKeys:
			var ks []multihash.Multihash
			for i := range a.mhs {
				ks = append(ks, multihash.Multihash(fmt.Sprintf("key %d", i)))
			}
			ad.Entries, a.blocks = p.hamtEntries(ks, 3)
		case evBadAddrs:
			ad.Addresses = [][]string{{"nonsense"}, {""}, {"/ip4/300.1.1.1/tcp/1"}, {"/ip4/1.2.3.4/tcp/99", "/bogus/1"}}[int(op.B)%4]
			ad.Entries, a.blocks = p.chunks(a.mhs, 3)
		case evNoMetadata:
			ad.Metadata = nil
			ad.Entries, a.blocks = p.chunks(a.mhs, 3)
		case evNoMetadataNoEntries:
			ad.Metadata = nil
		case evNoMetadataHamt:
			ad.Metadata = nil
			ad.Entries, a.blocks = p.hamtEntries(a.mhs, 3)
		case evHugeContext:
			ad.ContextID = []byte(strings.Repeat("x", 5000))
			ad.Entries, a.blocks = p.chunks(a.mhs, 3)
		case evEntriesIsAd:
			if len(p.ads) > 0 {
				ad.Entries = cidlink.Link{Cid: p.ads[len(p.ads)-1].cid}
			}
		case evNoAddrs:
			ad.Addresses = nil
			ad.Entries, a.blocks = p.chunks(a.mhs, 3)
		case evEmptyContext:
			ad.ContextID = nil
			ad.Entries, a.blocks = p.chunks(a.mhs, 3)
		}
		for _, b := range p.raw {
			if p.undecodable(b) {
				a.stuck = true
			}
		}
		if ad.Metadata == nil {
			ad.Metadata = []byte{}
		}
		if ad.ContextID == nil {
			ad.ContextID = []byte{}
		}
		if ad.Addresses == nil {
			ad.Addresses = []string{}
		}
		p.link(a, ad)
		iw.byMd[a.md] = a
		iw.pubOf[a] = p
		for _, m := range a.mhs {
			iw.universe[string(m)] = m
		}
		iw.count[fmt.Sprintf("evil:%d", kind)]++
	})
	iw.event("evil ad on pub%d kind %d", p.i, kind)
}

// brokenHamt builds a HAMT and damages one of its nodes (and re-links so that
// every block still matches its CID).
func (p *Publisher) brokenHamt(mhs []multihash.Multihash, op *Op) (ipld.Link, []string) {
	p.onlyJSON = true
	l, cids := p.hamtEntries(mhs, 3)
	p.onlyJSON = false
	root := l.(cidlink.Link).Cid
	var v map[string]interface{}
	if err := json.Unmarshal(p.blocks[root.String()], &v); err != nil {
		panic(err)
	}
	n := mutateJSON(v, int(op.B), p.addRaw([]byte(`{"a":1}`)).String())
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	c := p.addRaw(b)
	return cidlink.Link{Cid: c}, append(cids, c.String())
}

// mutateJSON changes the nth spot of a JSON tree.
func mutateJSON(v interface{}, n int, link string) interface{} {
	// count the spots
	cnt := 0
	var walk func(x interface{}, do int) interface{}
	repl := []interface{}{nil, 7, -1, "x", []interface{}{}, map[string]interface{}{}, true,
		map[string]interface{}{"/": map[string]interface{}{"bytes": "AA"}},
		map[string]interface{}{"/": map[string]interface{}{"bytes": "/////w"}},
		map[string]interface{}{"/": link}}
	walk = func(x interface{}, do int) interface{} {
		me := cnt
		cnt++
		if me == do {
			return repl[(n/7)%len(repl)]
		}
		switch t := x.(type) {
		case map[string]interface{}:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sortStrings(ks)
			out := map[string]interface{}{}
			for _, k := range ks {
				out[k] = walk(t[k], do)
			}
			return out
		case []interface{}:
			out := []interface{}{}
			for _, e := range t {
				out = append(out, walk(e, do))
			}
			return out
		}
		return x
	}
	walk(v, -1)
	total := cnt
	cnt = 0
	if total < 2 {
		return v
	}
	return walk(v, 1+n%(total-1))
}

var _ = cid.Undef
