package main

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"path"
	"strings"
	"time"

	"github.com/ipfs/go-cid"
)

// Net is the simulated HTTP network between the indexer and the publishers.
// It replaces http.DefaultTransport, so the real retrying HTTP client, its
// timeouts and the real go-legs HTTP sync run on top of it.
type Net struct {
	w     *World
	pubs  map[string]*Publisher
	other func(req *http.Request) (*http.Response, error) // non-publisher hosts
	// onBlock is called (atomically) when a block request is about to be
	// answered with data.
	onReq  func(p *Publisher, ask string)
	around func(p *Publisher, ask string, in bool)
	trace  func(ctx context.Context, p *Publisher, ask string) func(ok bool)
	tamper func(p *Publisher, ask string, body []byte) []byte
}

var (
	errRefused = errors.New("sim: connection refused")
	errReset   = errors.New("sim: connection reset by peer")
)

func newNet(w *World) *Net {
	n := &Net{w: w, pubs: map[string]*Publisher{}}
	http.DefaultTransport = n
	http.DefaultClient = &http.Client{Transport: n}
	return n
}

func (n *Net) add(p *Publisher) { n.pubs[p.host] = p }

type simBody struct {
	req  *http.Request
	r    *bytes.Reader
	err  error // error at the end of the data instead of EOF
	slow time.Duration
	hang bool
}

func (b *simBody) Read(p []byte) (int, error) {
	if err := b.req.Context().Err(); err != nil {
		return 0, err
	}
	if b.slow > 0 {
		t := time.NewTimer(b.slow)
		defer t.Stop()
		select {
		case <-t.C:
		case <-b.req.Context().Done():
			return 0, b.req.Context().Err()
		}
	}
	if len(p) > 64 && b.slow > 0 {
		p = p[:64]
	}
	m, err := b.r.Read(p)
	if err == io.EOF {
		if b.hang {
			<-b.req.Context().Done()
			return 0, b.req.Context().Err()
		}
		if b.err != nil {
			return m, b.err
		}
	}
	return m, err
}

func (b *simBody) Close() error { return nil }

func (n *Net) RoundTrip(req *http.Request) (rsp *http.Response, rerr error) {
	w := n.w
	gateSelf()
	if req.Body != nil {
		defer req.Body.Close()
	}
	p := n.pubs[req.URL.Host]
	if p == nil {
		if n.other != nil {
			return n.other(req)
		}
		return nil, errRefused
	}
	ask := path.Base(req.URL.Path)
	t := p.i
	ctx := req.Context()
	sleep := func(d time.Duration) error {
		if d <= 0 {
			return ctx.Err()
		}
		tm := time.NewTimer(d)
		defer tm.Stop()
		select {
		case <-tm.C:
			return nil
		case <-ctx.Done():
			return ctx.Err()
		}
	}
	w.hit("net.req")
	if n.onReq != nil {
		atomically(func() { n.onReq(p, ask) })
	}
	if n.trace != nil {
		end := n.trace(ctx, p, ask)
		defer func() { end(rerr == nil && rsp.StatusCode == 200) }()
	}
	if n.around != nil {
		n.around(p, ask, true)
		defer n.around(p, ask, false)
	}
	var lat int64
	if l := w.knob("netLat", 2000); l > 0 {
		atomically(func() { lat = w.rng.Int63n(l) })
	}
	if f := w.fault("net.slow", t); f != nil {
		lat += f.A
	}
	if err := sleep(time.Duration(lat) * time.Microsecond); err != nil {
		return nil, err
	}
	if p.down {
		if p.blackhole {
			<-ctx.Done()
			return nil, ctx.Err()
		}
		return nil, errRefused
	}
	if f := w.fault("net.part", t); f != nil {
		if f.A == 1 { // black hole
			<-ctx.Done()
			return nil, ctx.Err()
		}
		return nil, errRefused
	}
	if w.fault("net.hang", t) != nil {
		<-ctx.Done()
		return nil, ctx.Err()
	}
	if w.fault("net.refuse", t) != nil {
		return nil, errRefused
	}
	mk := func(code int, body []byte) *http.Response {
		return &http.Response{
			StatusCode: code, Status: http.StatusText(code), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{}, Body: &simBody{req: req, r: bytes.NewReader(body)}, ContentLength: -1, Request: req,
		}
	}
	if f := w.fault("net.status", t); f != nil {
		return mk(int(f.A), []byte("sim error")), nil
	}
	var body []byte
	found := true
	atomically(func() {
		if ask == "head" {
			h := p.head()
			if h == cid.Undef {
				found = false
				return
			}
			body = p.signedHead(h, p.key)
			return
		}
		b, ok := p.blocks[ask]
		found = ok
		body = append([]byte{}, b...)
	})
	if !found {
		return mk(404, []byte("cid not found")), nil
	}
	if n.tamper != nil {
		body = n.tamper(p, ask, body)
	}
	if f := w.fault("net.corrupt", t); f != nil && len(body) > 0 {
		i := int(uint64(f.A) % uint64(len(body)))
		body[i] ^= byte(1 << (uint(f.A>>8) % 7))
	}
	if f := w.fault("net.swap", t); f != nil {
		if b := n.swapBody(p, ask, f); b != nil {
			body = b
		}
	}
	resp := mk(200, body)
	sb := resp.Body.(*simBody)
	if f := w.fault("net.trunc", t); f != nil && len(body) > 0 {
		sb.r = bytes.NewReader(body[:int(uint64(f.A)%uint64(len(body)))])
		switch f.S {
		case "eof": // silently short
		case "hang":
			sb.hang = true
		default:
			sb.err = io.ErrUnexpectedEOF
		}
	}
	if f := w.fault("net.drip", t); f != nil {
		sb.slow = time.Duration(f.A) * time.Microsecond
	}
	if w.fault("net.lostreply", t) != nil {
		return nil, errReset
	}
	if p.onServe != nil {
		atomically(func() { p.onServe(ask) })
	}
	atomically(func() { p.served++ })
	w.hit("net.ok")
	return resp, nil
}

// swapBody picks another block (of this or another publisher) to serve.
func (n *Net) swapBody(p *Publisher, ask string, f *Fault) []byte {
	var res []byte
	atomically(func() {
		var keys []string
		src := p
		if f.S == "other" {
			for _, q := range n.sortedPubs() {
				if q != p {
					src = q
					break
				}
			}
		}
		for k := range src.blocks {
			if k != ask {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			return
		}
		sortStrings(keys)
		res = append([]byte{}, src.blocks[keys[int(uint64(f.A)%uint64(len(keys)))]]...)
	})
	return res
}

func (n *Net) sortedPubs() []*Publisher {
	var hs []string
	for h := range n.pubs {
		hs = append(hs, h)
	}
	sortStrings(hs)
	var out []*Publisher
	for _, h := range hs {
		out = append(out, n.pubs[h])
	}
	return out
}

// CloseIdleConnections satisfies http.Client.CloseIdleConnections.
func (n *Net) CloseIdleConnections() {}

func isHead(ask string) bool { return strings.EqualFold(ask, "head") }
