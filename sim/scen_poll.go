package main

import (
	"context"
	"fmt"
	"math/rand"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// P12: polling over days of simulated time. The oracle knows when each
// publisher was up, when there certainly was contact, and the settings that
// apply to each provider.

type pollPub struct {
	p                     *Publisher
	interval, retry, stop time.Duration
	up                    bool
	since                 time.Time // up or down since
	contact               time.Time // there was contact at this time or later (this incarnation)
	contactUB             time.Time // and none after this, other than by polling or ingestion
	published             []time.Time
	headAt                time.Time // poll request seen while up, not yet known to have succeeded
	zeroAt                time.Time // when contact was last reset
	asked                 time.Time // when the publisher was last asked for anything
	have                  int       // advertisements ingested
	wasReg                bool      // has been registered, and not been removed for good
	gone                  bool      // removed, justly or by an operator
	inactive              bool      // as last observed
	mayGo                 bool      // may have been removed before the last restart
}

type PollWorld struct {
	*IngWorld
	pp     map[*Publisher]*pollPub
	round  time.Duration
	bootAt time.Time
	nopub  peer.ID
	inc    int
	mu     map[*Publisher]bool // an operator call about it is in progress
}

const pollSlack = 30 * time.Second

func secKnob(w *World, name string, def int64) time.Duration {
	return time.Duration(w.knob(name, def)) * time.Second
}

func runPoll(w *World) {
	iw := newIngWorld(w)
	pw := &PollWorld{IngWorld: iw, pp: map[*Publisher]*pollPub{}, mu: map[*Publisher]bool{}}
	d := &iw.node.dcfg
	pw.round = time.Duration(d.PollRetryAfter)
	for _, p := range iw.pubs {
		q := &pollPub{p: p, up: true, since: time.Now(),
			interval: time.Duration(d.PollInterval), retry: time.Duration(d.PollRetryAfter), stop: time.Duration(d.PollStopAfter)}
		if n := fmt.Sprint(p.i); w.knob("ovR"+n, 0) != 0 {
			q.interval, q.retry, q.stop = secKnob(w, "ovI"+n, 0), secKnob(w, "ovR"+n, 0), secKnob(w, "ovS"+n, 0)
			d.PollOverrides = append(d.PollOverrides, config.Polling{ProviderID: p.prov.String(),
				Interval: config.Duration(q.interval), RetryAfter: config.Duration(q.retry), StopAfter: config.Duration(q.stop)})
			if q.retry < pw.round {
				pw.round = q.retry
			}
		}
		pw.pp[p] = q
	}
	if pw.round < time.Minute {
		pw.round = time.Minute
	}
	iw.node.vs.onPut = func(h *VHandle, v indexer.Value, mhs []multihash.Multihash) {
		if a := iw.byMd[string(v.MetadataBytes)]; a != nil {
			q := pw.pp[iw.pubOf[a]]
			q.touched(time.Now())
			q.wasReg, q.gone = true, false
			if q.have < a.idx+1 {
				q.have = a.idx + 1
			}
		}
	}
	iw.net.onReq = func(p *Publisher, ask string) {
		pw.pp[p].asked = time.Now()
		if ask == "head" {
			pw.hit("poll.request")
			if q := pw.pp[p]; q.up {
				q.headAt = time.Now()
			}
		}
	}
	pw.bootAt = time.Now()
	iw.must(iw.node.start())
	iw.onRestart = func() {
		now := time.Now()
		boot := pw.bootAt
		pw.bootAt = now
		for _, q := range pw.pp {
			// It may have been removed before the crash, unobserved.
			if q.contact.IsZero() {
				q.mayGo = now.Sub(later(boot, q.zeroAt)) >= q.stop-pollSlack
			} else {
				q.mayGo = now.Sub(q.contact) >= q.interval+q.stop-pollSlack
			}
			q.contact, q.headAt = time.Time{}, time.Time{}
		}
	}
	iw.keepAlive()
	// Every publisher has something, and is known.
	for i, p := range iw.pubs {
		pw.pub(&Op{P: p.i, X: adChunks, Y: 0, A: 3, B: 2, Z: int64(1000 * (i + 1))})
	}
	iw.preRegister()
	pw.nopub = idFor("nopub", 0)
	iw.must(iw.node.reg.Register(context.Background(), &registry.ProviderInfo{
		AddrInfo: peer.AddrInfo{ID: pw.nopub, Addrs: []multiaddr.Multiaddr{mustAddr("/ip4/10.7.7.7/tcp/77")}}}))
	for _, p := range iw.pubs {
		_ = iw.announce(p, p.head())
		pw.pp[p].contact, pw.pp[p].contactUB = time.Now(), time.Now()
		pw.pp[p].wasReg = true
	}
	for _, p := range iw.pubs {
		if !iw.waitLatest(p, len(p.ads), time.Hour) {
			pw.failP("P12", "not-ingested", "publisher %d: first announcement was not ingested", p.i)
			return
		}
	}
	w.event("polling starts, round %s", pw.round)
	stop := make(chan struct{})
	done := make(chan struct{})
	go pw.watch(stop, done)
	wait := w.runClients(pw.exec)
	if !wait(100*365*24*time.Hour) || w.failed() {
		close(stop)
		return
	}
	// Everybody comes back and stays.
	for _, p := range iw.pubs {
		pw.setUp(p, true, false)
	}
	var longest time.Duration
	for _, q := range pw.pp {
		if q.interval > longest {
			longest = q.interval
		}
	}
	time.Sleep(longest + 5*pw.round + 5*time.Minute)
	close(stop)
	<-done
	if w.failed() {
		return
	}
	iw.up()
	// Those that were not removed are served, with everything they have.
	var keep []*Publisher
	for _, p := range iw.pubs {
		if q := pw.pp[p]; !q.gone {
			keep = append(keep, p)
			pw.hit("final.kept")
			if iw.node.reg.ProviderInfo(p.prov) == nil {
				pw.failP("P12", "not-served", "provider %d was not removed and its publisher is up, but it is not served", p.i)
				return
			}
			if n := q.have; n != len(p.ads) {
				pw.failP("P12", "not-polled", "publisher %d: only %d of its %d advertisements were ingested although it is up and polled", p.i, n, len(p.ads))
				return
			}
		} else {
			pw.hit("final.gone")
		}
	}
	iw.ignore = func(e entry) bool {
		for _, p := range keep {
			if p.prov == e.Prov {
				return false
			}
		}
		return true
	}
	if d := iw.diff(iw.model(nil)); d != "" {
		pw.failP("P12", "data-lost", "after outages and polling: %s", d)
	}
}

// touched records contact with the publisher.
func (q *pollPub) touched(t time.Time) {
	if t.After(q.contact) {
		q.contact = t
	}
}

func (pw *PollWorld) pub(op *Op) {
	p := pw.pubs[op.P%len(pw.pubs)]
	pw.publish(op)
	atomically(func() { pw.pp[p].published = append(pw.pp[p].published, time.Now()) })
}

func (pw *PollWorld) setUp(p *Publisher, up, hole bool) {
	atomically(func() {
		q := pw.pp[p]
		p.down, p.blackhole = !up, hole
		if q.up != up {
			q.up, q.since = up, time.Now()
			q.headAt = time.Time{}
		}
	})
}

func (pw *PollWorld) exec(op *Op) {
	pw.up()
	p := pw.pubs[op.P%len(pw.pubs)]
	q := pw.pp[p]
	switch op.K {
	case "pub":
		pw.pub(op)
	case "down":
		pw.setUp(p, false, op.A == 1)
	case "upp":
		pw.setUp(p, true, false)
	case "wait":
	case "reg":
		atomically(func() { pw.mu[p] = true })
		t0 := time.Now()
		var err error
		ok, _ := pw.node.onNode(time.Hour, func() {
			err = pw.node.reg.Register(context.Background(), &registry.ProviderInfo{
				AddrInfo:  peer.AddrInfo{ID: p.prov, Addrs: []multiaddr.Multiaddr{mustAddr(p.addrs[0])}},
				Publisher: p.id, PublisherAddr: p.addr,
			})
		})
		atomically(func() {
			delete(pw.mu, p)
			// A registration made directly says nothing about contact.
			q.contact, q.headAt, q.zeroAt = time.Time{}, time.Time{}, t0
			if ok && err == nil {
				q.wasReg, q.gone = true, false
				q.contactUB = time.Now()
			}
		})
	case "rmprov":
		atomically(func() { pw.mu[p] = true })
		pw.node.onNode(time.Hour, func() { _ = pw.node.reg.RemoveProvider(context.Background(), p.prov) })
		atomically(func() { delete(pw.mu, p); q.wasReg, q.gone = false, true })
	default:
		pw.IngWorld.exec(op)
	}
}

// watch looks at the registry from time to time.
func (pw *PollWorld) watch(stop, done chan struct{}) {
	defer close(done)
	for i := 0; ; i++ {
		select {
		case <-stop:
			return
		case <-time.After(pw.round/3 + time.Duration(i%7)*time.Second):
		}
		if pw.failed() {
			return
		}
		pw.up()
		reg := pw.node.reg
		var infoN, regN bool
		pw.node.onNode(time.Hour, func() {
			infoN = reg.ProviderInfo(pw.nopub) != nil
			regN = true
		})
		if regN && !infoN && pw.node.reg == reg {
			pw.failP("P12", "dropped-without-publisher", "a provider that has no publisher to poll is no longer served")
			return
		}
		for _, p := range pw.pubs {
			var active, registered, active2 bool
			ok, hung := pw.node.onNode(time.Hour, func() {
				active = reg.ProviderInfo(p.prov) != nil
				registered = reg.IsRegistered(p.prov)
				active2 = reg.ProviderInfo(p.prov) != nil
			})
			if hung {
				pw.failP("P12", "registry-hangs", "the registry does not answer")
				return
			}
			if !ok || pw.node.reg != reg {
				break
			}
			atomically(func() { pw.judge(p, active, registered, active2) })
			if pw.failed() {
				return
			}
		}
	}
}

func (pw *PollWorld) judge(p *Publisher, active, registered, active2 bool) {
	q := pw.pp[p]
	now := time.Now()
	if pw.mu[p] {
		return
	}
	if registered {
		q.mayGo = false
	}
	if registered && active && active2 {
		if q.inactive {
			pw.hit("reactivated")
		}
		q.inactive = false
		if q.gone && !q.wasReg {
			q.gone, q.wasReg = false, true
		}
	}
	// a poll request that the publisher, staying up, answered
	if !q.headAt.IsZero() && q.up && now.Sub(q.headAt) > pollSlack {
		q.touched(q.headAt)
	}
	// last contact, as far as is known
	silent := now.Sub(q.contact)
	reset := now.Sub(later(pw.bootAt, q.zeroAt))
	isInactive := registered && !active && !active2
	isGone := !registered && !active && !active2
	upFor := time.Duration(0)
	if q.up {
		upFor = now.Sub(later(q.since, pw.bootAt))
	}
	switch {
	case isInactive:
		pw.hit("seen.inactive")
		q.inactive = true
		if upFor > 2*pw.round+2*pollSlack {
			pw.failP("P12", "live-inactive", "provider %d is inactive although its publisher has been answering for %s", p.i, upFor)
		} else if !q.contact.IsZero() && silent < q.interval+2*q.retry-pollSlack {
			pw.failP("P12", "inactive-early", "provider %d is inactive %s after the last contact; its settings are interval %s, retry %s", p.i, silent, q.interval, q.retry)
		} else if q.contact.IsZero() && reset < 2*q.retry-pollSlack {
			pw.failP("P12", "inactive-early", "provider %d is inactive %s after a restart; its settings are interval %s, retry %s", p.i, reset, q.interval, q.retry)
		}
	case isGone && q.wasReg:
		pw.hit("seen.removed")
		q.wasReg, q.gone = false, true
		if q.mayGo {
			pw.hit("removed.before.restart")
		} else if upFor > 2*pw.round+2*pollSlack {
			pw.failP("P12", "live-removed", "provider %d was removed although its publisher has been answering for %s", p.i, upFor)
		} else if !q.contact.IsZero() && silent < q.interval+q.stop-pollSlack {
			pw.failP("P12", "removed-early", "provider %d was removed %s after the last contact; its settings are interval %s, stop %s", p.i, silent, q.interval, q.stop)
		} else if q.contact.IsZero() && reset < q.stop-pollSlack {
			pw.failP("P12", "removed-early", "provider %d was removed %s after a restart; its settings are interval %s, stop %s", p.i, reset, q.interval, q.stop)
		}
	case registered && active && active2:
		// An unreachable publisher does not stay for ever.
		if !q.up {
			base := later(later(q.since, q.contactUB), pw.bootAt.Add(2*pw.round)).Add(2 * pollSlack)
			if d := now.Sub(base); d > q.interval+2*q.retry+2*pw.round {
				pw.failP("P12", "dead-active", "provider %d is still active %s after its publisher became unreachable; its settings are interval %s, retry %s", p.i, d, q.interval, q.retry)
			}
		}
	}
	if registered && !q.up {
		base := later(later(q.since, q.contactUB), pw.bootAt.Add(2*pw.round)).Add(2 * pollSlack)
		if d := now.Sub(base); d > q.interval+q.stop+2*pw.round {
			pw.failP("P12", "dead-registered", "provider %d is still registered %s after its publisher became unreachable; its settings are interval %s, stop %s", p.i, d, q.interval, q.stop)
		}
	}
	// Silence, also from before a restart, is what polling is for.
	if registered && q.up && !q.gone {
		quiet := now.Sub(later(later(q.asked, q.contactUB), q.since))
		if quiet > q.interval+2*pw.round+4*pollSlack && now.Sub(pw.bootAt) > 3*pw.round+4*pollSlack {
			pw.failP("P12", "not-polled", "publisher %d has been up and silent for %s and was not polled; its poll interval is %s", p.i, quiet, q.interval)
		}
		if now.Sub(pw.bootAt) > 3*pw.round && q.asked.Before(pw.bootAt) && q.contactUB.Before(pw.bootAt) {
			pw.hit("quiet.since.restart")
		}
	}
	// New advertisements nobody announced are ingested all the same.
	if registered && q.up && !q.gone {
		if n := q.have; n < len(q.published) {
			base := later(later(later(q.published[n], q.since), q.contactUB), pw.bootAt.Add(2*pw.round))
			if d := now.Sub(base); d > q.interval+2*pw.round+4*pollSlack {
				pw.failP("P12", "not-polled", "publisher %d: its advertisement %d is not ingested %s after it was published, the publisher being up; its poll interval is %s", p.i, n, d, q.interval)
			}
		}
	}
}

func later(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

func genPoll(r *rand.Rand, p *Plan, tier string) {
	np := genBase(r, p, genOpts{maxPubs: 5, maxAds: 1, syncs: 1, noAnn: true})
	k := p.Knobs
	p.Ops, p.Faults = nil, nil
	if np < 2 && chance(r, 70) {
		np = 2 + r.Intn(4)
		k["pubs"] = int64(np)
	}
	k["provDelta"] = r.Int63n(1 << uint(np))
	k["cache"] = 0
	k["rate"] = 0
	retry := pick(r, 60, 60, 300, 300, 3600, 18000)
	interval := retry * pick(r, 1, 2, 5, 10) / pick(r, 1, 1, 3)
	stop := retry * pick(r, 4, 8, 33)
	k["pollRetry"], k["pollInterval"], k["pollStop"] = retry, interval, stop
	type set struct{ i, r, s int64 }
	of := map[int]set{}
	round := retry
	for i := 0; i < np; i++ {
		of[i] = set{interval, retry, stop}
		if chance(r, 40) {
			rr := retry * pick(r, 1, 2, 3) / pick(r, 1, 2, 4)
			if rr < 60 {
				rr = 60
			}
			s := set{rr * pick(r, 1, 3, 12), rr, rr * pick(r, 4, 10, 30)}
			of[i] = s
			n := fmt.Sprint(i)
			k["ovI"+n], k["ovR"+n], k["ovS"+n] = s.i, s.r, s.s
			if rr < round {
				round = rr
			}
		}
	}
	if round < 60 {
		round = 60
	}
	budget := round * 700 // simulated seconds
	for i := 0; i < np; i++ {
		s := of[i]
		left := budget
		up := true
		for n := 0; n < 2+r.Intn(9) && left > 0; n++ {
			gap := pick(r, s.i/3, s.i, s.i+s.r, s.i+2*s.r, s.i+3*s.r, s.i+s.s/2, s.i+s.s, s.i+s.s+3*s.r, 2*s.i+s.s)
			gap += r.Int63n(s.r + 1)
			if chance(r, 30) {
				gap = r.Int63n(120)
			}
			if gap > left {
				gap = left
			}
			left -= gap
			op := Op{C: i, P: i, D: gap*1000000 + r.Int63n(1000000)}
			switch c := r.Intn(100); {
			case c < 35:
				up = !up
				op.K = "upp"
				if !up {
					op.K, op.A = "down", r.Int63n(2)
				}
			case c < 60:
				op.K, op.X, op.Y, op.A, op.B, op.Z = "pub", pick(r, adChunks, adHamt, adMeta), r.Int63n(3), 1+r.Int63n(4), 2, int64(1000*(i+1)+10*(n+1))
			case c < 80:
				op.K, op.X, op.Y, op.A, op.B, op.Z = "pub", adChunks, r.Int63n(3), 1+r.Int63n(4), 2, int64(1000*(i+1)+10*(n+1))
				p.Ops = append(p.Ops, op)
				op = Op{C: i, P: i, D: r.Int63n(1000), K: "ann"}
			case c < 88:
				op.K = "wait"
			case c < 94:
				op.K = "reg"
			case c < 97:
				op.K = "rmprov"
			default:
				op.K = "crash"
			}
			p.Ops = append(p.Ops, op)
		}
		if chance(r, 50) && left > 0 {
			p.Ops = append(p.Ops, Op{C: i, P: i, D: left * 1000000 / 2, K: "wait"})
		}
	}
}

func init() {
	register("poll", &Scenario{run: runPoll, gen: genPoll}, "P12")
}
