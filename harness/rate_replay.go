package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/verifclock/vclock"
	"github.com/ipfs/go-cid"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multihash"
)

func init() { runners["RateLimit"] = runRate }

const rateTick = 250 * time.Millisecond

type rSet struct {
	Apply  bool
	Except []string
	Rate   int
	Burst  int
}

type rStepExp struct {
	Got  map[string]int
	Done map[string]int
	Busy []string
}

type rlStep struct {
	Op  string
	Pub string
	N   int
	Set rSet
	Bad string
	Exp rStepExp
}

// runRate replays syncs of publishers that are subject to rate limiting, or not,
// under a clock that stands still until it is moved.
func runRate(tr Trace, o Opts, r *Result) {
	var steps []rlStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	seg := []int{0, 1, 2, 100}[rng.Intn(4)]
	batch := []int{1, 2, 256}[rng.Intn(3)]
	r.Env = fmt.Sprintf("segment=%d batch=%d", seg, batch)
	w := newWorld(rng, 2, "chunk")
	defer w.close()
	// (in the past: deadlines of contexts are not of this clock)
	vclock.Fake(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC))
	settings := func(c rSet) config.RateLimit {
		rl := config.RateLimit{Apply: c.Apply, BlocksPerSecond: c.Rate, BurstSize: c.Burst}
		for _, p := range c.Except {
			rl.Except = append(rl.Except, ident(p).ID.String())
		}
		return rl
	}
	dur := newDurable()
	ncfg := NodeCfg{Policy: allowAll(), Workers: 4, Batch: batch, SegDepth: seg}
	n, err := startNode(dur, ncfg)
	if err != nil {
		broken("start: %v", err)
	}
	defer func() {
		// let what waits go on
		done := make(chan bool, 1)
		go func() { done <- n.close(5 * time.Second) }()
		for k := 0; k < 5000; k++ {
			vclock.Advance(10 * time.Second)
			select {
			case <-done:
				return
			case <-time.After(time.Millisecond):
			}
		}
	}()

	running := map[string]<-chan cid.Cid{}
	got := func() map[string]int {
		m := map[string]int{}
		for p, ch := range w.chains {
			ch.mu.Lock()
			m[p] = ch.nfetch + ch.nhead
			ch.mu.Unlock()
		}
		return m
	}
	nth := 0
	for i, s := range steps {
		r.Step = i
		switch s.Op {
		case "publish":
			ch := w.chain(s.Pub)
			k := len(w.ads[s.Pub]) + 1
			id := fmt.Sprintf("%s#%d", s.Pub, k)
			link := ipld.Link(schema.NoEntries)
			if s.N > 0 {
				var parts [][]multihash.Multihash
				for j := 0; j < s.N; j++ {
					nth++
					parts = append(parts, []multihash.Multihash{mhKind(fmt.Sprintf("rate/%d", nth), nth)})
				}
				link, _ = ch.chunks(parts)
			}
			ad := schema.Advertisement{Provider: ident(s.Pub).ID.String(), Addresses: []string{adAddr(id)}, Entries: link,
				ContextID: []byte("ctx-" + id), Metadata: []byte(id)}
			if k > 1 {
				ad.PreviousID = cidlink.Link{Cid: w.ads[s.Pub][k-2].cid}
			}
			c := ch.storeAd(ad, ident(s.Pub).Priv)
			w.ads[s.Pub] = append(w.ads[s.Pub], &pubAd{cid: c, id: id})
			w.ids[c] = id
			ch.setHead(c)
		case "sync":
			res, err := n.ing.Sync(context.Background(), ident(s.Pub).ID, w.chain(s.Pub).addr(), 0, false)
			if err != nil {
				fail("a sync", err.Error(), "step %d: sync of %s refused", i, s.Pub)
			}
			running[s.Pub] = res
		case "announce":
			ch := w.chain(s.Pub)
			if err := n.ing.Announce(context.Background(), ch.getHead(), peer.AddrInfo{ID: ident(s.Pub).ID, Addrs: ma(ch.addr())}); err != nil {
				fail("accepted", err.Error(), "step %d: announcement by %s", i, s.Pub)
			}
		case "set":
			c := settings(s.Set)
			switch s.Bad {
			case "rate":
				c.BlocksPerSecond = -1 - rng.Intn(3)
			case "burst":
				c.BurstSize = -1 - rng.Intn(3)
			case "peer":
				c.Except = append(c.Except, "12D3KooWnotapeer")
			}
			err := n.ing.SetRateLimit(c)
			if (err == nil) != (s.Bad == "no") {
				fail(s.Bad, fmt.Sprint(err), "step %d: setting the rate limit: wrong result", i)
			}
		case "restart":
			if !n.close(o.Wait) {
				fail("closed", "still closing", "step %d: close does not end", i)
			}
			n.in.kill()
			vclock.Fake(vclock.Now())
			ncfg.RateLimit = settings(s.Set)
			nn, err := startNode(dur, ncfg)
			if err != nil {
				fail("started", err.Error(), "step %d: cannot start on the existing stores", i)
			}
			n = nn
		case "tick":
			vclock.Advance(rateTick)
		default:
			broken("unknown op %q", s.Op)
		}
		// everything goes on until it has ended or waits
		exp := s.Exp
		sort.Strings(exp.Busy)
		var ob rStepExp
		var waits int
		look := func() bool {
			waits = vclock.Pending("x/time/rate")
			ob = rStepExp{Got: got(), Done: map[string]int{}}
			for p := range exp.Got {
				if _, ok := ob.Got[p]; !ok {
					ob.Got[p] = 0
				}
				ob.Done[p] = 0
				c, err := n.ing.GetLatestSync(ident(p).ID)
				if err != nil {
					fail("progress", err.Error(), "step %d: progress of %s", i, p)
				}
				if id := w.idOf(c); id != "none" {
					_, ob.Done[p] = splitID(id)
				}
			}
			for p, res := range running {
				select {
				case c, ok := <-res:
					if !ok || len(w.ads[p]) == 0 || c != w.ads[p][len(w.ads[p])-1].cid {
						fail("the head", fmt.Sprint(c, ok), "step %d: the sync of %s ends without having processed the head", i, p)
					}
					delete(running, p)
				default:
				}
			}
			// the progress of those that go on may be anywhere in between
			for _, p := range exp.Busy {
				if ob.Done[p] >= exp.Done[p] && ob.Done[p] <= len(w.ads[p]) {
					ob.Done[p] = exp.Done[p]
				}
			}
			for p := range running {
				if !contains(exp.Busy, p) {
					return false
				}
			}
			return reflect.DeepEqual(ob.Got, exp.Got) && reflect.DeepEqual(ob.Done, exp.Done) && waits == len(exp.Busy)
		}
		ok := poll(o.Wait, func() bool {
			if look() {
				return true
			}
			for p, g := range ob.Got {
				if g > exp.Got[p] {
					return true
				}
			}
			return false
		})
		for p, g := range ob.Got {
			if g > exp.Got[p] {
				fail(exp, ob, "step %d (%s): more was fetched from %s than it may be", i, s.Op, p)
			}
		}
		if !ok {
			fail(exp, ob, "step %d (%s): %d walks wait for the rate limit; what was fetched or processed is wrong", i, s.Op, waits)
		}
	}
}
