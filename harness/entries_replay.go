package main

import (
	"context"
	"encoding/json"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Entries"] = runEntries }

type eStep struct {
	Op, Pub, Ctx string
	Ad           string
	N            int
	Pubs         []string
	Share        []string
	Ents         struct {
		Enc    string
		Chunks [][]string
	}
	Exp struct{ Idx [][]string }
}

// badMh makes something that is not a multihash.
func (w *world) badMh(i int) multihash.Multihash {
	switch w.rng.Intn(5) {
	case 0:
		return multihash.Multihash(fmt.Sprintf("not a multihash %d", i))
	case 1: // digest shorter than it says
		m := mhOf(fmt.Sprint("short", i))
		return m[:len(m)-1]
	case 2: // trailing byte
		return append(mhOf(fmt.Sprint("long", i)), 1)
	case 3:
		return multihash.Multihash{0x12}
	default:
		return multihash.Multihash{byte(i)}
	}
}

// entMhs expands labels into multihashes in some order.
func (w *world) entMhs(labels []string, salt int) []multihash.Multihash {
	var out []multihash.Multihash
	for _, l := range labels {
		if l == "bad" {
			for k := 0; k < 1+w.rng.Intn(3); k++ {
				out = append(out, w.badMh(salt*10+k))
			}
			continue
		}
		out = append(out, w.mhs(l)...)
	}
	w.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// storeLinked stores a node, in CBOR if asked to.
func (ch *Chain) chunkAs(mhs []multihash.Multihash, next ipld.Link, cbor bool) ipld.Link {
	n, err := schema.EntryChunk{Entries: mhs, Next: next}.ToNode()
	if err != nil {
		broken("chunk: %v", err)
	}
	lp := schema.Linkproto
	if cbor {
		lp.Prefix.Codec = cid.DagCBOR
	}
	ls := ch.lsys()
	l, err := ls.Store(ipld.LinkContext{}, lp, n)
	if err != nil {
		broken("chunk: %v", err)
	}
	return l
}

func runEntries(tr Trace, o Opts, r *Result) {
	var cfg struct {
		Limit                int
		Workers, Batch, Seg  int
		Expand, Bits, Bucket int
		Cbor                 bool
	}
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []eStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	cfg.Workers = []int{1, 2, 3}[rng.Intn(3)]
	cfg.Batch = []int{1, 2, 3, 4, 10, 256}[rng.Intn(6)]
	cfg.Seg = []int{0, 1, 2, 3, 100}[rng.Intn(5)]
	cfg.Expand = []int{1, 2, 3, 5, 8, 16}[rng.Intn(6)]
	cfg.Bits = []int{3, 3, 4, 5}[rng.Intn(4)]
	cfg.Bucket = 1 + rng.Intn(3)
	cfg.Cbor = rng.Intn(4) == 0
	r.Env = fmt.Sprintf("workers=%d batch=%d segment=%d expand=%d bits=%d bucket=%d cbor=%v", cfg.Workers, cfg.Batch, cfg.Seg, cfg.Expand, cfg.Bits, cfg.Bucket, cfg.Cbor)
	w := newWorld(rng, cfg.Expand, "")
	defer w.close()
	ncfg := NodeCfg{Policy: allowAll(), Workers: cfg.Workers, Batch: cfg.Batch, SegDepth: cfg.Seg, EntDepth: cfg.Limit}
	dur := newDurable()
	n, err := startNode(dur, ncfg)
	if err != nil {
		broken("start: %v", err)
	}
	defer func() { n.close(5 * time.Second) }()
	ents := map[string]ipld.Link{}
	blocks := map[string][]cid.Cid{} // entries blocks by ad, in chain order
	salt := 0

	for i, s := range steps {
		r.Step = i
		switch s.Op {
		case "publish":
			ch := w.chain(s.Pub)
			nth := len(w.ads[s.Pub]) + 1
			id := fmt.Sprintf("%s#%d", s.Pub, nth)
			var link ipld.Link
			salt++
			if len(s.Share) > 0 {
				link = ents[s.Share[0]]
				blocks[id] = blocks[s.Share[0]]
				from := w.chain(strings.Split(s.Share[0], "#")[0])
				if from != ch {
					from.mu.Lock()
					bs := map[cid.Cid][]byte{}
					for k, v := range from.blocks {
						bs[k] = v
					}
					from.mu.Unlock()
					ch.mu.Lock()
					for k, v := range bs {
						if _, ok := ch.blocks[k]; !ok {
							ch.blocks[k] = v
						}
					}
					ch.mu.Unlock()
				}
			} else if s.Ents.Enc == "hamt" {
				ch.mu.Lock()
				before := map[cid.Cid]bool{}
				for k := range ch.blocks {
					before[k] = true
				}
				ch.mu.Unlock()
				mhs := w.entMhs(s.Ents.Chunks[0], salt)
				link = ch.hamtOf(mhs, cfg.Bits, cfg.Bucket)
				cs := []cid.Cid{link.(cidlink.Link).Cid}
				ch.mu.Lock()
				for k := range ch.blocks {
					if !before[k] && k != cs[0] {
						cs = append(cs, k)
					}
				}
				ch.mu.Unlock()
				blocks[id] = cs
			} else {
				var next ipld.Link
				cs := make([]cid.Cid, len(s.Ents.Chunks))
				for k := len(s.Ents.Chunks) - 1; k >= 0; k-- {
					next = ch.chunkAs(w.entMhs(s.Ents.Chunks[k], salt*100+k), next, cfg.Cbor)
					cs[k] = next.(cidlink.Link).Cid
				}
				link = next
				blocks[id] = cs
			}
			ents[id] = link
			sch := schema.Advertisement{Provider: ident(s.Pub).ID.String(), Addresses: []string{adAddr(id)}, Entries: link,
				ContextID: []byte("ctx-" + s.Ctx), Metadata: []byte(id)}
			if nth > 1 {
				sch.PreviousID = cidlink.Link{Cid: w.ads[s.Pub][nth-2].cid}
			}
			c := ch.storeAd(sch, ident(s.Pub).Priv)
			w.ads[s.Pub] = append(w.ads[s.Pub], &pubAd{cid: c, id: id, entCids: blocks[id]})
			w.ids[c] = id
			ch.setHead(c)
		case "leftover":
			ch := w.chain(strings.Split(s.Ad, "#")[0])
			cs := blocks[s.Ad]
			if s.N < len(cs) && s.N > 1 {
				cs = cs[:s.N]
			}
			for _, c := range cs {
				if rng.Intn(2) == 0 {
					ch.mu.Lock()
					b := ch.blocks[c]
					ch.mu.Unlock()
					dur.ds.Put(context.Background(), datastore.NewKey(c.String()), b)
				}
			}
		case "batch":
			n.ing.SetBatchSize(s.N)
			ncfg.Batch = s.N
		case "restart":
			if !n.close(o.Wait) {
				fail("closed", "still closing", "step %d: close does not end", i)
			}
			n.in.kill()
			if n, err = startNode(dur, ncfg); err != nil {
				fail("started", err.Error(), "step %d: cannot start on the existing stores", i)
			}
		case "sync":
			var wg sync.WaitGroup
			errs := make([]string, len(s.Pubs))
			for k, p := range s.Pubs {
				wg.Add(1)
				go func(k int, p string) {
					defer wg.Done()
					ctx, cancel := context.WithCancel(context.Background())
					defer cancel()
					ch := w.chain(p)
					res, err := n.ing.Sync(ctx, ident(p).ID, ch.addr(), 0, false)
					if err != nil {
						errs[k] = err.Error()
						return
					}
					select {
					case c, ok := <-res:
						if !ok {
							errs[k] = "ended without a result"
						} else if c != ch.getHead() {
							errs[k] = "wrong result " + w.idOf(c)
						}
					case <-time.After(o.Wait):
						errs[k] = "does not end"
					}
				}(k, p)
			}
			wg.Wait()
			for k, e := range errs {
				if e != "" {
					fail("the head", e, "step %d: sync of %s", i, s.Pubs[k])
				}
			}
			var ob [][]string
			if !poll(o.Wait, func() bool {
				ob = observeIdx(w, dur)
				return sameIdx(iExp{Idx: s.Exp.Idx}, ob)
			}) {
				fail(s.Exp.Idx, ob, "step %d: wrong index", i)
			}
			for _, p := range s.Pubs {
				c, err := n.ing.GetLatestSync(ident(p).ID)
				if err != nil || c != w.chain(p).getHead() {
					fail(w.idOf(w.chain(p).getHead()), w.idOf(c), "step %d: progress of %s", i, p)
				}
			}
			// nothing fetched for processing stays
			pending := map[cid.Cid]bool{}
			for p, as := range w.ads {
				c, _ := n.ing.GetLatestSync(ident(p).ID)
				done := 0
				for k, a := range as {
					if a.cid == c {
						done = k + 1
					}
				}
				for _, a := range as[done:] {
					for _, c := range a.entCids {
						pending[c] = true
					}
				}
			}
			var left []string
			if !poll(o.Wait, func() bool { left = leftBlocks(dur, pending); return len(left) == 0 }) {
				fail("none", left, "step %d: blocks stay in the datastore", i)
			}
		default:
			broken("unknown op %q", s.Op)
		}
		if s.Op != "sync" {
			if ob := observeIdx(w, dur); !sameIdx(iExp{Idx: s.Exp.Idx}, ob) {
				fail(s.Exp.Idx, ob, "step %d (%s): wrong index", i, s.Op)
			}
		}
	}
	if !n.close(o.Wait) {
		fail("closed", "still closing", "close does not end")
	}
}

func leftBlocks(dur *Durable, except map[cid.Cid]bool) []string {
	rs, err := dur.ds.Query(context.Background(), query.Query{KeysOnly: true})
	if err != nil {
		broken("query: %v", err)
	}
	es, _ := rs.Rest()
	var out []string
	for _, e := range es {
		k := strings.TrimPrefix(e.Key, "/")
		if strings.Contains(k, "/") {
			continue
		}
		if c, err := cid.Decode(k); err == nil && !except[c] {
			out = append(out, k)
		}
	}
	return out
}

func (ch *Chain) hamtOf(mhs []multihash.Multihash, bits, bucket int) ipld.Link {
	ls := ch.lsys()
	b := hamt.NewBuilder(hamt.Prototype{BitWidth: bits, BucketSize: bucket}).WithLinking(ls, schema.Linkproto)
	ma, err := b.BeginMap(0)
	if err != nil {
		broken("hamt: %v", err)
	}
	seen := map[string]bool{}
	for _, m := range mhs {
		if seen[string(m)] {
			continue
		}
		seen[string(m)] = true
		if err = ma.AssembleKey().AssignBytes(m); err != nil {
			broken("hamt: %v", err)
		}
		if err = ma.AssembleValue().AssignBool(true); err != nil {
			broken("hamt: %v", err)
		}
	}
	if err = ma.Finish(); err != nil {
		broken("hamt: %v", err)
	}
	l, err := ls.Store(ipld.LinkContext{}, schema.Linkproto, hamt.Build(b).Substrate())
	if err != nil {
		broken("hamt: %v", err)
	}
	return l
}
