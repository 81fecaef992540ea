package main

import (
	"context"
	"encoding/json"
	"fmt"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	runners["IngestConc"] = runConc
	racy["IngestConc"] = true
}

type cAlt struct {
	K   int
	Idx [][]string
}

type cStep struct {
	Op, Pub, Where string
	H, I, N        int
	On             bool
	Ad             json.RawMessage
	Alts           map[string][]cAlt
	Loose          []string
}

// rev is one event of a recorded execution.
type rev struct {
	E    string `json:"e"`
	Op   string `json:"op"`
	Pub  string `json:"pub"`
	I    int    `json:"i"`
	H    int    `json:"h"`
	Prov string `json:"prov"`
	Ctx  string `json:"ctx"`
	Kind string `json:"kind"`
	raw  string
}

type recorder struct {
	mu  sync.Mutex
	evs []rev
}

func (r *recorder) add(e rev) {
	r.mu.Lock()
	r.evs = append(r.evs, e)
	r.mu.Unlock()
}

// entered says whether a store write of the advertisement has begun.
func (r *recorder) entered(id string) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	for _, e := range r.evs {
		if e.E == "in" && e.raw == id {
			return true
		}
	}
	return false
}

type gates struct {
	mu sync.Mutex
	m  map[string]chan struct{}
}

func (g *gates) wait(k string) {
	g.mu.Lock()
	c := g.m[k]
	g.mu.Unlock()
	if c != nil {
		<-c
	}
}
func (g *gates) hold(k string) {
	g.mu.Lock()
	if g.m[k] == nil {
		g.m[k] = make(chan struct{})
	}
	g.mu.Unlock()
}
func (g *gates) release(k string) {
	g.mu.Lock()
	if c := g.m[k]; c != nil {
		close(c)
		delete(g.m, k)
	}
	g.mu.Unlock()
}
func (g *gates) all() {
	g.mu.Lock()
	for k, c := range g.m {
		close(c)
		delete(g.m, k)
	}
	g.mu.Unlock()
}

func splitID(id string) (string, int) {
	f := strings.Split(id, "#")
	if len(f) != 2 {
		return id, 0
	}
	n, _ := strconv.Atoi(f[1])
	return f[0], n
}

type cSync struct {
	pub    string
	cancel context.CancelFunc
	done   chan struct{}
	res    string
	auto   bool // cancelled by the scenario
}

func runConc(tr Trace, o Opts, r *Result) {
	var cfg struct {
		Mode string
	}
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []cStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	workers := 1 + rng.Intn(4)
	batch := []int{1, 2, 256}[rng.Intn(3)]
	expand := 1 + rng.Intn(4)
	delay := time.Duration([]int{0, 0, 200, 1000}[rng.Intn(4)]) * time.Microsecond
	r.Env = fmt.Sprintf("workers=%d batch=%d expand=%d delay=%v", workers, batch, expand, delay)
	w := newWorld(rng, expand, "chunk")
	defer w.close()
	rec := &recorder{}
	g := &gates{m: map[string]chan struct{}{}}
	defer g.all()
	dur := newDurable()
	ncfg := NodeCfg{Policy: allowAll(), Workers: workers, Batch: batch, SegDepth: []int{0, 1, 2}[rng.Intn(3)]}
	start := func() *Node {
		in := &Incarnation{dur: dur, budget: -1}
		in.onEv = func(ev Event) {
			switch ev.Op {
			case "mark1", "mark0":
				rec.add(rev{E: ev.Op, raw: ev.Key})
			case "latest":
				rec.add(rev{E: "latest", Pub: ev.Key, raw: ev.Val})
			}
		}
		in.idxEnter = func(op string, v indexer.Value) {
			rec.add(rev{E: "in", Op: op, Prov: string(v.ProviderID), Ctx: string(v.ContextID), raw: string(v.MetadataBytes)})
			g.wait("store/" + string(v.MetadataBytes))
			if delay > 0 {
				time.Sleep(delay)
			}
		}
		in.idxLeave = func(op string, v indexer.Value) {
			rec.add(rev{E: "out", Op: op, Prov: string(v.ProviderID)})
		}
		n, err := startNodeIn(in, ncfg)
		if err != nil {
			broken("start: %v", err)
		}
		return n
	}
	n := start()
	defer func() { g.all(); n.close(5 * time.Second) }()
	var bmu sync.Mutex
	blockOf := map[cid.Cid]string{}
	gate := func(c cid.Cid) {
		bmu.Lock()
		k := blockOf[c]
		bmu.Unlock()
		if k != "" {
			g.wait(k)
		}
	}
	syncs := map[int]*cSync{}
	var wg sync.WaitGroup
	nworkers := workers
	wbusy := make(chan struct{}, 1)
	fault := false
	// endSyncs waits for the results of everything that was started
	endSyncs := func(i int) {
		for h, sy := range syncs {
			select {
			case <-sy.done:
			case <-time.After(o.Wait):
				fail("an end", "nothing", "step %d: sync %d of %s does not end", i, h, sy.pub)
			}
		}
	}
	waitCalls := func(i int) {
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(o.Wait):
			fail("returned", "blocked", "step %d: an announcement or worker change does not return", i)
		}
	}

	publish := func(pub string, raw json.RawMessage) {
		var a iAd
		if err := json.Unmarshal(raw, &a); err != nil {
			broken("ad: %v", err)
		}
		prov, ctx, kind := a.Prov, pub+a.Ctx, a.Kind
		a.Ctx = ctx
		a.Ek, a.Auth = "ok", "prov"
		if a.Kind == "put" {
			a.Ord = []string{"x"}
		}
		ch := w.chain(pub)
		ch.mu.Lock()
		ch.gate = gate
		ch.mu.Unlock()
		// recorded before it is visible
		rec.add(rev{E: "publish", Pub: pub, I: len(w.ads[pub]) + 1, Prov: prov, Ctx: ctx, Kind: kind})
		pa := w.publish(pub, a)
		bmu.Lock()
		blockOf[pa.cid] = "ad/" + pa.id
		for _, c := range pa.entCids {
			blockOf[c] = "ent/" + pa.id
		}
		bmu.Unlock()
	}
	startSync := func(i int, pub string, h int, auto bool) {
		ctx, cancel := context.WithCancel(context.Background())
		sy := &cSync{pub: pub, cancel: cancel, done: make(chan struct{}), auto: auto}
		syncs[h] = sy
		rec.add(rev{E: "start", H: h, Pub: pub})
		if sy.auto {
			rec.add(rev{E: "cancel", H: h})
		}
		res, err := n.ing.Sync(ctx, ident(pub).ID, w.chain(pub).addr(), 0, false)
		if err != nil {
			cancel()
			fail("a sync", err.Error(), "step %d: sync of %s refused", i, pub)
		}
		go func() {
			c, ok := <-res
			if ok {
				sy.res = c.String()
			}
			// recorded in terms of blocks, translated at the end
			rec.add(rev{E: "end", H: h, raw: sy.res})
			close(sy.done)
		}()
		if sy.auto {
			d := time.Duration(rng.Intn(3000)) * time.Microsecond
			go func() { time.Sleep(d); cancel() }()
		}
	}
	announce := func(i int, pub string, gap int, cids ...cid.Cid) {
		ai := peer.AddrInfo{ID: ident(pub).ID, Addrs: ma(w.chain(pub).addr())}
		ing := n.ing
		var aerr error
		ad := make(chan struct{})
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(ad)
			// announcements of one publisher arrive in order
			for k, c := range cids {
				if k > 0 {
					spin(time.Duration(gap) * time.Microsecond)
				}
				if aerr = ing.Announce(context.Background(), c, ai); aerr != nil {
					return
				}
			}
		}()
		select {
		case <-ad:
			if aerr != nil {
				fail("accepted", aerr.Error(), "step %d: announcement by %s", i, pub)
			}
		case <-time.After(o.Wait):
			fail("returned", "blocked", "step %d: the announcement by %s does not return", i, pub)
		}
	}

	for i, s := range steps {
		r.Step = i
		switch s.Op {
		case "publish":
			publish(s.Pub, s.Ad)
		case "hold":
			g.hold(fmt.Sprintf("%s/%s#%d", s.Where, s.Pub, s.I))
		case "release":
			g.release(fmt.Sprintf("%s/%s#%d", s.Where, s.Pub, s.I))
		case "fault":
			id := fmt.Sprintf("%s#%d", s.Pub, s.I)
			if !s.On {
				json.Unmarshal(s.Ad, &id)
			}
			pub, _ := splitID(id)
			f := "ok"
			if s.On {
				f = "ent404"
				fault = true
				rec.add(rev{E: "fault"})
			} else {
				fault = false
			}
			w.setFault(pub, id, f)
		case "start", "cancel":
			startSync(i, s.Pub, s.H, s.Op == "cancel")
		case "announce":
			announce(i, s.Pub, 0, w.ads[s.Pub][s.I-1].cid)
		case "burst":
			var cids []cid.Cid
			for _, a := range w.ads[s.Pub][s.I-1:] {
				cids = append(cids, a.cid)
			}
			announce(i, s.Pub, rng.Intn(400), cids...)
		case "late":
			id := fmt.Sprintf("%s#%d", s.Pub, s.I)
			g.hold("store/" + id)
			startSync(i, s.Pub, s.H, false)
			poll(200*time.Millisecond, func() bool { return rec.entered(id) })
			announce(i, s.Pub, 0, w.ads[s.Pub][s.I-1].cid)
			publish(s.Pub, s.Ad)
			c := w.ads[s.Pub][s.I].cid
			d := time.Duration(rng.Intn(300)) * time.Microsecond
			g.release("store/" + id)
			spin(d + delay)
			announce(i, s.Pub, 0, c)
		case "workers":
			nn := s.N
			nworkers = nn
			ing := n.ing
			wg.Add(1)
			for t0, busy := time.Now(), true; busy; {
				select {
				case wbusy <- struct{}{}:
					busy = false
				case <-time.After(50 * time.Millisecond):
					// an earlier change waits for work that is held: let it go on
					g.all()
					if time.Since(t0) > 2*o.Wait {
						fail("changed", "still waiting", "step %d: an earlier change of the number of workers does not take effect", i)
					}
				}
			}
			go func() {
				defer wg.Done()
				ing.RunWorkers(nn)
				<-wbusy
			}()
			if rng.Intn(2) == 0 {
				// wait for it unless work is held
				select {
				case wbusy <- struct{}{}:
					<-wbusy
				case <-time.After(5 * time.Millisecond):
				}
			}
			if len(wbusy) == cap(wbusy) {
				// the change waits for held work: let it go on
				next := ""
				for _, x := range steps[i+1:] {
					if x.Op == "workers" || x.Op == "settle" || x.Op == "close" {
						next = x.Op
						break
					}
				}
				if next == "workers" {
					g.all()
				}
			}
		case "settle":
			g.all()
			waitCalls(i)
			endSyncs(i)
			var obs map[string]cAlt
			var bad string
			if !poll(o.Wait, func() bool {
				bad, obs = concDiff(w, n, s, cfg.Mode)
				return bad == ""
			}) {
				fail(s.Alts, obs, "step %d: once everything has finished, %s has wrong content or progress", i, bad)
			}
			quiesceAll(n, w, o.Settle/2)
			if !poll(o.Wait, func() bool {
				bad, obs = concDiff(w, n, s, cfg.Mode)
				return bad == ""
			}) {
				fail(s.Alts, obs, "step %d: %s changed later", i, bad)
			}
			f := 0
			if fault {
				f = 1
			}
			rec.add(rev{E: "settle", I: f})
		case "close":
			if len(wbusy) != 0 {
				// reducing workers waits for an idle one, and is not done while closing
				g.all()
				waitCalls(i)
			}
			rec.add(rev{E: "close"})
			closed := make(chan bool, 1)
			go func() { closed <- n.close(o.Wait) }()
			time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
			g.all()
			if !<-closed {
				fail("closed", "still closing", "step %d: close does not end", i)
			}
			endSyncs(i)
			n.in.kill()
			rec.add(rev{E: "open"})
			wg = sync.WaitGroup{}
			wbusy = make(chan struct{}, 1)
			ncfg.Workers = nworkers
			n = start()
		default:
			broken("unknown op %q", s.Op)
		}
		if rng.Intn(3) == 0 {
			time.Sleep(time.Duration(rng.Intn(1500)) * time.Microsecond)
		}
	}
	g.all()
	waitCalls(len(steps))
	endSyncs(len(steps))
	if !n.close(o.Wait) {
		fail("closed", "still closing", "close does not end")
	}
	r.Rec = rec.translate(w, tr.ID)
}

func spin(d time.Duration) {
	for t := time.Now(); time.Since(t) < d; {
		runtime.Gosched()
	}
}

func quiesceAll(n *Node, w *world, d time.Duration) {
	get := func() int {
		a := 0
		for _, ch := range w.chains {
			ch.mu.Lock()
			a += ch.nfetch + ch.nhead
			ch.mu.Unlock()
		}
		n.in.mu.Lock()
		a += n.in.writes
		n.in.mu.Unlock()
		return a
	}
	last := get()
	for k := 0; k < 1000; k++ {
		time.Sleep(d)
		x := get()
		if x == last {
			return
		}
		last = x
	}
}

// concDiff compares the index and progress with what is allowed; it names the first publisher that differs.
func concDiff(w *world, n *Node, s cStep, mode string) (string, map[string]cAlt) {
	obs := map[string]cAlt{}
	idx := observeIdx(w, n.in.dur)
	for p := range s.Alts {
		o := cAlt{}
		for _, t := range idx {
			if strings.HasPrefix(t[2], p) {
				if t[0] != "x" {
					o.Idx = append(o.Idx, []string{t[1], t[2], t[3], t[0]})
				} else {
					o.Idx = append(o.Idx, []string{t[1], t[2], t[3]})
				}
			}
		}
		sortTuples(o.Idx)
		c, err := n.ing.GetLatestSync(ident(p).ID)
		if err != nil {
			o.K = -1
		} else if c != cid.Undef {
			_, o.K = splitID(w.idOf(c))
		}
		obs[p] = o
	}
	for p, alts := range s.Alts {
		ok := false
		for _, a := range alts {
			sortTuples(a.Idx)
			if mode != "multi" && a.K != obs[p].K {
				continue
			}
			if contains(s.Loose, p) || fmt.Sprint(a.Idx) == fmt.Sprint(obs[p].Idx) {
				ok = true
				break
			}
		}
		if !ok {
			return p, obs
		}
	}
	return "", obs
}

func (r *recorder) translate(w *world, id string) json.RawMessage {
	r.mu.Lock()
	defer r.mu.Unlock()
	byCid := map[string]string{}
	for c, id := range w.ids {
		byCid[c.String()] = id
	}
	evs := make([]rev, 0, len(r.evs))
	for _, e := range r.evs {
		switch e.E {
		case "mark1", "mark0", "latest":
			id, ok := byCid[e.raw]
			if !ok {
				id = "unknown#0"
			}
			e.Pub, e.I = splitID(id)
		case "in", "out":
			e.Prov = labelOf(peer.ID(e.Prov))
			e.Ctx = strings.TrimPrefix(e.Ctx, "ctx-")
			if e.raw != "" {
				e.Pub, e.I = splitID(e.raw)
			}
		case "end":
			if e.raw != "" {
				_, e.I = splitID(byCid[e.raw])
			}
		}
		evs = append(evs, e)
	}
	b, err := json.Marshal(map[string]interface{}{"id": id, "events": evs})
	if err != nil {
		broken("marshal: %v", err)
	}
	return b
}
