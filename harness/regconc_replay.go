package main

import (
	"context"
	"encoding/json"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/libp2p/go-libp2p-core/peer"
)

func init() {
	runners["RegistryConc"] = runRegConc
	racy["RegistryConc"] = true
}

type rcOp struct {
	Th                                         int
	Op, Prov, Peer, Addr, Ad, Pub, Paddr, Disc string
	On, Def, Pdef                              bool
	Exc, Pexc                                  []string
}

// rcEv is a call or a return; a call carries the result, known in the end.
type rcEv struct {
	E   string      `json:"e"`
	ID  int         `json:"id"`
	O   interface{} `json:"o,omitempty"`
	Res interface{} `json:"res,omitempty"`
}

// slowDS delays writes by random times.
type slowDS struct {
	datastore.Batching
	mu   sync.Mutex
	rng  *rand.Rand
	max  int
	hold chan struct{} // the next write waits until this is closed
}

// wait holds back the first write after arm until it is released.
func (d *slowDS) wait() {
	d.mu.Lock()
	c := d.hold
	d.hold = nil
	d.mu.Unlock()
	if c != nil {
		<-c
	}
}

func (d *slowDS) arm() chan struct{} {
	c := make(chan struct{})
	d.mu.Lock()
	d.hold = c
	d.mu.Unlock()
	return c
}

func (d *slowDS) delay() {
	d.mu.Lock()
	n := d.rng.Intn(d.max + 1)
	d.mu.Unlock()
	if n > 0 {
		spin(time.Duration(n) * time.Microsecond)
	}
}
func (d *slowDS) Put(ctx context.Context, k datastore.Key, v []byte) error {
	d.wait()
	d.delay()
	err := d.Batching.Put(ctx, k, v)
	d.delay()
	return err
}
func (d *slowDS) Delete(ctx context.Context, k datastore.Key) error {
	d.wait()
	d.delay()
	err := d.Batching.Delete(ctx, k)
	d.delay()
	return err
}

type quickDiscoverer struct{ d *slowDS }

func (q quickDiscoverer) Discover(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error) {
	for i := 0; i < 4; i++ {
		q.d.delay()
		runtime.Gosched()
	}
	return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: p, Addrs: ma(rAddr("d"))}}, nil
}

func rcText(pi *registry.ProviderInfo, ads map[cid.Cid]string) string {
	if pi == nil {
		return "-"
	}
	v := regView(pi, ads)
	return v.Addr + "|" + v.Disc + "|" + v.Pub + "|" + v.Paddr + "|" + v.Ad
}

func runRegConc(tr Trace, o Opts, r *Result) {
	var steps []rcOp
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	var raw []map[string]interface{}
	if err := json.Unmarshal(tr.Steps, &raw); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	max := []int{0, 5, 30, 100}[rng.Intn(4)]
	r.Env = "delay=" + strconv.Itoa(max)
	ads := map[cid.Cid]string{}
	for _, x := range []string{"x", "y"} {
		ads[rAd(x)] = x
	}
	ds := &slowDS{Batching: dssync.MutexWrap(datastore.NewMapDatastore()), rng: rand.New(rand.NewSource(rng.Int63())), max: max}
	dcfg := config.Discovery{
		Policy:         config.Policy{Allow: true, Publish: true},
		PollInterval:   config.Duration(time.Hour),
		PollRetryAfter: config.Duration(time.Hour),
		PollStopAfter:  config.Duration(time.Hour),
	}
	reg, err := registry.NewRegistry(context.Background(), dcfg, ds, quickDiscoverer{ds})
	if err != nil {
		broken("registry: %v", err)
	}
	defer reg.Close()
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		for {
			select {
			case <-reg.SyncChan():
			case <-stop:
				return
			}
		}
	}()
	var mu sync.Mutex
	var evs []rcEv
	var out []handed
	call := func(id int, op map[string]interface{}) int {
		mu.Lock()
		defer mu.Unlock()
		evs = append(evs, rcEv{E: "call", ID: id, O: op})
		return len(evs) - 1
	}
	ret := func(at, id int, res interface{}, infos ...*registry.ProviderInfo) {
		var hs []handed
		for _, p := range infos {
			if p != nil {
				hs = append(hs, handed{p, infoText(p)})
			}
		}
		mu.Lock()
		defer mu.Unlock()
		evs[at].Res = res
		evs = append(evs, rcEv{E: "ret", ID: id})
		out = append(out, hs...)
	}
	okErr := func(err error) string {
		if err != nil {
			return "err"
		}
		return "ok"
	}
	ctx := context.Background()
	do := func(id int, s rcOp, op map[string]interface{}) {
		switch s.Op {
		case "register":
			info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ident(s.Prov).ID, Addrs: ma(rAddr(s.Addr))}}
			if s.Pub != "none" {
				info.Publisher = ident(s.Pub).ID
				info.PublisherAddr = rAddr(s.Paddr)
			}
			at := call(id, op)
			ret(at, id, okErr(reg.Register(ctx, info)))
		case "update":
			var addrs []string
			if s.Addr != "none" {
				addrs = []string{rAddr(s.Addr).String()}
			}
			var pub peer.AddrInfo
			if s.Pub != "none" {
				pub.ID = ident(s.Pub).ID
				if s.Paddr != "none" {
					pub.Addrs = ma(rAddr(s.Paddr))
				}
			}
			at := call(id, op)
			ret(at, id, okErr(reg.RegisterOrUpdate(ctx, ident(s.Prov).ID, addrs, rAd(s.Ad), pub)))
		case "remove":
			at := call(id, op)
			ret(at, id, okErr(reg.RemoveProvider(ctx, ident(s.Prov).ID)))
		case "saw":
			at := call(id, op)
			reg.Saw(ident(s.Prov).ID)
			ret(at, id, "ok")
		case "info":
			at := call(id, op)
			pi := reg.ProviderInfo(ident(s.Prov).ID)
			ret(at, id, rcText(pi, ads), pi)
		case "isreg":
			at := call(id, op)
			ret(at, id, strconv.FormatBool(reg.IsRegistered(ident(s.Prov).ID)))
		case "all":
			at := call(id, op)
			all := reg.AllProviderInfo()
			l := []string{}
			for _, pi := range all {
				l = append(l, labelOf(pi.AddrInfo.ID)+":"+rcText(pi, ads))
			}
			sort.Strings(l)
			ret(at, id, l, all...)
		case "allow":
			at := call(id, op)
			var ch bool
			if s.On {
				ch = reg.AllowPeer(ident(s.Peer).ID)
			} else {
				ch = reg.BlockPeer(ident(s.Peer).ID)
			}
			ret(at, id, strconv.FormatBool(ch))
		case "allowed":
			at := call(id, op)
			ret(at, id, strconv.FormatBool(reg.Allowed(ident(s.Peer).ID)))
		case "policy":
			c := config.Policy{Allow: s.Def, Except: peerIDs(s.Exc), Publish: s.Pdef, PublishExcept: peerIDs(s.Pexc)}
			at := call(id, op)
			ret(at, id, okErr(reg.SetPolicy(c)))
		case "discover":
			at := call(id, op)
			ret(at, id, okErr(reg.Discover(ident(s.Prov).ID, s.Disc, true)))
		default:
			broken("unknown op %q", s.Op)
		}
	}
	round := func(from, to int) {
		per := map[int][]int{}
		for k := from; k < to; k++ {
			per[steps[k].Th] = append(per[steps[k].Th], k)
		}
		var wg sync.WaitGroup
		gate := make(chan struct{})
		// In some rounds the first write takes so long that the operations of all
		// threads are waiting by then, in the order in which they were begun.
		var release chan struct{}
		queue := rng.Intn(2) == 0
		var ths []int
		for th := range per {
			ths = append(ths, th)
		}
		sort.Ints(ths)
		rng.Shuffle(len(ths), func(a, b int) { ths[a], ths[b] = ths[b], ths[a] })
		if queue {
			release = ds.arm()
			close(gate)
		}
		for _, th := range ths {
			ks := per[th]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-gate
				for _, k := range ks {
					do(k+1, steps[k], raw[k])
				}
			}()
			if queue {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if queue {
			close(release)
		} else {
			close(gate)
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(o.Wait):
			fail("every operation returns", "blocked", "steps %d to %d: registry operations do not return", from, to)
		}
	}
	from := 0
	for k, s := range steps {
		r.Step = k
		if s.Op == "round" {
			round(from, k)
			from = k + 1
		}
	}
	round(from, len(steps))
	// what is stored in the end
	id := len(steps) + 1
	at := call(id, map[string]interface{}{"op": "all"})
	all := reg.AllProviderInfo()
	l := []string{}
	for _, pi := range all {
		l = append(l, labelOf(pi.AddrInfo.ID)+":"+rcText(pi, ads))
	}
	sort.Strings(l)
	ret(at, id, l, all...)
	id++
	at = call(id, map[string]interface{}{"op": "stored"})
	re, err := registry.NewRegistry(ctx, config.Discovery{Policy: config.Policy{Allow: true, Publish: true}, PollInterval: dcfg.PollInterval,
		PollRetryAfter: dcfg.PollRetryAfter, PollStopAfter: dcfg.PollStopAfter}, copyDS(ds.Batching), nil)
	if err != nil {
		fail("the registry loads what it stored", err.Error(), "reload")
	}
	l = []string{}
	for _, pi := range re.AllProviderInfo() {
		l = append(l, labelOf(pi.AddrInfo.ID)+":"+rcText(pi, ads))
	}
	re.Close()
	sort.Strings(l)
	ret(at, id, l)
	for _, h := range out {
		if t := infoText(h.p); t != h.text {
			fail(h.text, t, "information handed out earlier changed")
		}
	}
	b, err := json.Marshal(map[string]interface{}{"id": tr.ID, "events": evs})
	if err != nil {
		broken("marshal: %v", err)
	}
	r.Rec = b
}
