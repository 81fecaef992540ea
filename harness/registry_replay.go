package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	"github.com/filecoin-project/storetheindex/verifclock/vclock"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
)

func init() { runners["Registry"] = runRegistry }

type rReg struct {
	Reg                        bool
	Addr, Disc, Pub, Paddr, Ad string
	Act                        bool
}

type rExp struct {
	Reg    map[string]rReg
	Stored map[string]rReg
	Allow  map[string]bool
	Pub    [][]string
}

type rStep struct {
	Op, Prov, Peer, Addr, Ad, Pub, Paddr, Disc, Bad, Res string
	On, Def, Pdef, Del                                   bool
	Exc, Pexc, Who, New                                  []string
	List                                                 [][]string
	D                                                    int
	Exp                                                  rExp
}

type rCfg struct {
	Allow0, Pub0                     bool
	AllowExc0, PubExc0               []string
	Interval, Retry, Stop            int
	OPeer                            string
	OInterval, ORetry, OStop, Rewait int
	Unit                             int // minutes
}

const rUnit = time.Minute

func rAddr(l string) multiaddr.Multiaddr {
	a, err := multiaddr.NewMultiaddr("/dns4/" + l + ".verif.example/tcp/3003")
	if err != nil {
		broken("addr: %v", err)
	}
	return a
}

func rAddrLabel(a multiaddr.Multiaddr) string {
	if a == nil {
		return "none"
	}
	s := strings.TrimPrefix(a.String(), "/dns4/")
	return strings.TrimSuffix(s, ".verif.example/tcp/3003")
}

func rAd(l string) cid.Cid {
	if l == "none" {
		return cid.Undef
	}
	return rawCid([]byte("ad "+l), 0x0129)
}

func peerIDs(ls []string) []string {
	var out []string
	for _, l := range ls {
		out = append(out, ident(l).ID.String())
	}
	return out
}

// stubDiscoverer answers lookups when told to.
type stubDiscoverer struct {
	mu    sync.Mutex
	calls map[string]int
	wait  map[string]chan string
}

func (d *stubDiscoverer) Discover(ctx context.Context, p peer.ID, addr string) (*discovery.Discovered, error) {
	ch := make(chan string, 1)
	d.mu.Lock()
	d.calls[addr]++
	d.wait[addr] = ch
	d.mu.Unlock()
	select {
	case a := <-ch:
		if a == "none" {
			return nil, errors.New("no such provider")
		}
		return &discovery.Discovered{AddrInfo: peer.AddrInfo{ID: p, Addrs: ma(rAddr(a))}}, nil
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

func (d *stubDiscoverer) count(addr string) int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.calls[addr]
}

// regView reads one registration in the vocabulary of the specification.
func regView(pi *registry.ProviderInfo, ads map[cid.Cid]string) rReg {
	r := rReg{Reg: true, Addr: "none", Disc: "none", Pub: "none", Paddr: "none", Ad: "none", Act: true}
	var as []string
	for _, a := range pi.AddrInfo.Addrs {
		as = append(as, rAddrLabel(a))
	}
	if len(as) > 0 {
		r.Addr = strings.Join(as, ",")
	}
	if pi.DiscoveryAddr != "" {
		r.Disc = pi.DiscoveryAddr
	}
	if pi.Publisher.Validate() == nil {
		r.Pub = labelOf(pi.Publisher)
	}
	r.Paddr = rAddrLabel(pi.PublisherAddr)
	if pi.LastAdvertisement != cid.Undef {
		r.Ad = ads[pi.LastAdvertisement]
	}
	return r
}

func copyDS(d datastore.Datastore) datastore.Batching {
	out := dssync.MutexWrap(datastore.NewMapDatastore())
	res, err := d.Query(context.Background(), query.Query{})
	if err != nil {
		broken("query: %v", err)
	}
	es, err := res.Rest()
	if err != nil {
		broken("query: %v", err)
	}
	for _, e := range es {
		out.Put(context.Background(), datastore.NewKey(e.Key), e.Value)
	}
	return out
}

// newReg makes a registry and waits until its poll timer exists.
func newReg(cfg config.Discovery, ds datastore.Datastore, d discovery.Discoverer) (*registry.Registry, error) {
	n := vclock.Made("/internal/registry.")
	r, err := registry.NewRegistry(context.Background(), cfg, ds, d)
	if err != nil {
		return nil, err
	}
	if vclock.Faked() && !poll(2*time.Second, func() bool { return vclock.Made("/internal/registry.") > n }) {
		broken("the registry made no poll timer")
	}
	return r, nil
}

type handed struct {
	p    *registry.ProviderInfo
	text string
}

func infoText(p *registry.ProviderInfo) string {
	b, err := json.Marshal(p)
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%s inactive=%v deleted=%v", b, p.Inactive(), p.Deleted())
}

// regRun is a registry driven by behaviours of the specification.
type regRun struct {
	o       Opts
	cfg     rCfg
	unit    time.Duration
	ads     map[cid.Cid]string
	pol     config.Policy
	fmu     sync.Mutex
	down    bool
	dur     *Durable
	ds      datastore.Datastore
	disc    *stubDiscoverer
	reg     *registry.Registry
	out     []handed
	results map[string]chan error
	onStart func() // a new registry is there
	prev    rExp
	adAt    map[string]time.Time // when the last advertisement was received
}

func (x *regRun) dcfg(p config.Policy) config.Discovery {
	cfg := x.cfg
	u := func(n int) config.Duration { return config.Duration(time.Duration(n) * x.unit) }
	return config.Discovery{
		Policy:         p,
		PollInterval:   u(cfg.Interval),
		PollRetryAfter: u(cfg.Retry),
		PollStopAfter:  u(cfg.Stop),
		PollOverrides: []config.Polling{{
			ProviderID: ident(cfg.OPeer).ID.String(),
			Interval:   u(cfg.OInterval),
			RetryAfter: u(cfg.ORetry),
			StopAfter:  u(cfg.OStop),
		}},
		RediscoverWait: u(cfg.Rewait),
	}
}

func newRegRun(cfg rCfg, o Opts) *regRun {
	vclock.Fake(time.Date(2030, 1, 2, 3, 4, 5, 678900000, time.UTC))
	x := &regRun{o: o, cfg: cfg, unit: rUnit, ads: map[cid.Cid]string{}, adAt: map[string]time.Time{}, results: map[string]chan error{}}
	if cfg.Unit != 0 {
		x.unit = time.Duration(cfg.Unit) * time.Minute
	}
	for _, l := range []string{"x", "y", "z"} {
		x.ads[rAd(l)] = l
	}
	x.pol = config.Policy{Allow: cfg.Allow0, Except: peerIDs(cfg.AllowExc0), Publish: cfg.Pub0, PublishExcept: peerIDs(cfg.PubExc0)}
	x.dur = newDurable()
	in := &Incarnation{dur: x.dur, budget: -1}
	in.dsFault = func(op, key string) error {
		x.fmu.Lock()
		defer x.fmu.Unlock()
		if x.down && op != "sync" {
			return errors.New("store refuses writes")
		}
		return nil
	}
	x.ds = &recDS{in}
	x.disc = &stubDiscoverer{calls: map[string]int{}, wait: map[string]chan string{}}
	reg, err := newReg(x.dcfg(x.pol), x.ds, x.disc)
	if err != nil {
		broken("start: %v", err)
	}
	x.reg = reg
	return x
}

func (x *regRun) shut() bool {
	done := make(chan struct{})
	g := x.reg
	go func() { g.Close(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(x.o.Wait):
		return false
	}
}

func (x *regRun) end() {
	x.disc.mu.Lock()
	for _, ch := range x.disc.wait {
		select {
		case ch <- "none":
		default:
		}
	}
	x.disc.mu.Unlock()
	x.shut()
}

func (x *regRun) hand(p *registry.ProviderInfo) *registry.ProviderInfo {
	if p != nil {
		x.out = append(x.out, handed{p, infoText(p)})
	}
	return p
}

// guard runs an operation that must not block
func (x *regRun) guard(i int, what string, f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case e := <-done:
		if e != nil {
			panic(e)
		}
	case <-time.After(x.o.Wait):
		fail("an answer", "nothing", "step %d: %s does not return", i, what)
	}
}

func errRes(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

func runRegistry(tr Trace, o Opts, r *Result) {
	var cfg rCfg
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []rStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	x := newRegRun(cfg, o)
	defer x.end()
	for i, s := range steps {
		r.Step = i
		x.do(i, s)
		x.observe(i, s)
	}
}

// do executes one step and checks its result.
func (x *regRun) do(i int, s rStep) {
	reg, o, disc := x.reg, x.o, x.disc
	hand, guard := x.hand, x.guard
	ctx := context.Background()
	var err error
	res := s.Res
	detail := ""
	note := func(err error) {
		res = errRes(err)
		if err != nil {
			detail = err.Error()
		}
	}
	switch s.Op {
	case "register":
		info := &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ident(s.Prov).ID}}
		if s.Addr != "none" {
			info.AddrInfo.Addrs = ma(rAddr(s.Addr))
		}
		if s.Pub != "none" {
			info.Publisher = ident(s.Pub).ID
			info.PublisherAddr = rAddr(s.Paddr)
		}
		guard(i, "register", func() { note(reg.Register(ctx, info)) })
	case "update":
		var addrs []string
		switch s.Addr {
		case "none":
		case "bad":
			addrs = []string{rAddr("a").String(), "/not/an/address"}
		default:
			addrs = []string{rAddr(s.Addr).String()}
		}
		var pub peer.AddrInfo
		if s.Pub != "none" {
			pub.ID = ident(s.Pub).ID
			if s.Paddr != "none" {
				pub.Addrs = ma(rAddr(s.Paddr))
			}
		}
		guard(i, "update", func() { note(reg.RegisterOrUpdate(ctx, ident(s.Prov).ID, addrs, rAd(s.Ad), pub)) })
	case "saw":
		guard(i, "saw", func() { reg.Saw(ident(s.Prov).ID) })
	case "remove":
		guard(i, "remove", func() { note(reg.RemoveProvider(ctx, ident(s.Prov).ID)) })
	case "allow":
		var ch bool
		if s.On {
			ch = reg.AllowPeer(ident(s.Peer).ID)
		} else {
			ch = reg.BlockPeer(ident(s.Peer).ID)
		}
		res = fmt.Sprint(ch)
		id := ident(s.Peer).ID.String()
		var exc []string
		for _, e := range x.pol.Except {
			if e != id {
				exc = append(exc, e)
			}
		}
		if s.On != x.pol.Allow {
			exc = append(exc, id)
		}
		x.pol.Except = exc
	case "policy":
		p := config.Policy{Allow: s.Def, Except: peerIDs(s.Exc), Publish: s.Pdef, PublishExcept: peerIDs(s.Pexc)}
		switch s.Bad {
		case "allow":
			p.Except = append(peerIDs([]string{"p", "q"}), "not a peer id")
		case "publish":
			p.PublishExcept = append(peerIDs([]string{"p", "q"}), "not a peer id")
		}
		guard(i, "policy", func() { note(reg.SetPolicy(p)) })
		if s.Bad == "none" {
			x.pol = p
		}
	case "dsdown":
		x.fmu.Lock()
		x.down = s.On
		x.fmu.Unlock()
	case "restart":
		if !x.shut() {
			fail("closed", "still closing", "step %d: close does not end", i)
		}
		vclock.Fake(vclock.Now())
		x.reg, err = newReg(x.dcfg(x.pol), x.ds, disc)
		if err != nil {
			fail("started", err.Error(), "step %d: cannot start on the existing datastore", i)
		}
		if x.onStart != nil {
			x.onStart()
		}
	case "wait":
		fired := vclock.Advance(time.Duration(s.D) * x.unit)
		if !poll(o.Wait, func() bool { return vclock.Handled(fired) }) {
			broken("step %d: the poll round does not end", i)
		}
		guard(i, "lookup", func() { reg.IsRegistered(ident("p").ID) })
	case "drain":
		var got []string
		del := false
		for more := true; more; {
			select {
			case pi, ok := <-reg.SyncChan():
				if !ok || pi == nil {
					more = false
					break
				}
				hand(pi)
				got = append(got, labelOf(pi.AddrInfo.ID))
				del = del || pi.Deleted()
			default:
				more = false
			}
		}
		if len(got) == 0 {
			fail(s.Who, got, "step %d: the ingester is told nothing", i)
		}
		seen := map[string]bool{}
		for _, g := range got {
			if !contains(s.Who, g) || seen[g] {
				fail(s.Who, got, "step %d: the ingester is told of the wrong provider", i)
			}
			seen[g] = true
		}
		if del != s.Del {
			fail(s.Del, del, "step %d: the notice to the ingester about %v says deleted=%v", i, got, del)
		}
	case "discover":
		before := disc.count(s.Disc)
		ch := make(chan error, 1)
		go func(p, d string) { ch <- reg.Discover(ident(p).ID, d, true) }(s.Prov, s.Disc)
		if s.Res == "started" {
			if !poll(o.Wait, func() bool { return disc.count(s.Disc) == before+1 || len(ch) > 0 }) {
				fail("lookup", "none", "step %d: discovery does not look the provider up", i)
			}
			if disc.count(s.Disc) != before+1 {
				fail("lookup", fmt.Sprint(<-ch), "step %d: discovery of %s at %s refused", i, s.Prov, s.Disc)
			}
			x.results[s.Disc] = ch
		} else {
			if !poll(o.Wait, func() bool { return len(ch) > 0 || disc.count(s.Disc) != before }) {
				fail(s.Res, "nothing", "step %d: discovery does not return", i)
			}
			if disc.count(s.Disc) != before {
				fail("refused", "lookup", "step %d: a discovery of %s at %s that must be refused looks the provider up", i, s.Prov, s.Disc)
			}
			note(<-ch)
		}
	case "discend":
		disc.mu.Lock()
		disc.wait[s.Disc] <- s.Addr
		disc.mu.Unlock()
		select {
		case err := <-x.results[s.Disc]:
			note(err)
		case <-time.After(o.Wait):
			fail(s.Res, "nothing", "step %d: discovery does not end", i)
		}
	case "import":
		var provs []*model.ProviderInfo
		sort.Slice(s.List, func(a, b int) bool { return s.List[a][0] < s.List[b][0] })
		for _, x := range s.List {
			pi := &model.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ident(x[0]).ID, Addrs: ma(rAddr("imp"))}}
			if x[1] != "none" {
				pi.Publisher = &peer.AddrInfo{ID: ident(x[1]).ID, Addrs: ma(rAddr("imppub"))}
			}
			provs = append(provs, pi)
		}
		n := -1
		guard(i, "import", func() {
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, _ *http.Request) {
				json.NewEncoder(w).Encode(provs)
			}))
			defer srv.Close()
			u, _ := url.Parse(srv.URL)
			n, err = reg.ImportProviders(ctx, u)
			note(err)
		})
		if n != len(s.New) {
			fail(s.New, n, "step %d: number of imported providers", i)
		}
		var got []string
		for range s.New {
			select {
			case pi := <-reg.SyncChan():
				hand(pi)
				got = append(got, labelOf(pi.AddrInfo.ID))
				if pi.Deleted() {
					fail("sync", "deleted", "step %d: the ingester is told to delete an imported provider", i)
				}
			case <-time.After(o.Wait):
				fail(s.New, got, "step %d: the ingester is not told of an imported provider", i)
			}
		}
		sort.Strings(got)
		sort.Strings(s.New)
		if strings.Join(got, ",") != strings.Join(s.New, ",") {
			fail(s.New, got, "step %d: the ingester is told of the wrong providers", i)
		}
	default:
		broken("unknown op %q", s.Op)
	}
	if res != s.Res {
		fail(s.Res, res+" "+detail, "step %d (%s %s): wrong result", i, s.Op, s.Prov)
	}
}

// observe compares everything that can be seen with the specification.
func (x *regRun) observe(i int, s rStep) {
	reg, hand := x.reg, x.hand
	// what is reported
	got := map[string]rReg{}
	times := map[string]time.Time{}
	none := rReg{Addr: "none", Disc: "none", Pub: "none", Paddr: "none", Ad: "none", Act: true}
	var visible []string
	for p, e := range s.Exp.Stored {
		was := "none"
		if w, ok := x.prev.Reg[p]; ok {
			was = w.Ad
		}
		stored := "none"
		if w, ok := x.prev.Stored[p]; ok {
			stored = w.Ad
		}
		if e.Ad == "none" {
			delete(x.adAt, p)
		} else if e.Ad != stored || s.Op == "update" && s.Prov == p && s.Res == "ok" && s.Ad != "none" && s.Ad != was {
			x.adAt[p] = vclock.Now()
		}
	}
	x.prev = s.Exp
	for p, e := range s.Exp.Reg {
		pi := hand(reg.ProviderInfo(ident(p).ID))
		isReg := reg.IsRegistered(ident(p).ID)
		g := none
		switch {
		case pi != nil:
			g = regView(pi, x.ads)
			times[p] = pi.LastAdvertisementTime
			if !pi.LastAdvertisementTime.Equal(x.adAt[p]) {
				fail(x.adAt[p], pi.LastAdvertisementTime, "step %d (%s): time of the last advertisement of %s", i, s.Op, p)
			}
			if pi.AddrInfo.ID != ident(p).ID {
				fail(p, pi.AddrInfo.ID, "step %d: information of the wrong provider", i)
			}
			if !isReg {
				g.Reg = false
			}
		case isReg:
			// registered but hidden
			g = e
			g.Reg, g.Act = true, false
		}
		got[p] = g
		if g != e {
			fail(e, g, "step %d (%s): wrong registration of %s", i, s.Op, p)
		}
		if e.Reg && e.Act {
			visible = append(visible, p)
		}
		if reg.Allowed(ident(p).ID) != s.Exp.Allow[p] {
			fail(s.Exp.Allow[p], !s.Exp.Allow[p], "step %d (%s): allowed state of %s", i, s.Op, p)
		}
		for q := range s.Exp.Reg {
			w := false
			for _, x := range s.Exp.Pub {
				w = w || x[0] == p && x[1] == q
			}
			if reg.PublishAllowed(ident(p).ID, ident(q).ID) != w {
				fail(w, !w, "step %d (%s): whether %s may publish for %s", i, s.Op, p, q)
			}
		}
	}
	var listed []string
	for _, pi := range reg.AllProviderInfo() {
		hand(pi)
		listed = append(listed, labelOf(pi.AddrInfo.ID))
	}
	sort.Strings(listed)
	sort.Strings(visible)
	if strings.Join(listed, ",") != strings.Join(visible, ",") {
		fail(visible, listed, "step %d (%s): wrong list of providers", i, s.Op)
	}

	// what a restart would bring back
	m := vclock.Mark()
	sh, err := newReg(x.dcfg(config.Policy{Allow: true, Publish: true}), copyDS(x.dur.ds), nil)
	if err != nil {
		fail("loads", err.Error(), "step %d (%s): the stored registrations cannot be loaded", i, s.Op)
	}
	for p, e := range s.Exp.Stored {
		g := none
		e.Act = true
		if pi := sh.ProviderInfo(ident(p).ID); pi != nil {
			g = regView(pi, x.ads)
			if t, ok := times[p]; ok && !t.Equal(pi.LastAdvertisementTime) {
				fail(t, pi.LastAdvertisementTime, "step %d (%s): stored time of the last advertisement of %s", i, s.Op, p)
			}
		}
		if g != e {
			fail(e, g, "step %d (%s): wrong stored registration of %s", i, s.Op, p)
		}
	}
	sh.Close()
	vclock.Forget(m)
	for _, h := range x.out {
		if t := infoText(h.p); t != h.text {
			fail(h.text, t, "step %d (%s): information handed out earlier changed", i, s.Op)
		}
	}
	if len(x.out) > 200 {
		x.out = x.out[len(x.out)-100:]
	}
}
