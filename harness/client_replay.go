package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderclient "github.com/filecoin-project/storetheindex/api/v0/finder/client"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/verifclock/vclock"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Client"] = runClient }

type clStep struct {
	Op, Cl, Kind string
	Kinds        []string
	I, D         int
	Exp          []string
}

// gateIdx is an index whose answers can be held back, by whom they are for.
type gateIdx struct {
	indexer.Interface
	mu   sync.Mutex
	gate map[string]chan struct{} // label -> closed when the gate opens
	who  map[string]string        // multihash -> label
	call map[string]string        // multihash -> call
	held map[string]bool          // calls whose request is held now
}

func (g *gateIdx) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	g.mu.Lock()
	l := g.who[string(m)]
	c := g.gate[l]
	if c != nil {
		g.held[g.call[string(m)]] = true
	}
	g.mu.Unlock()
	if c != nil {
		<-c
	}
	return g.Interface.Get(m)
}

func (g *gateIdx) shut(l string) {
	g.mu.Lock()
	g.gate[l] = make(chan struct{})
	g.mu.Unlock()
}

func (g *gateIdx) open(l string) {
	g.mu.Lock()
	if c := g.gate[l]; c != nil {
		close(c)
		delete(g.gate, l)
	}
	g.mu.Unlock()
}

// tcpProxy passes on connections that can be cut.
type tcpProxy struct {
	l    net.Listener
	to   string
	mu   sync.Mutex
	open map[net.Conn]net.Conn
}

func newProxy(to string) *tcpProxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		broken("listen: %v", err)
	}
	p := &tcpProxy{l: l, to: to, open: map[net.Conn]net.Conn{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s, err := net.Dial("tcp", to)
			if err != nil {
				c.Close()
				continue
			}
			p.mu.Lock()
			p.open[c] = s
			p.mu.Unlock()
			pipe := func(a, b net.Conn) {
				io.Copy(a, b)
				a.Close()
				b.Close()
				p.mu.Lock()
				delete(p.open, c)
				p.mu.Unlock()
			}
			go pipe(c, s)
			go pipe(s, c)
		}
	}()
	return p
}

func (p *tcpProxy) count() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.open)
}

func (p *tcpProxy) cut() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for c, s := range p.open {
		c.Close()
		s.Close()
	}
}

func (p *tcpProxy) close() {
	p.l.Close()
	p.cut()
}

// clientConns counts the connections that HTTP clients have open, by whom they are to.
var clientConns = struct {
	sync.Mutex
	n map[string]int
}{n: map[string]int{}}

type countedConn struct {
	net.Conn
	addr string
	once sync.Once
}

func (c *countedConn) Close() error {
	c.once.Do(func() {
		clientConns.Lock()
		clientConns.n[c.addr]--
		clientConns.Unlock()
	})
	return c.Conn.Close()
}

func init() {
	t, ok := http.DefaultTransport.(*http.Transport)
	if !ok {
		return
	}
	dial := t.DialContext
	t.DialContext = func(ctx context.Context, network, addr string) (net.Conn, error) {
		c, err := dial(ctx, network, addr)
		if err != nil {
			return nil, err
		}
		clientConns.Lock()
		clientConns.n[addr]++
		clientConns.Unlock()
		return &countedConn{Conn: c, addr: addr}, nil
	}
}

type clCall struct {
	cl, kind string
	name     string
	cancel   context.CancelFunc
	mu       sync.Mutex
	st       string // run, ok, err, wrong
	note     string
}

func (c *clCall) state() (string, string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.st, c.note
}

type clEnd struct {
	label string
	c     finderclient.Finder
	h     host.Host // libp2p
	proxy *tcpProxy // http
	peak  int
}

func runClient(tr Trace, o Opts, r *Result) {
	var cfg struct {
		P2P   []string
		Clock bool
	}
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []clStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	if cfg.Clock {
		vclock.Fake(time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC))
	}

	idx := &gateIdx{Interface: engine.New(nil, memory.New()), gate: map[string]chan struct{}{}, who: map[string]string{}, call: map[string]string{}, held: map[string]bool{}}
	reg, err := newReg(config.Discovery{Policy: config.Policy{Allow: true, Publish: true}, PollInterval: config.Duration(1000 * time.Hour),
		PollRetryAfter: config.Duration(1000 * time.Hour), PollStopAfter: config.Duration(1000 * time.Hour)}, nil, nil)
	if err != nil {
		broken("registry: %v", err)
	}
	// The registry is not closed: requests may still be on their way when the behaviour ends.
	provs := []string{"p", "q", "r"}
	for _, l := range provs {
		a, _ := multiaddr.NewMultiaddr("/dns4/" + l + ".verif.example/tcp/9")
		if err = reg.Register(context.Background(), &registry.ProviderInfo{AddrInfo: peer.AddrInfo{ID: ident(l).ID, Addrs: []multiaddr.Multiaddr{a}}}); err != nil {
			broken("register: %v", err)
		}
	}

	newHost := func() host.Host {
		h, err := libp2p.New(libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"), libp2p.DisableRelay())
		if err != nil {
			broken("libp2p: %v", err)
		}
		return h
	}
	fin, err := httpfinderserver.New("127.0.0.1:0", idx, reg)
	if err != nil {
		broken("finder server: %v", err)
	}
	go fin.Start()
	defer func() {
		c, done := context.WithTimeout(context.Background(), 50*time.Millisecond)
		fin.Shutdown(c)
		done()
	}()
	ends := map[string]*clEnd{}
	var srv host.Host
	if len(cfg.P2P) != 0 {
		srv = newHost()
		defer srv.Close()
		sctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		p2pfinderserver.New(sctx, srv, idx, reg)
	}
	defer func() {
		for l := range ends {
			idx.open(l)
		}
	}()
	end := func(l string) *clEnd {
		if e := ends[l]; e != nil {
			return e
		}
		e := &clEnd{label: l}
		ends[l] = e
		for _, p := range cfg.P2P {
			if p == l {
				e.h = newHost()
				c, err := finderp2pclient.New(e.h, srv.ID())
				if err != nil {
					broken("client: %v", err)
				}
				ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
				defer cancel()
				if err = c.ConnectAddrs(ctx, srv.Addrs()...); err != nil {
					broken("connect: %v", err)
				}
				e.c = c
				return e
			}
		}
		e.proxy = newProxy(strings.TrimPrefix(fin.URL(), "http://"))
		c, err := finderhttpclient.New("http://" + e.proxy.l.Addr().String())
		if err != nil {
			broken("client: %v", err)
		}
		e.c = c
		return e
	}
	defer func() {
		for _, e := range ends {
			if e.h != nil {
				e.h.Close()
			} else {
				e.proxy.close()
			}
		}
	}()

	var calls []*clCall
	start := func(l, kind string) {
		e := end(l)
		n := len(calls)
		c := &clCall{cl: l, kind: kind, st: "run", name: fmt.Sprintf("%s-%d", l, n)}
		calls = append(calls, c)
		ctx, cancel := context.WithCancel(context.Background())
		c.cancel = cancel
		ask := question(idx, rng, e, kind, c.name, provs)
		go func() {
			err := ask(ctx)
			c.mu.Lock()
			defer c.mu.Unlock()
			var wa *wrongAnswer
			switch {
			case err == nil:
				c.st = "ok"
			case errors.As(err, &wa):
				c.st, c.note = "wrong", wa.what
			default:
				c.st, c.note = "err", err.Error()
			}
		}()
		run := 0
		for _, x := range calls {
			if s, _ := x.state(); x.cl == l && s == "run" {
				run++
			}
		}
		if run > e.peak {
			e.peak = run
		}
	}
	defer func() {
		for _, c := range calls {
			c.cancel()
		}
	}()

	match := func(exp []string) (int, bool) {
		for i, x := range exp {
			st, _ := calls[i].state()
			ok := false
			switch x {
			case "run", "ok", "err":
				ok = st == x
			case "run/ok":
				ok = st == "run" || st == "ok"
			case "any":
				ok = st != "wrong"
			case "end":
				ok = st == "ok" || st == "err"
			}
			if !ok {
				return i, false
			}
		}
		return -1, true
	}
	for i, s := range steps {
		r.Step = i
		switch s.Op {
		case "start":
			start(s.Cl, s.Kind)
		case "burst":
			for _, k := range s.Kinds {
				start(s.Cl, k)
			}
		case "cancel":
			calls[s.I-1].cancel()
		case "shut":
			end(s.Cl)
			idx.shut(s.Cl)
		case "open":
			idx.open(s.Cl)
		case "drop":
			e := end(s.Cl)
			if e.h != nil {
				srv.Network().ClosePeer(e.h.ID())
				if !poll(o.Wait, func() bool { return e.h.Network().Connectedness(srv.ID()) != network.Connected }) {
					broken("the connection did not close")
				}
			} else {
				e.proxy.cut()
				addr := e.proxy.l.Addr().String()
				poll(o.Wait/4, func() bool {
					clientConns.Lock()
					defer clientConns.Unlock()
					return clientConns.n[addr] == 0
				})
				time.Sleep(3 * time.Millisecond)
			}
		case "wait":
			for k := 0; k < s.D; k++ {
				vclock.Advance(time.Second)
			}
			// a stream that was closed because it was idle
			time.Sleep(3 * time.Millisecond)
		default:
			broken("unknown step %q", s.Op)
		}
		if !poll(o.Wait, func() bool { _, ok := match(s.Exp); return ok }) {
			k, ok := match(s.Exp)
			if !ok {
				st, note := calls[k].state()
				fail(s.Exp[k], strings.TrimSpace(st+" "+note), "step %d (%s): wrong outcome of call %d (%s by %s)", i, s.Op, k+1, calls[k].kind, calls[k].cl)
			}
		}
		// what is expected to be waiting stays waiting
		waiting := false
		for _, x := range s.Exp {
			waiting = waiting || x == "run" || x == "run/ok" || x == "any"
		}
		if waiting {
			if s.Op != "wait" {
				settleHeld(idx, ends, calls, o)
			}
			time.Sleep(o.Settle / 8)
			if k, ok := match(s.Exp); !ok {
				st, note := calls[k].state()
				fail(s.Exp[k], strings.TrimSpace(st+" "+note), "after step %d (%s): wrong outcome of call %d (%s by %s)", i, s.Op, k+1, calls[k].kind, calls[k].cl)
			}
		}
	}
	// connections and streams are not left behind
	for _, e := range ends {
		idx.open(e.label)
		for _, c := range calls {
			if c.cl == e.label {
				c := c
				c.cancel()
				if !poll(o.Wait, func() bool { st, _ := c.state(); return st != "run" }) {
					fail("ended", "running", "a cancelled call (%s by %s) does not end", c.kind, c.cl)
				}
			}
		}
		peak := e.peak
		n := 0
		ok := poll(o.Wait, func() bool {
			n = 0
			if e.h != nil {
				peak = 1
				for _, c := range srv.Network().ConnsToPeer(e.h.ID()) {
					for _, st := range c.GetStreams() {
						if st.Protocol() == v0.FinderProtocolID {
							n++
						}
					}
				}
			} else {
				n = e.proxy.count()
			}
			return n <= peak
		})
		if !ok {
			fail(peak, n, "client %s leaves connections behind", e.label)
		}
	}
}

// settleHeld waits until the questions that are held back have reached the server.
func settleHeld(idx *gateIdx, ends map[string]*clEnd, calls []*clCall, o Opts) {
	for l, e := range ends {
		idx.mu.Lock()
		shut := idx.gate[l] != nil
		idx.mu.Unlock()
		if !shut {
			continue
		}
		poll(o.Wait/4, func() bool {
			run, held := 0, 0
			for _, c := range calls {
				if st, _ := c.state(); c.cl == l && st == "run" && (c.kind == "find" || c.kind == "batch") {
					run++
					idx.mu.Lock()
					if idx.held[c.name] {
						held++
					}
					idx.mu.Unlock()
				}
			}
			return held == run || e.h != nil && held > 0
		})
	}
}

type wrongAnswer struct{ what string }

func (w *wrongAnswer) Error() string { return w.what }

// question prepares a question of a kind with an answer of its own.
func question(idx *gateIdx, rng *rand.Rand, e *clEnd, kind, name string, provs []string) func(context.Context) error {
	put := func(n string) multihash.Multihash {
		m := mhOf(n)
		v := indexer.Value{ProviderID: ident(provs[0]).ID, ContextID: []byte("ctx"), MetadataBytes: []byte("metadata of " + n)}
		v.ContextID = []byte("ctx of " + n)
		if err := idx.Interface.Put(v, m); err != nil {
			broken("put: %v", err)
		}
		idx.mu.Lock()
		idx.who[string(m)] = e.label
		idx.call[string(m)] = name
		idx.mu.Unlock()
		return m
	}
	wrong := func(f string, a ...interface{}) error { return &wrongAnswer{fmt.Sprintf(f, a...)} }
	check := func(resp *model.FindResponse, ns ...string) error {
		if len(resp.MultihashResults) != len(ns) {
			return wrong("%d results for %d multihashes of %s", len(resp.MultihashResults), len(ns), name)
		}
		got := map[string]string{}
		for _, x := range resp.MultihashResults {
			if len(x.ProviderResults) != 1 {
				return wrong("%d values instead of 1", len(x.ProviderResults))
			}
			got[string(x.Multihash)] = string(x.ProviderResults[0].Metadata)
		}
		for _, n := range ns {
			if got[string(mhOf(n))] != "metadata of "+n {
				return wrong("the answer is not about %s: %q", n, got)
			}
		}
		return nil
	}
	switch kind {
	case "find":
		m := put(name)
		return func(ctx context.Context) error {
			resp, err := e.c.Find(ctx, m)
			if err != nil {
				return err
			}
			return check(resp, name)
		}
	case "batch":
		n1, n2 := name+"/1", name+"/2"
		ms := []multihash.Multihash{put(n1), put(n2)}
		return func(ctx context.Context) error {
			resp, err := e.c.FindBatch(ctx, ms)
			if err != nil {
				return err
			}
			return check(resp, n1, n2)
		}
	case "miss":
		return func(ctx context.Context) error {
			resp, err := e.c.Find(ctx, mhOf("nothing "+name))
			if err != nil {
				return err
			}
			return check(resp)
		}
	case "prov":
		l := provs[rng.Intn(len(provs))]
		return func(ctx context.Context) error {
			pi, err := e.c.GetProvider(ctx, ident(l).ID)
			if err != nil {
				return err
			}
			if pi.AddrInfo.ID != ident(l).ID {
				return wrong("asked for provider %s, got %s", ident(l).ID, pi.AddrInfo.ID)
			}
			return nil
		}
	case "noprov":
		return func(ctx context.Context) error {
			pi, err := e.c.GetProvider(ctx, ident("unknown").ID)
			if err == nil {
				return wrong("asked for an unknown provider, got %s", pi.AddrInfo.ID)
			}
			if strings.Contains(err.Error(), "not found") || strings.Contains(err.Error(), http.StatusText(http.StatusNotFound)) {
				return nil
			}
			return err
		}
	case "list":
		return func(ctx context.Context) error {
			ps, err := e.c.ListProviders(ctx)
			if err != nil {
				return err
			}
			if len(ps) != len(provs) {
				return wrong("%d providers listed instead of %d", len(ps), len(provs))
			}
			return nil
		}
	case "stats":
		return func(ctx context.Context) error {
			st, err := e.c.GetStats(ctx)
			if err != nil {
				return err
			}
			if st == nil {
				return wrong("no stats")
			}
			return nil
		}
	}
	broken("unknown question %q", kind)
	return nil
}
