package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/cache/radixcache"
	"github.com/filecoin-project/go-indexer-core/engine"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	v0 "github.com/filecoin-project/storetheindex/api/v0"
	finderhttpclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/http"
	finderp2pclient "github.com/filecoin-project/storetheindex/api/v0/finder/client/libp2p"
	"github.com/filecoin-project/storetheindex/api/v0/finder/model"
	fpb "github.com/filecoin-project/storetheindex/api/v0/finder/pb"
	imodel "github.com/filecoin-project/storetheindex/api/v0/ingest/model"
	ipb "github.com/filecoin-project/storetheindex/api/v0/ingest/pb"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/api/v0/libp2pclient"
	"github.com/filecoin-project/storetheindex/verifclock/vclock"
	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	p2pingestserver "github.com/filecoin-project/storetheindex/server/ingest/libp2p"
	"github.com/filecoin-project/storetheindex/server/reframe"
	"github.com/gogo/protobuf/proto"
	"github.com/ipfs/go-cid"
	drclient "github.com/ipfs/go-delegated-routing/client"
	drproto "github.com/ipfs/go-delegated-routing/gen/proto"
	"github.com/libp2p/go-libp2p"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Service"] = runService }

type sAns struct{ Prov, Ctx, Md, Addr string }

type sStep struct {
	rStep
	Ctx, Md, Kind, Signer, Defect, Label, Via string
	Labels, Q                                 []string
	Ans                                       [][]sAns
	Seq                                       int64
	Started                                   bool
	Exp                                       struct{ Idx [][]string }
}

// downIdx is an index whose reads can be made to fail.
type downIdx struct {
	indexer.Interface
	mu   sync.Mutex
	down bool
}

func (d *downIdx) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	d.mu.Lock()
	down := d.down
	d.mu.Unlock()
	if down {
		return nil, false, errors.New("value store is down")
	}
	return d.Interface.Get(m)
}

var (
	p2pOnce        sync.Once
	p2pSrv, p2pCli host.Host
)

func p2pHosts() (host.Host, host.Host) {
	p2pOnce.Do(func() {
		for _, h := range []*host.Host{&p2pSrv, &p2pCli} {
			x, err := libp2p.New(libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"))
			if err != nil {
				broken("libp2p: %v", err)
			}
			*h = x
		}
		ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
		defer cancel()
		if err := p2pCli.Connect(ctx, peer.AddrInfo{ID: p2pSrv.ID(), Addrs: p2pSrv.Addrs()}); err != nil {
			broken("libp2p: %v", err)
		}
	})
	return p2pSrv, p2pCli
}

type service struct {
	*regRun
	rng    *rand.Rand
	idx    *downIdx
	stop   []func()
	pc     *finderp2pclient.Client
	ingURL string
	finURL string
	t0     time.Time
	exp    [][]string
	async  map[string]bool
}

func svcCtx(l string) []byte { return []byte("ctx-" + l) }
func svcMd(l string) []byte {
	if l == "bitswap" {
		return reframe.BitswapMetadataBytes
	}
	return []byte("metadata " + l)
}

func (x *service) up() {
	for _, f := range x.stop {
		f()
	}
	x.stop = nil
	fin, err := httpfinderserver.New("127.0.0.1:0", x.idx, x.reg)
	if err != nil {
		broken("finder server: %v", err)
	}
	ing, err := httpingestserver.New("127.0.0.1:0", x.idx, nil, x.reg)
	if err != nil {
		broken("ingest server: %v", err)
	}
	go fin.Start()
	go ing.Start()
	x.finURL, x.ingURL = fin.URL(), ing.URL()
	srv, cli := p2pHosts()
	if x.pc, err = finderp2pclient.New(cli, srv.ID()); err != nil {
		broken("client: %v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	p2pfinderserver.New(ctx, srv, x.idx, x.reg)
	p2pingestserver.New(ctx, srv, x.idx, nil, x.reg)
	x.stop = append(x.stop, func() {
		c, done := context.WithTimeout(context.Background(), 50*time.Millisecond)
		fin.Shutdown(c)
		ing.Shutdown(c)
		done()
		cancel()
		srv.RemoveStreamHandler(v0.FinderProtocolID)
		srv.RemoveStreamHandler(v0.IngestProtocolID)
		for _, c := range cli.Network().Conns() {
			for _, st := range c.GetStreams() {
				if st.Protocol() == v0.FinderProtocolID || st.Protocol() == v0.IngestProtocolID {
					st.Reset()
				}
			}
		}
	})
}

func runService(tr Trace, o Opts, r *Result) {
	var cfg rCfg
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []sStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	var rsteps []rStep
	if err := json.Unmarshal(tr.Steps, &rsteps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rr := newRegRun(cfg, o)
	rng := rngFor(o.Seed, tr.ID)
	var eng indexer.Interface
	if rng.Intn(2) == 0 {
		eng = engine.New(nil, memory.New())
	} else {
		eng = engine.New(radixcache.New(100), memory.New())
	}
	x := &service{regRun: rr, rng: rng, idx: &downIdx{Interface: eng}, t0: vclock.Now(), async: map[string]bool{}}
	rr.onStart = func() {
		x.idx.mu.Lock()
		x.idx.down = false
		x.idx.mu.Unlock()
		x.up()
	}
	x.up()
	defer func() {
		for _, f := range x.stop {
			f()
		}
		rr.end()
	}()
	for i, s := range steps {
		r.Step = i
		rs := rsteps[i]
		x.sdo(i, s, rs)
		if s.Exp.Idx != nil {
			x.exp = s.Exp.Idx
		}
		x.observe(i, rs)
		x.checkIdx(i, s.Op, rs.Exp.Reg)
		x.checkInfo(i, s.Op, rs.Exp.Reg)
	}
}

// checkIdx compares the index with the specification.
func (x *service) checkIdx(i int, op string, peers map[string]rReg) {
	want := map[string]bool{}
	for _, e := range x.exp {
		want[strings.Join(e, "/")] = true
	}
	var got []string
	read := func() bool {
		got = nil
		for _, l := range []string{"x", "y", "z", "unknown"} {
			vs, _, err := x.idx.Interface.Get(mhOf(l))
			if err != nil {
				broken("index: %v", err)
			}
			for _, v := range vs {
				got = append(got, strings.Join([]string{l, labelOf(v.ProviderID), strings.TrimPrefix(string(v.ContextID), "ctx-"), mdLabel(v.MetadataBytes)}, "/"))
			}
		}
		if len(got) != len(want) {
			return false
		}
		for _, g := range got {
			if !want[g] {
				return false
			}
		}
		return true
	}
	if !poll(x.o.Wait, read) {
		sort.Strings(got)
		fail(x.exp, got, "step %d (%s): wrong content of the index", i, op)
	}
}

func mdLabel(b []byte) string {
	if bytes.Equal(b, reframe.BitswapMetadataBytes) {
		return "bitswap"
	}
	return strings.TrimPrefix(string(b), "metadata ")
}

func (x *service) sdo(i int, s sStep, rs rStep) {
	switch s.Op {
	case "put":
		var ms []multihash.Multihash
		for _, l := range s.Labels {
			ms = append(ms, mhOf(l))
		}
		if err := x.idx.Put(indexer.Value{ProviderID: ident(s.Prov).ID, ContextID: svcCtx(s.Ctx), MetadataBytes: svcMd(s.Md)}, ms...); err != nil {
			broken("put: %v", err)
		}
	case "del":
		if err := x.idx.RemoveProviderContext(ident(s.Prov).ID, svcCtx(s.Ctx)); err != nil {
			broken("del: %v", err)
		}
	case "idxdown":
		x.idx.mu.Lock()
		x.idx.down = s.On
		x.idx.mu.Unlock()
	case "lookup":
		x.lookup(i, s)
	case "malformed":
		x.malformed(i, s)
	case "request":
		x.request(i, s)
	case "unregister":
		if s.Via == "http" {
			st, _ := x.http(i, http.MethodDelete, x.ingURL+"/register/"+ident(s.Prov).ID.String(), nil)
			if st < 400 {
				fail("refused", st, "step %d: unregister request accepted", i)
			}
		} else {
			rec := peer.NewPeerRecord()
			rec.PeerID = ident(s.Prov).ID
			env, _ := record.Seal(rec, ident(s.Prov).Priv)
			data, _ := env.Marshal()
			if x.ingP2P(i, ipb.IngestMessage_REMOVE_PROVIDER, ipb.IngestMessage_REMOVE_PROVIDER_RESPONSE, data) == "ok" {
				fail("refused", "ok", "step %d: unregister request accepted", i)
			}
		}
	case "discend":
		if x.async[s.Disc] {
			x.async[s.Disc] = false
			x.disc.mu.Lock()
			x.disc.wait[s.Disc] <- s.Addr
			x.disc.mu.Unlock()
			// nobody waits for the result
			e := rs.Exp.Reg[s.Prov]
			poll(x.o.Wait, func() bool {
				pi := x.reg.ProviderInfo(ident(s.Prov).ID)
				return (pi != nil) == (e.Reg && e.Act) && (pi == nil || regView(pi, x.ads) == e)
			})
			time.Sleep(x.o.Settle)
			return
		}
		x.do(i, rs)
	default:
		x.do(i, rs)
	}
}

// ------------------------------------------------------------------ lookups

func ansText(a sAns) string { return strings.Join([]string{a.Prov, a.Ctx, a.Md, a.Addr}, "/") }

func resText(fr *model.FindResponse) []string {
	var out []string
	for _, mr := range fr.MultihashResults {
		var rs []string
		for _, pr := range mr.ProviderResults {
			var as []string
			for _, a := range pr.Provider.Addrs {
				as = append(as, rAddrLabel(a))
			}
			rs = append(rs, ansText(sAns{labelOf(pr.Provider.ID), strings.TrimPrefix(string(pr.ContextID), "ctx-"), mdLabel(pr.Metadata), strings.Join(as, ",")}))
		}
		sort.Strings(rs)
		out = append(out, mhLabel(mr.Multihash)+": "+strings.Join(rs, " "))
	}
	return out
}

func mhLabel(m multihash.Multihash) string {
	for _, l := range []string{"x", "y", "z", "unknown"} {
		if bytes.Equal(m, mhOf(l)) {
			return l
		}
	}
	return m.B58String()
}

// http sends a request and returns the status and the body.
func (x *service) http(i int, method, url string, body []byte) (int, []byte) {
	ctx, cancel := context.WithTimeout(context.Background(), x.o.Wait)
	defer cancel()
	return plainHTTP(ctx, i, method, url, body)
}

func plainHTTP(ctx context.Context, i int, method, url string, body []byte) (int, []byte) {
	req, err := http.NewRequestWithContext(ctx, method, url, bytes.NewReader(body))
	if err != nil {
		broken("request: %v", err)
	}
	resp, err := http.DefaultClient.Do(req)
	if err != nil {
		fail("an answer", err.Error(), "step %d: no answer over HTTP", i)
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		fail("an answer", err.Error(), "step %d: incomplete answer over HTTP", i)
	}
	if resp.StatusCode == http.StatusOK && len(b) > 0 && (b[0] == '{' || b[0] == '[') && !strings.Contains(url, "reframe") {
		if ct := resp.Header.Get("Content-Type"); !strings.HasPrefix(ct, "application/json") {
			fail("application/json", ct, "step %d: content type of a JSON answer", i)
		}
	}
	return resp.StatusCode, b
}

func (x *service) lookup(i int, s sStep) {
	ctx, cancel := context.WithTimeout(context.Background(), x.o.Wait)
	defer cancel()
	text := func(k int) string {
		var rs []string
		for _, a := range s.Ans[k] {
			rs = append(rs, ansText(a))
		}
		sort.Strings(rs)
		return s.Q[k] + ": " + strings.Join(rs, " ")
	}
	var want []string
	var ms []multihash.Multihash
	for k, l := range s.Q {
		ms = append(ms, mhOf(l))
		if s.Res == "ok" && len(s.Ans[k]) > 0 {
			want = append(want, text(k))
		}
	}
	check := func(what string, want, got []string) {
		if strings.Join(got, ";") != strings.Join(want, ";") {
			fail(want, got, "step %d: wrong answer to %s of %v", i, what, s.Q)
		}
	}
	hc, err := finderhttpclient.New(x.finURL)
	if err != nil {
		broken("client: %v", err)
	}
	pc := x.pc
	body, _ := json.Marshal(model.FindRequest{Multihashes: ms})
	ways := []func(){
		func() { // HTTP batch
			st, b := x.http(i, http.MethodPost, x.finURL+"/multihash", body)
			switch {
			case s.Res == "err":
				if st < 500 {
					fail("server error", st, "step %d: HTTP batch lookup while the index cannot be read", i)
				}
			case len(want) == 0:
				if st != http.StatusNotFound {
					fail(http.StatusNotFound, st, "step %d: status of an HTTP batch lookup of %v without results", i, s.Q)
				}
			default:
				fr, err := model.UnmarshalFindResponse(b)
				if st != http.StatusOK || err != nil {
					fail(want, fmt.Sprint(st, err), "step %d: HTTP batch lookup of %v", i, s.Q)
				}
				check("an HTTP batch lookup", want, resText(fr))
			}
			fr, err := hc.FindBatch(ctx, ms)
			if (err != nil) != (s.Res == "err") {
				fail(s.Res, fmt.Sprint(err), "step %d: HTTP client batch lookup of %v", i, s.Q)
			}
			if err == nil {
				check("an HTTP client batch lookup", want, resText(fr))
			}
		},
		func() { // libp2p
			fr, err := pc.FindBatch(ctx, ms)
			if (err != nil) != (s.Res == "err") {
				fail(s.Res, fmt.Sprint(err), "step %d: libp2p lookup of %v", i, s.Q)
			}
			if err == nil {
				check("a libp2p lookup", want, resText(fr))
			}
		},
	}
	for k := range s.Q {
		k := k
		var w []string
		if s.Res == "ok" && len(s.Ans[k]) > 0 {
			w = []string{text(k)}
		}
		single := func(what, url string) {
			st, b := x.http(i, http.MethodGet, url, nil)
			switch {
			case s.Res == "err":
				if st < 500 {
					fail("server error", st, "step %d: %s while the index cannot be read", i, what)
				}
			case len(w) == 0:
				if st != http.StatusNotFound {
					fail(http.StatusNotFound, st, "step %d: status of %s of %s without results", i, what, s.Q[k])
				}
			default:
				fr, err := model.UnmarshalFindResponse(b)
				if st != http.StatusOK || err != nil {
					fail(w, fmt.Sprint(st, err), "step %d: %s of %s", i, what, s.Q[k])
				}
				check(what, w, resText(fr))
			}
		}
		codec := []uint64{cid.Raw, cid.DagProtobuf, cid.DagCBOR}[x.rng.Intn(3)]
		c := cid.NewCidV1(codec, ms[k])
		ways = append(ways,
			func() { single("an HTTP multihash lookup", x.finURL+"/multihash/"+ms[k].B58String()) },
			func() { single("an HTTP CID lookup", x.finURL+"/cid/"+c.String()) },
			func() { single("an HTTP CIDv0 lookup", x.finURL+"/cid/"+cid.NewCidV0(ms[k]).String()) },
			func() {
				fr, err := pc.Find(ctx, ms[k])
				if (err != nil) != (s.Res == "err") {
					fail(s.Res, fmt.Sprint(err), "step %d: libp2p lookup of %s", i, s.Q[k])
				}
				if err == nil {
					check("a libp2p lookup", w, resText(fr))
				}
			},
			func() {
				if s.Res == "err" {
					return
				}
				q, err := drproto.New_DelegatedRouting_Client(x.finURL + "/reframe")
				if err != nil {
					broken("reframe client: %v", err)
				}
				infos, err := drclient.NewClient(q).FindProviders(ctx, c)
				if err != nil {
					fail("an answer", err.Error(), "step %d: delegated routing of %s", i, s.Q[k])
				}
				wm := map[string]bool{}
				for _, a := range s.Ans[k] {
					if a.Md == "bitswap" {
						wm[a.Prov+"/"+a.Addr] = true
					}
				}
				gm := map[string]bool{}
				for _, ai := range infos {
					var as []string
					for _, a := range ai.Addrs {
						as = append(as, rAddrLabel(a))
					}
					gm[labelOf(ai.ID)+"/"+strings.Join(as, ",")] = true
				}
				check("delegated routing", keys(wm), keys(gm))
			})
	}
	x.rng.Shuffle(len(ways), func(a, b int) { ways[a], ways[b] = ways[b], ways[a] })
	for _, f := range ways {
		f()
	}
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// checkInfo compares the provider information given by the query interfaces.
func (x *service) checkInfo(i int, op string, peers map[string]rReg) {
	ctx, cancel := context.WithTimeout(context.Background(), x.o.Wait)
	defer cancel()
	hc, err := finderhttpclient.New(x.finURL)
	if err != nil {
		broken("client: %v", err)
	}
	pc := x.pc
	one := func(pi *model.ProviderInfo) string {
		var as []string
		for _, a := range pi.AddrInfo.Addrs {
			as = append(as, rAddrLabel(a))
		}
		pub, paddr, ad, t := "none", "none", "none", ""
		if pi.Publisher != nil {
			pub = labelOf(pi.Publisher.ID)
			paddr = "?"
			if len(pi.Publisher.Addrs) == 1 {
				paddr = rAddrLabel(pi.Publisher.Addrs[0])
			}
		}
		if pi.LastAdvertisement != cid.Undef {
			ad = x.ads[pi.LastAdvertisement]
			t = pi.LastAdvertisementTime
		}
		if len(as) == 0 {
			as = []string{"none"}
		}
		return fmt.Sprintf("%s addr=%s pub=%s@%s ad=%s at %s", labelOf(pi.AddrInfo.ID), strings.Join(as, ","), pub, paddr, ad, t)
	}
	text := func(p string, e rReg) string {
		pub, paddr, t := e.Pub, e.Paddr, ""
		if pub == "none" || paddr == "none" {
			pub, paddr = "none", "none"
		}
		if e.Ad != "none" {
			// the time is whatever the registry says; what matters is that it is given as ISO 8601
			if pi := x.reg.ProviderInfo(ident(p).ID); pi != nil {
				t = pi.LastAdvertisementTime.UTC().Format("2006-01-02T15:04:05Z")
			}
		}
		return fmt.Sprintf("%s addr=%s pub=%s@%s ad=%s at %s", p, e.Addr, pub, paddr, e.Ad, t)
	}
	var want []string
	for p, e := range peers {
		if e.Reg && e.Act {
			want = append(want, text(p, e))
		}
		for _, c := range []struct {
			n string
			f func() (*model.ProviderInfo, error)
		}{
			{"HTTP", func() (*model.ProviderInfo, error) { return hc.GetProvider(ctx, ident(p).ID) }},
			{"libp2p", func() (*model.ProviderInfo, error) { return pc.GetProvider(ctx, ident(p).ID) }},
		} {
			pi, err := c.f()
			if !e.Reg || !e.Act {
				if err == nil || !strings.Contains(err.Error(), "not found") && !strings.Contains(err.Error(), "404") {
					fail("not found", fmt.Sprint(err), "step %d (%s): information about %s, which is not to be seen, over %s", i, op, p, c.n)
				}
				continue
			}
			if err != nil {
				fail(text(p, e), err.Error(), "step %d (%s): information about %s over %s", i, op, p, c.n)
			}
			if g := one(pi); g != text(p, e) {
				fail(text(p, e), g, "step %d (%s): information about %s over %s", i, op, p, c.n)
			}
		}
	}
	sort.Strings(want)
	for _, c := range []struct {
		n string
		f func() ([]*model.ProviderInfo, error)
	}{
		{"HTTP", func() ([]*model.ProviderInfo, error) { return hc.ListProviders(ctx) }},
		{"libp2p", func() ([]*model.ProviderInfo, error) { return pc.ListProviders(ctx) }},
	} {
		l, err := c.f()
		if err != nil {
			fail(want, err.Error(), "step %d (%s): list of providers over %s", i, op, c.n)
		}
		var got []string
		for _, pi := range l {
			got = append(got, one(pi))
		}
		sort.Strings(got)
		if strings.Join(got, ";") != strings.Join(want, ";") {
			fail(want, got, "step %d (%s): list of providers over %s", i, op, c.n)
		}
	}
}

func (x *service) malformed(i int, s sStep) {
	pick := func(l ...string) string { return l[x.rng.Intn(len(l))] }
	client := func(st int) {
		if st < 400 || st >= 500 {
			fail("client error", st, "step %d: status of a malformed %s request", i, s.Kind)
		}
	}
	p2p := func(typ fpb.FinderMessage_MessageType, data []byte) {
		st := x.finP2P(i, &fpb.FinderMessage{Type: typ, Data: data})
		if st >= 0 {
			client(st)
		}
	}
	b58 := mhOf("x").B58String()
	switch s.Kind {
	case "multihash":
		st, _ := x.http(i, http.MethodGet, x.finURL+"/multihash/"+pick("0OIl", b58[:len(b58)-3], "Qm", "-", cid.NewCidV1(cid.Raw, mhOf("x")).String()), nil)
		client(st)
	case "cid":
		st, _ := x.http(i, http.MethodGet, x.finURL+"/cid/"+pick("bafy", "notacid", "Qm123", cid.NewCidV1(cid.Raw, mhOf("x")).String()+"a"), nil)
		client(st)
	case "batch":
		b := []byte(pick("", "{", "[]", `{"Multihashes":1}`, `{"Multihashes":["!"]}`, "\x00\x01"))
		st, _ := x.http(i, http.MethodPost, x.finURL+"/multihash", b)
		client(st)
		p2p(fpb.FinderMessage_FIND, b)
	case "provider":
		st, _ := x.http(i, http.MethodGet, x.finURL+"/providers/"+pick("nobody", "Qm", "12D3KooW"), nil)
		client(st)
		p2p(fpb.FinderMessage_GET_PROVIDER, []byte(pick("", "nobody", `"Qm"`, "{}")))
	case "message":
		x.rawP2P(i, v0.FinderProtocolID, []byte(pick("garbage", "\xff\xff\xff", "")))
		x.rawP2P(i, v0.IngestProtocolID, []byte(pick("garbage", "\xff\xff\xff", "")))
	case "type":
		p2p(fpb.FinderMessage_MessageType([]int32{0, 2, 4, 77}[x.rng.Intn(4)]), nil)
		p2p(fpb.FinderMessage_FIND, nil)
	case "reframe":
		st, _ := x.http(i, http.MethodPost, x.finURL+"/reframe", []byte(pick("", "{", `{"x":1}`, `{"FindProvidersRequest":{"Key":1}}`)))
		client(st)
	}
}

// rawMsg is sent as it is.
type rawMsg struct{ b []byte }

func (m *rawMsg) Reset()                   {}
func (m *rawMsg) String() string           { return "" }
func (m *rawMsg) ProtoMessage()            {}
func (m *rawMsg) Marshal() ([]byte, error) { return m.b, nil }
func (m *rawMsg) Size() int                { return len(m.b) }
func (m *rawMsg) MarshalTo(b []byte) (int, error) {
	return copy(b, m.b), nil
}

// send sends a message and decodes the answer; an error means that the stream was closed.
func (x *service) send(i int, proto protocol.ID, msg proto.Message, dec func([]byte) error) error {
	_, cli := p2pHosts()
	c, err := libp2pclient.New(cli, p2pSrv.ID(), proto)
	if err != nil {
		broken("libp2p client: %v", err)
	}
	defer c.Close()
	ctx, cancel := context.WithTimeout(context.Background(), x.o.Wait)
	defer cancel()
	err = c.SendRequest(ctx, msg, dec)
	if errors.Is(err, libp2pclient.ErrReadTimeout) || ctx.Err() != nil {
		fail("an answer", fmt.Sprint(err), "step %d: no answer over libp2p", i)
	}
	return err
}

func (x *service) rawP2P(i int, p protocol.ID, b []byte) {
	x.send(i, p, &rawMsg{b}, func([]byte) error { return nil })
}

func errStatus(data []byte) int {
	var m v0.ErrorMessage
	if json.Unmarshal(data, &m) != nil {
		return 0
	}
	return m.Status
}

// finP2P returns the status of the error with which a request is refused, -1 if the stream is closed.
func (x *service) finP2P(i int, msg *fpb.FinderMessage) int {
	var rsp fpb.FinderMessage
	if err := x.send(i, v0.FinderProtocolID, msg, rsp.Unmarshal); err != nil {
		return -1
	}
	if rsp.GetType() != fpb.FinderMessage_ERROR_RESPONSE {
		return 200
	}
	return errStatus(rsp.GetData())
}

func (x *service) ingP2P(i int, typ, rtyp ipb.IngestMessage_MessageType, data []byte) string {
	var rsp ipb.IngestMessage
	if err := x.send(i, v0.IngestProtocolID, &ipb.IngestMessage{Type: typ, Data: data}, rsp.Unmarshal); err != nil {
		return "closed " + err.Error()
	}
	switch rsp.GetType() {
	case rtyp:
		return "ok"
	case ipb.IngestMessage_ERROR_RESPONSE:
		return "err " + fmt.Sprint(v0.DecodeError(rsp.GetData()))
	}
	return "err unexpected answer"
}

// ------------------------------------------------------------------ requests

// sealed is a record with a domain and a type of choice.
type sealed struct {
	domain string
	codec  []byte
	data   []byte
}

func (r *sealed) Domain() string                 { return r.domain }
func (r *sealed) Codec() []byte                  { return r.codec }
func (r *sealed) MarshalRecord() ([]byte, error) { return r.data, nil }
func (r *sealed) UnmarshalRecord(b []byte) error { r.data = b; return nil }

func (x *service) seal(rec record.Record, k crypto.PrivKey) []byte {
	env, err := record.Seal(rec, k)
	if err != nil {
		broken("seal: %v", err)
	}
	b, err := env.Marshal()
	if err != nil {
		broken("seal: %v", err)
	}
	return b
}

func (x *service) request(i int, s sStep) {
	seq := uint64(x.t0.UnixNano() + (s.Seq-100)*int64(x.unit)/10)
	prov := ident(s.Prov)
	mk := func(kind string) record.Record {
		switch kind {
		case "register":
			rec := peer.NewPeerRecord()
			rec.PeerID, rec.Seq, rec.Addrs = prov.ID, seq, nil
			if s.Addr != "none" {
				rec.Addrs = []multiaddr.Multiaddr{rAddr(s.Addr)}
			}
			return rec
		case "index":
			r := &imodel.IngestRequest{Multihash: mhOf(s.Label), ProviderID: prov.ID, ContextID: svcCtx(s.Ctx), Metadata: svcMd(s.Md), Seq: seq}
			if s.Addr != "none" {
				r.Addrs = []string{rAddr(s.Addr).String()}
			}
			switch s.Defect {
			case "longctx":
				r.ContextID = bytes.Repeat([]byte("c"), schema.MaxContextIDLen+1)
			case "longmd":
				r.Metadata = bytes.Repeat([]byte("m"), schema.MaxMetadataLen+1)
			case "badaddr":
				r.Addrs = append(r.Addrs, "/not/an/address")
			}
			return r
		default:
			return &imodel.DiscoverRequest{ProviderID: prov.ID, DiscoveryAddr: s.Disc, Seq: seq}
		}
	}
	others := map[string][]string{"register": {"index", "discover"}, "index": {"register", "discover"}, "discover": {"register", "index"}}
	rec := mk(s.Kind)
	data := x.seal(rec, ident(s.Signer).Priv)
	switch s.Defect {
	case "sig": // one bit of the signature
		env, err := record.UnmarshalEnvelope(data)
		if err != nil {
			broken("envelope: %v", err)
		}
		_ = env
		data = append([]byte{}, data...)
		data[len(data)-1-x.rng.Intn(60)] ^= 1 << uint(x.rng.Intn(8))
	case "payload": // another payload under the same signature
		var other record.Record
		sv := s
		switch {
		case s.Kind == "discover":
			s.Disc += "0"
		case s.Addr == "none":
			s.Addr = "a"
		default:
			s.Addr += "0"
		}
		other = mk(s.Kind)
		s = sv
		op, err := other.MarshalRecord()
		if err != nil {
			broken("record: %v", err)
		}
		p, _ := rec.MarshalRecord()
		data = swapPayload(data, p, op)
	case "wrongtype": // an intact request of another type
		o := others[s.Kind]
		data = x.seal(mk(o[x.rng.Intn(2)]), ident(s.Signer).Priv)
	case "domain": // signed for another purpose
		p, _ := rec.MarshalRecord()
		o := others[s.Kind]
		data = x.seal(&sealed{domain: mk(o[x.rng.Intn(2)]).Domain(), codec: rec.Codec(), data: p}, ident(s.Signer).Priv)
	case "codec": // the right purpose, another type
		o := mk(others[s.Kind][x.rng.Intn(2)])
		p, _ := o.MarshalRecord()
		data = x.seal(&sealed{domain: rec.Domain(), codec: o.Codec(), data: p}, ident(s.Signer).Priv)
	case "trunc":
		data = data[:x.rng.Intn(len(data))]
	case "garbage":
		data = make([]byte, x.rng.Intn(200))
		x.rng.Read(data)
	case "unsigned": // the bare record
		data, _ = rec.MarshalRecord()
	}
	before := x.disc.count(s.Disc)
	res := ""
	if s.Via == "http" {
		path := map[string]string{"register": "/register", "discover": "/discover"}[s.Kind]
		st, b := x.http(i, http.MethodPost, x.ingURL+path, data)
		if st < 300 {
			res = "ok"
		} else {
			res = fmt.Sprint("err ", st, " ", string(b))
			if s.Defect != "none" || s.Signer != s.Prov {
				if st >= 500 {
					fail("client error", st, "step %d: status of a refused %s request", i, s.Kind)
				}
			}
		}
	} else {
		t := map[string][2]ipb.IngestMessage_MessageType{
			"register": {ipb.IngestMessage_REGISTER_PROVIDER, ipb.IngestMessage_REGISTER_PROVIDER_RESPONSE},
			"discover": {ipb.IngestMessage_DISCOVER_PROVIDER, ipb.IngestMessage_DISCOVER_PROVIDER_RESPONSE},
			"index":    {ipb.IngestMessage_INDEX_CONTENT, ipb.IngestMessage_INDEX_CONTENT_RESPONSE},
		}[s.Kind]
		res = x.ingP2P(i, t[0], t[1], data)
	}
	if (res == "ok") != (s.Res == "ok") {
		fail(s.Res, res, "step %d: %s request for %s signed by %s (problem: %s, sequence %d) over %s", i, s.Kind, s.Prov, s.Signer, s.Defect, s.Seq, s.Via)
	}
	if s.Kind == "discover" {
		if s.Started {
			x.async[s.Disc] = true
			if !poll(x.o.Wait, func() bool { return x.disc.count(s.Disc) > before }) {
				fail("a lookup", "none", "step %d: a discover request does not look the provider up", i)
			}
		} else {
			time.Sleep(x.o.Settle / 4)
			x.reg.IsRegistered(prov.ID)
		}
		if n := x.disc.count(s.Disc) - before; (n == 1) != s.Started || n > 1 {
			fail(s.Started, n, "step %d: number of lookups by a discover request (problem: %s)", i, s.Defect)
		}
	}
}

// swapPayload replaces the payload in an envelope (protobuf field 3, length-delimited).
func swapPayload(env, old, nw []byte) []byte {
	k := bytes.Index(env, old)
	if k < 0 {
		broken("payload not found in the envelope")
	}
	// rebuild the envelope: everything before the field's length, the new field, the rest
	n := varintLen(len(old))
	out := append([]byte{}, env[:k-n]...)
	out = append(out, varintBytes(len(nw))...)
	out = append(out, nw...)
	return append(out, env[k+len(old):]...)
}

func varintBytes(n int) []byte {
	var b []byte
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}
func varintLen(n int) int { return len(varintBytes(n)) }
