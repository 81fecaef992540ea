package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-legs/dtsync"
	httpingestclient "github.com/filecoin-project/storetheindex/api/v0/ingest/client/http"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/verifclock/vclock"
	finder "github.com/filecoin-project/storetheindex/server/finder/handler"
	"github.com/ipfs/go-cid"
	hamt "github.com/ipld/go-ipld-adl-hamt"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/basicnode"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/record"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multicodec"
	"github.com/multiformats/go-multihash"
)

func init() { runners["Ingest"] = runIngest }

type iAd struct {
	Prov, Ctx, Kind, Ek, Auth string
	Ord                       []string
}

type iReg struct {
	Reg           bool
	Addr, Pub, Ad string
}

type iExp struct {
	Idx    [][]string
	Flux   []iFlux
	Latest map[string]string
	Reg    map[string]iReg
	Multi  map[string]bool
	Lag    []string
	Done   map[string][]string
	Hid    []string
}

// iFlux is what a failed attempt may have left in a provider's context.
type iFlux struct {
	prov, ctx, md string
	ls            []string
}

func (f *iFlux) UnmarshalJSON(b []byte) error {
	var x []json.RawMessage
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	for i, p := range []interface{}{&f.prov, &f.ctx, &f.md, &f.ls} {
		if err := json.Unmarshal(x[i], p); err != nil {
			return err
		}
	}
	return nil
}

// sameIdx compares the index with what is expected, allowing for what failed attempts may have left.
func sameIdx(e iExp, obs [][]string) bool {
	exp := append([][]string(nil), e.Idx...)
	sortTuples(exp)
	if len(exp) == 0 && len(obs) == 0 || reflect.DeepEqual(exp, obs) {
		return true
	}
	flux := map[string]iFlux{}
	for _, f := range e.Flux {
		flux[f.prov+"\x00"+f.ctx] = f
	}
	must := map[string]string{}
	for _, t := range exp {
		must[strings.Join(t[:3], "\x00")] = t[3]
	}
	seen := map[string]bool{}
	for _, t := range obs {
		f, inFlux := flux[t[1]+"\x00"+t[2]]
		l := t[0]
		if i := strings.Index(l, "("); i > 0 {
			l = l[:i]
			if !inFlux || !contains(f.ls, l) {
				return false
			}
		}
		k := l + "\x00" + t[1] + "\x00" + t[2]
		seen[k] = true
		md, ok := must[k]
		if ok && l != t[0] {
			return false
		}
		switch {
		case ok && md == t[3]:
		case ok && inFlux && f.md == t[3]:
		case !ok && inFlux && contains(f.ls, l) && f.md == t[3]:
		default:
			return false
		}
	}
	for k := range must {
		if !seen[k] {
			return false
		}
	}
	return true
}

type iStep struct {
	Op, Pub, Prov, Peer, F, Res string
	Ad                          json.RawMessage
	Depth, N, At                int
	Resync, On                  bool
	Exp                         iExp
	Alts                        []iExp
	D                           int
	Walk, Q                     []string
	Ans                         [][]string
}

type iCfg struct {
	Allow0, Publish0 bool
	PubExc           []string
	// optional overrides of the variation drawn from the seed
	Workers, Batch, Seg, Expand int
	Enc                         string
	// the next sync after a removal fetches the chain again
	Walk bool
	// polling, with the clock in the hands of the harness
	Interval, Retry, Stop    int
	OInterval, ORetry, OStop int
	OPeer                    string
	P2P, Gossip              bool
}

// pubAd is a published advertisement.
type pubAd struct {
	ad      iAd
	cid     cid.Cid
	sch     schema.Advertisement
	entCids []cid.Cid
	id      string
}

// world is the environment of the indexer under test: the publishers.
type world struct {
	rng    *rand.Rand
	chains map[string]*Chain
	ads    map[string][]*pubAd
	ids    map[cid.Cid]string
	labels map[string]string // multihash -> label
	labelN map[string]int    // multihashes per label
	expand int
	enc    string
	faults bool
	gossip bool // publishers have a libp2p host
	p2p    bool // and serve their chains from it
}

func newWorld(rng *rand.Rand, expand int, enc string) *world {
	return &world{rng: rng, chains: map[string]*Chain{}, ads: map[string][]*pubAd{}, ids: map[cid.Cid]string{},
		labels: map[string]string{}, labelN: map[string]int{}, expand: expand, enc: enc}
}

func (w *world) close() {
	for _, c := range w.chains {
		c.drop()
	}
}

func (w *world) chain(pub string) *Chain {
	c, ok := w.chains[pub]
	if !ok {
		c = newChain(ident(pub))
		if w.gossip || w.p2p {
			c.startP2P(w.p2p)
		}
		w.chains[pub] = c
	}
	return c
}

func (w *world) mhs(label string) []multihash.Multihash {
	out := make([]multihash.Multihash, w.expand)
	for i := range out {
		out[i] = mhKind(fmt.Sprintf("content/%s/%d", label, i), i+len(label)+int(label[len(label)-1]))
		w.labels[string(out[i])] = label
	}
	w.labelN[label] = w.expand
	return out
}

func adAddr(id string) string {
	return "/dns4/" + strings.Replace(id, "#", "-", 1) + ".verif.example/tcp/3104"
}

func addrID(a string) string {
	a = strings.TrimPrefix(a, "/dns4/")
	i := strings.Index(a, ".verif.example")
	if i < 0 {
		return a
	}
	a = a[:i]
	j := strings.LastIndex(a, "-")
	if j < 0 {
		return a
	}
	return a[:j] + "#" + a[j+1:]
}

// malformed entries blocks; %q is replaced by something unique
var badBlocks = []string{`{"foo":%q}`, `{"Entries":%q}`, `[%q]`, `{"Entries":[1,2,%q]}`, `{"Next":%q}`, `{"Entries":null,"x":%q}`, `%q`}

// malformed HAMT roots: undecodable, bitmap without data, empty bucket
var badHamts = []string{`{"hamt":%q}`,
	`{"bucketSize":1,"hamt":[{"/":{"bytes":"/w"}},[]],"hashAlg":34,"x":%q}`,
	`{"bucketSize":1,"hamt":[{"/":{"bytes":"/w"}},[]],"hashAlg":34}`,
	`{"bucketSize":1,"hamt":[{"/":{"bytes":"AQ"}},[[]]],"hashAlg":34}`}

// entries builds the entries DAG of an advertisement.
func (w *world) entries(ch *Chain, a iAd, id string) (ipld.Link, []cid.Cid) {
	// filler makes the blocks of different advertisements different; it is not a
	// valid multihash and must be ignored
	filler := multihash.Multihash("filler " + id)
	if a.Kind != "put" {
		return schema.NoEntries, nil
	}
	bad := func(kinds []string) cid.Cid {
		b := kinds[w.rng.Intn(len(kinds))]
		if strings.Contains(b, "%q") {
			b = fmt.Sprintf(b, "bad "+id)
		}
		return ch.storeRaw([]byte(b), uint64(multicodec.DagJson))
	}
	if a.Ek == "bad1" {
		for _, l := range a.Ord {
			w.mhs(l)
		}
		kinds := badBlocks
		if w.rng.Intn(3) == 0 {
			kinds = badHamts
			if w.faults {
				kinds = badHamts[:2]
			}
		}
		c := bad(kinds)
		return cidlink.Link{Cid: c}, []cid.Cid{c}
	}
	if a.Ek == "bad2" {
		for _, l := range a.Ord {
			w.mhs(l)
		}
		c2 := bad(badBlocks)
		n, err := schema.EntryChunk{Entries: append(w.mhs(a.Ord[0]), filler), Next: cidlink.Link{Cid: c2}}.ToNode()
		if err != nil {
			broken("chunk: %v", err)
		}
		ls := ch.lsys()
		l, err := ls.Store(ipld.LinkContext{}, schema.Linkproto, n)
		if err != nil {
			broken("chunk: %v", err)
		}
		return l, []cid.Cid{l.(cidlink.Link).Cid, c2}
	}
	if w.enc == "hamt" {
		var all []multihash.Multihash
		for _, l := range a.Ord {
			all = append(all, w.mhs(l)...)
		}
		l := ch.hamt(append(all, filler))
		return l, []cid.Cid{l.(cidlink.Link).Cid}
	}
	var parts [][]multihash.Multihash
	for _, l := range a.Ord {
		mhs := w.mhs(l)
		k := w.rng.Intn(len(mhs) + 1)
		parts = append(parts, append(append(append([]multihash.Multihash{}, mhs[:k]...), filler), mhs[k:]...))
	}
	return ch.chunks(parts)
}

func (ch *Chain) hamt(mhs []multihash.Multihash) ipld.Link {
	ls := ch.lsys()
	b := hamt.NewBuilder(hamt.Prototype{BitWidth: 3, BucketSize: 1}).WithLinking(ls, schema.Linkproto)
	ma, err := b.BeginMap(0)
	if err != nil {
		broken("hamt: %v", err)
	}
	for _, m := range mhs {
		if err = ma.AssembleKey().AssignBytes(m); err != nil {
			broken("hamt: %v", err)
		}
		if err = ma.AssembleValue().AssignBool(true); err != nil {
			broken("hamt: %v", err)
		}
	}
	if err = ma.Finish(); err != nil {
		broken("hamt: %v", err)
	}
	n := hamt.Build(b)
	l, err := ls.Store(ipld.LinkContext{}, schema.Linkproto, n.Substrate())
	if err != nil {
		broken("hamt: %v", err)
	}
	return l
}

// publish appends an advertisement to the publisher's chain.
func (w *world) publish(pub string, a iAd) *pubAd {
	ch := w.chain(pub)
	n := len(w.ads[pub]) + 1
	id := fmt.Sprintf("%s#%d", pub, n)
	ents, ecids := w.entries(ch, a, id)
	sch := schema.Advertisement{
		Provider:  ident(a.Prov).ID.String(),
		Addresses: []string{adAddr(id)},
		Entries:   ents,
		ContextID: []byte("ctx-" + a.Ctx),
		Metadata:  []byte(id),
		IsRm:      a.Kind == "rm",
	}
	if n > 1 {
		sch.PreviousID = cidlink.Link{Cid: w.ads[pub][n-2].cid}
	}
	key := ident(a.Prov).Priv
	switch {
	case a.Auth == "pub":
		key = ident(pub).Priv
	case a.Auth == "evil":
		key = ident("evil").Priv
	}
	if err := sch.Sign(key); err != nil {
		broken("sign: %v", err)
	}
	if !strings.HasPrefix(a.Auth, "t_s") && w.rng.Intn(6) == 0 {
		// the format of signatures that older publishers use
		sch.Signature = sealOld(&sch, key, "indexer")
	}
	if strings.HasPrefix(a.Auth, "t_") {
		w.tamper(ch, &sch, a.Auth, pub)
	}
	c := ch.storeAd(sch, nil)
	pa := &pubAd{ad: a, cid: c, sch: sch, entCids: ecids, id: id}
	w.ads[pub] = append(w.ads[pub], pa)
	w.ids[c] = id
	ch.setHead(c)
	return pa
}

// oldSig is a signature record whose payload is the signed fields themselves.
type oldSig struct {
	dom string
	b   []byte
}

func (r *oldSig) Domain() string                 { return r.dom }
func (r *oldSig) Codec() []byte                  { return []byte("/indexer/ingest/adSignature") }
func (r *oldSig) MarshalRecord() ([]byte, error) { return r.b, nil }
func (r *oldSig) UnmarshalRecord(b []byte) error { r.b = b; return nil }

// sealOld signs an advertisement in the way of older publishers.
func sealOld(s *schema.Advertisement, key crypto.PrivKey, dom string) []byte {
	b := cid.Undef.Bytes()
	if s.PreviousID != nil {
		b = append([]byte{}, s.PreviousID.(cidlink.Link).Cid.Bytes()...)
	}
	b = append(b, s.Entries.(cidlink.Link).Cid.Bytes()...)
	b = append(b, s.Provider...)
	for _, a := range s.Addresses {
		b = append(b, a...)
	}
	b = append(b, s.Metadata...)
	if s.IsRm {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	mh, err := multihash.Encode(b, multihash.SHA2_256)
	if err != nil {
		broken("%v", err)
	}
	env, err := record.Seal(&oldSig{dom: dom, b: mh}, key)
	if err != nil {
		broken("seal: %v", err)
	}
	out, err := env.Marshal()
	if err != nil {
		broken("seal: %v", err)
	}
	return out
}

// tamper changes one field after signing.
func (w *world) tamper(ch *Chain, s *schema.Advertisement, what, pub string) {
	switch what {
	case "t_prev":
		if s.PreviousID == nil {
			s.PreviousID = cidlink.Link{Cid: rawCid([]byte("nothing"), uint64(multicodec.DagJson))}
		} else {
			ads := w.ads[pub]
			if len(ads) > 1 && w.rng.Intn(2) == 0 {
				s.PreviousID = cidlink.Link{Cid: ads[len(ads)-2].cid}
			} else {
				s.PreviousID = nil
			}
		}
	case "t_ents":
		l, _ := ch.chunks([][]multihash.Multihash{w.mhs("evil")})
		s.Entries = l
	case "t_prov":
		s.Provider = ident("victim").ID.String()
	case "t_addr":
		switch w.rng.Intn(3) {
		case 0:
			s.Addresses = []string{"/dns4/evil-1.verif.example/tcp/1"}
		case 1:
			s.Addresses = append(s.Addresses, "/dns4/evil-1.verif.example/tcp/1")
		default:
			s.Addresses = nil
		}
	case "t_md":
		if w.rng.Intn(2) == 0 {
			s.Metadata = []byte("evil#1")
		} else {
			s.Metadata = append([]byte{}, s.Metadata[:len(s.Metadata)-1]...)
		}
	case "t_rm":
		s.IsRm = !s.IsRm
	case "t_ctx": // (not covered by the signature: a known finding)
		s.ContextID = []byte("ctx-other")
	case "t_shift": // the end of an address becomes the beginning of the metadata (a known finding)
		a := s.Addresses[len(s.Addresses)-1]
		s.Addresses = append(append([]string{}, s.Addresses[:len(s.Addresses)-1]...), a[:len(a)-2])
		s.Metadata = append([]byte(a[len(a)-2:]), s.Metadata...)
	case "t_sig":
		switch w.rng.Intn(4) {
		case 3:
			// a signature for another purpose
			s.Signature = sealOld(s, ident(labelOf(mustPeer(s.Provider))).Priv, "indexer-other")
		case 0:
			s.Signature = s.Signature[:len(s.Signature)-1]
		case 1:
			s.Signature = nil
		default:
			b := append([]byte{}, s.Signature...)
			b[len(b)-1-w.rng.Intn(20)] ^= 0x10
			s.Signature = b
		}
	case "t_sigswap":
		// a valid signature by the same provider over something else
		o := *s
		o.Metadata = []byte("other")
		if err := o.Sign(ident(labelOf(mustPeer(s.Provider))).Priv); err != nil {
			broken("sign: %v", err)
		}
		s.Signature = o.Signature
	default:
		broken("unknown tampering %q", what)
	}
}

func mustPeer(s string) peer.ID {
	p, err := peer.Decode(s)
	if err != nil {
		broken("peer: %v", err)
	}
	return p
}

// setFault makes the named block of the advertisement unavailable or wrong.
func (w *world) setFault(pub, id, f string) {
	ch := w.chain(pub)
	for _, a := range w.ads[pub] {
		if a.id != id {
			continue
		}
		if f == "ok" {
			ch.clearFault(a.cid)
			for _, c := range a.entCids {
				ch.clearFault(c)
			}
			return
		}
		nf := fault{kind: []string{"404", "500"}[w.rng.Intn(2)]}
		switch f {
		case "ad404":
			ch.setFault(a.cid, nf)
		case "ent404":
			ch.setFault(a.entCids[0], nf)
		case "ent404b":
			ch.setFault(a.entCids[len(a.entCids)-1], nf)
		case "adsub":
			ch.setFault(a.cid, fault{kind: "subst", data: w.substAd(ch, a)})
		case "entsub":
			ch.setFault(a.entCids[0], fault{kind: "subst", data: w.substEnt(ch, a)})
		default:
			broken("unknown fault %q", f)
		}
		return
	}
	broken("fault on unknown ad %s", id)
}

func (w *world) substAd(ch *Chain, a *pubAd) []byte {
	switch w.rng.Intn(4) {
	case 0: // another advertisement, properly signed by the provider
		s := a.sch
		l, _ := ch.chunks([][]multihash.Multihash{w.mhs("evil")})
		s.Entries = l
		s.IsRm = false
		s.Metadata = []byte("evil#1")
		c := ch.storeAd(s, ident(a.ad.Prov).Priv)
		ch.mu.Lock()
		defer ch.mu.Unlock()
		return ch.blocks[c]
	case 1: // truncated
		ch.mu.Lock()
		defer ch.mu.Unlock()
		b := ch.blocks[a.cid]
		return b[:len(b)-1]
	case 2: // re-encoded: same node, other bytes
		ch.mu.Lock()
		defer ch.mu.Unlock()
		return append([]byte(" "), ch.blocks[a.cid]...)
	default: // not an advertisement at all
		return []byte(`{"Entries":[]}`)
	}
}

func (w *world) substEnt(ch *Chain, a *pubAd) []byte {
	switch w.rng.Intn(3) {
	case 0, 1:
		_, cs := ch.chunks([][]multihash.Multihash{w.mhs("evil")})
		ch.mu.Lock()
		defer ch.mu.Unlock()
		return ch.blocks[cs[0]]
	default:
		ch.mu.Lock()
		defer ch.mu.Unlock()
		return append([]byte(" "), ch.blocks[a.entCids[0]]...)
	}
}

// observe* read the state of the indexer in the vocabulary of the specification.
func observeIdx(w *world, dur *Durable) [][]string {
	dur.mu.Lock()
	defer dur.mu.Unlock()
	count := map[string]int{}
	it, err := dur.idx.Iter()
	if err != nil {
		broken("iter: %v", err)
	}
	seen := map[string]bool{}
	for {
		m, vals, err := it.Next()
		if err != nil {
			break
		}
		if seen[string(m)] {
			continue
		}
		seen[string(m)] = true
		l, ok := w.labels[string(m)]
		if !ok {
			l = "?" + m.B58String()
		}
		for _, v := range vals {
			k := strings.Join([]string{l, labelOf(v.ProviderID), strings.TrimPrefix(string(v.ContextID), "ctx-"), string(v.MetadataBytes)}, "\x00")
			count[k]++
		}
	}
	var out [][]string
	for k, n := range count {
		f := strings.Split(k, "\x00")
		if want := w.labelN[f[0]]; want != 0 && n != want {
			f[0] = fmt.Sprintf("%s(%d of %d)", f[0], n, want)
		}
		out = append(out, f)
	}
	sortTuples(out)
	return out
}

func sortTuples(t [][]string) {
	sort.Slice(t, func(i, j int) bool { return strings.Join(t[i], "\x00") < strings.Join(t[j], "\x00") })
}

type iObs struct {
	Idx    [][]string
	Latest map[string]string
	Reg    map[string]iReg
	Listed []string
}

func (w *world) idOf(c cid.Cid) string {
	if c == cid.Undef {
		return "none"
	}
	if id, ok := w.ids[c]; ok {
		return id
	}
	return "?" + c.String()
}

func observeReg(w *world, n *Node, prov string) iReg {
	pi := n.reg.ProviderInfo(ident(prov).ID)
	if pi == nil {
		if n.reg.IsRegistered(ident(prov).ID) {
			return iReg{true, "hidden", "none", "none"}
		}
		return iReg{false, "none", "none", "none"}
	}
	if !n.reg.IsRegistered(ident(prov).ID) {
		return iReg{false, "info of a provider that is not registered", "none", "none"}
	}
	r := iReg{Reg: true, Pub: "none", Ad: w.idOf(pi.LastAdvertisement)}
	var as []string
	for _, a := range pi.AddrInfo.Addrs {
		as = append(as, addrID(a.String()))
	}
	r.Addr = strings.Join(as, ",")
	if pi.Publisher.Validate() == nil {
		r.Pub = labelOf(pi.Publisher)
		if pi.PublisherAddr == nil || pi.PublisherAddr.String() != w.chain(r.Pub).addr().String() {
			r.Pub += fmt.Sprintf("(bad address %v)", pi.PublisherAddr)
		}
	}
	if pi.AddrInfo.ID != ident(prov).ID {
		r.Addr += "(wrong id)"
	}
	return r
}

func observe(w *world, n *Node, e iExp) iObs {
	o := iObs{Latest: map[string]string{}, Reg: map[string]iReg{}}
	o.Idx = observeIdx(w, n.in.dur)
	for p := range e.Latest {
		c, err := n.ing.GetLatestSync(ident(p).ID)
		if err != nil {
			o.Latest[p] = "error " + err.Error()
		} else {
			o.Latest[p] = w.idOf(c)
		}
	}
	for p := range e.Reg {
		o.Reg[p] = observeReg(w, n, p)
	}
	for _, pi := range n.reg.AllProviderInfo() {
		o.Listed = append(o.Listed, labelOf(pi.AddrInfo.ID))
	}
	sort.Strings(o.Listed)
	return o
}

func contains(s []string, x string) bool {
	for _, y := range s {
		if y == x {
			return true
		}
	}
	return false
}

// diff says how the observation differs from what the specification allows.
func diff(e iExp, o iObs) string {
	if !sameIdx(e, o.Idx) {
		return "index"
	}
	for p, l := range e.Latest {
		if e.Multi[p] {
			// The order between providers is open: progress must be one that was processed.
			if (l == "none") != (o.Latest[p] == "none") || (l != "none" && !contains(e.Done[p], o.Latest[p])) {
				return "progress of " + p
			}
			continue
		}
		if contains(e.Lag, p) && (o.Latest[p] == "none" || contains(e.Done[p], o.Latest[p])) {
			continue
		}
		if o.Latest[p] != l {
			return "progress of " + p
		}
	}
	var listed []string
	for p, r := range e.Reg {
		if contains(e.Hid, p) {
			r = iReg{true, "hidden", "none", "none"}
		} else if r.Reg {
			listed = append(listed, p)
		}
		if o.Reg[p] != r {
			return "registration of " + p
		}
	}
	sort.Strings(listed)
	if strings.Join(listed, " ") != strings.Join(o.Listed, " ") {
		return "list of providers"
	}
	return ""
}

func runIngest(tr Trace, o Opts, r *Result) {
	var cfg iCfg
	if err := json.Unmarshal(tr.Cfg, &cfg); err != nil {
		broken("cfg: %v", err)
	}
	var steps []iStep
	if err := json.Unmarshal(tr.Steps, &steps); err != nil {
		broken("steps: %v", err)
	}
	r.Steps = len(steps)
	rng := rngFor(o.Seed, tr.ID)
	// vary what the specification abstracts from
	if cfg.Workers == 0 {
		cfg.Workers = []int{1, 1, 2, 4}[rng.Intn(4)]
	}
	if cfg.Batch == 0 {
		cfg.Batch = []int{1, 2, 3, 256}[rng.Intn(4)]
	}
	if cfg.Seg == 0 {
		cfg.Seg = []int{0, 0, 1, 2, 5}[rng.Intn(5)]
	}
	if cfg.Expand == 0 {
		cfg.Expand = []int{1, 2, 3, 7}[rng.Intn(4)]
	}
	if cfg.Enc == "" {
		cfg.Enc = []string{"chunk", "chunk", "hamt"}[rng.Intn(3)]
		for _, s := range steps {
			if s.F == "ent404b" {
				cfg.Enc = "chunk"
			}
			if s.Op == "publish" {
				var a iAd
				json.Unmarshal(s.Ad, &a)
				if a.Ek == "bad2" {
					cfg.Enc = "chunk"
				}
			}
		}
	}
	r.Env = fmt.Sprintf("workers=%d batch=%d segment=%d expand=%d enc=%s", cfg.Workers, cfg.Batch, cfg.Seg, cfg.Expand, cfg.Enc)
	w := newWorld(rng, cfg.Expand, cfg.Enc)
	defer w.close()
	w.gossip, w.p2p = cfg.Gossip, cfg.P2P
	for _, s := range steps {
		if s.Op == "fault" {
			w.faults = true
		}
	}
	allowed := map[string]bool{}
	polCfg := func() config.Policy {
		p := config.Policy{Allow: cfg.Allow0, Publish: cfg.Publish0}
		for _, l := range cfg.PubExc {
			p.PublishExcept = append(p.PublishExcept, ident(l).ID.String())
		}
		for l, v := range allowed {
			if v != cfg.Allow0 {
				p.Except = append(p.Except, ident(l).ID.String())
			}
		}
		return p
	}
	ncfg := func() NodeCfg {
		c := NodeCfg{Policy: polCfg(), Workers: cfg.Workers, Batch: cfg.Batch, SegDepth: cfg.Seg, Listen: cfg.Gossip}
		if cfg.Interval != 0 {
			u := func(n int) config.Duration { return config.Duration(time.Duration(n) * rUnit) }
			c.DiscCfg = &config.Discovery{PollInterval: u(cfg.Interval), PollRetryAfter: u(cfg.Retry), PollStopAfter: u(cfg.Stop),
				PollOverrides: []config.Polling{{ProviderID: ident(cfg.OPeer).ID.String(), Interval: u(cfg.OInterval), RetryAfter: u(cfg.ORetry), StopAfter: u(cfg.OStop)}}}
		}
		return c
	}
	if cfg.Interval != 0 {
		vclock.Fake(time.Date(2030, 1, 2, 3, 4, 5, 678900000, time.UTC))
	}
	dur := newDurable()
	n, err := startNode(dur, ncfg())
	if err != nil {
		broken("start: %v", err)
	}
	var idxmu sync.Mutex
	idxdown, regdown := false, false
	slow := time.Duration([]int{0, 0, 0, 2}[rng.Intn(4)]) * time.Millisecond
	hook := func(n *Node) {
		n.in.dsFault = func(op, key string) error {
			idxmu.Lock()
			defer idxmu.Unlock()
			if regdown && op == "put" && strings.HasPrefix(key, "/registry/pinfo") {
				return fmt.Errorf("store refuses provider records")
			}
			return nil
		}
		n.in.idxFault = func(op string, v indexer.Value) error {
			time.Sleep(slow)
			idxmu.Lock()
			defer idxmu.Unlock()
			if idxdown {
				return fmt.Errorf("store refuses writes")
			}
			return nil
		}
	}
	hook(n)
	defer func() { n.close(5 * time.Second) }()

	crashed := false
	for i, s := range steps {
		r.Step = i
		settle := time.Duration(0)
		switch s.Op {
		case "publish":
			var a iAd
			if err := json.Unmarshal(s.Ad, &a); err != nil {
				broken("ad: %v", err)
			}
			w.publish(s.Pub, a)
		case "rewind":
			w.ads[s.Pub] = w.ads[s.Pub][:s.N]
			w.chain(s.Pub).setHead(w.ads[s.Pub][s.N-1].cid)
		case "sync":
			ctx, cancel := context.WithCancel(context.Background())
			ch := w.chain(s.Pub)
			head := ch.getHead()
			depth := s.Depth
			if depth == 99 { // the model's "no limit"
				depth = -1
			}
			f0 := adFetches(w, ch)
			res, err := n.ing.Sync(ctx, ident(s.Pub).ID, ch.addr(), depth, s.Resync)
			if err != nil {
				cancel()
				fail(s.Res, err.Error(), "step %d: sync of %s refused", i, s.Pub)
			}
			got := "none"
			select {
			case c, ok := <-res:
				if ok {
					got = w.idOf(c)
				}
			case <-time.After(o.Wait):
				cancel()
				fail(s.Res, "nothing", "step %d: sync of %s does not end", i, s.Pub)
			}
			cancel()
			if got != s.Res {
				fail(s.Res, got, "step %d: sync of %s (head %s) gave the wrong result", i, s.Pub, w.idOf(head))
			}
			if cfg.Walk {
				f1 := adFetches(w, ch)
				for _, id := range s.Walk {
					if f1[id] == f0[id] {
						fail(s.Walk, "not fetched: "+id, "step %d: the sync of %s does not walk the chain again", i, s.Pub)
					}
				}
			}
			if s.Exp.Multi[s.Pub] {
				// the sync ends with the head; other providers' advertisements may still be processed
				waitState(w, n, s, o, i)
				quiesce(n, ch, o.Settle)
			} else if got != "none" {
				// when it ends, everything up to the head has been processed, or tried
				if ob := observe(w, n, s.Exp); !sameIdx(s.Exp, ob.Idx) {
					fail(s.Exp, ob, "step %d: when the sync of %s ends: wrong index", i, s.Pub)
				}
			}
		case "announce":
			var id string
			json.Unmarshal(s.Ad, &id)
			ch := w.chain(s.Pub)
			var c cid.Cid
			for _, a := range w.ads[s.Pub] {
				if a.id == id {
					c = a.cid
				}
			}
			ch.mu.Lock()
			nf := ch.nfetch
			ch.mu.Unlock()
			from := peer.AddrInfo{ID: ident(s.Pub).ID, Addrs: ma(ch.addr())}
			if cfg.Gossip && rng.Intn(2) == 0 {
				ch.gossip(n, c, o.Wait)
			} else if rng.Intn(2) == 0 {
				// as a request
				cl, err := httpingestclient.New(n.ingestURL())
				if err != nil {
					broken("client: %v", err)
				}
				err = cl.Announce(context.Background(), &from, c)
				if err != nil && s.Res == "ok" {
					fail(s.Res, err.Error(), "step %d: announcement request of %s failed", i, id)
				}
				if s.Res == "refused" && (err == nil || !strings.Contains(err.Error(), http.StatusText(http.StatusForbidden)) && !strings.Contains(err.Error(), "403")) {
					fail("forbidden", fmt.Sprint(err), "step %d: announcement request by %s, which is not allowed", i, s.Pub)
				}
			} else if err := n.ing.Announce(context.Background(), c, from); err != nil && s.Res == "ok" {
				fail(s.Res, err.Error(), "step %d: announce of %s failed", i, id)
			}
			// wait until the expected state is there, then until nothing happens any more
			waitState(w, n, s, o, i)
			if cfg.P2P {
				// a connection may have to be made first
				quiesce(n, ch, 6*o.Settle)
			} else {
				quiesce(n, ch, o.Settle)
			}
			if s.Res == "refused" {
				ch.mu.Lock()
				d := ch.nfetch - nf
				ch.mu.Unlock()
				if d != 0 {
					fail("no fetch", fmt.Sprintf("%d blocks fetched", d), "step %d: announce by %s, which is not allowed, is acted on", i, s.Pub)
				}
			}
		case "stopat":
			// the indexer stops while the content of the advertisement is being
			// stored, after everything else was processed
			var id string
			json.Unmarshal(s.Ad, &id)
			ch := w.chain(s.Pub)
			var prov peer.ID
			for _, a := range w.ads[s.Pub] {
				if a.id == id {
					prov = ident(a.ad.Prov).ID
				}
			}
			release := make(chan struct{})
			n.in.idxFault = func(op string, v indexer.Value) error {
				if v.ProviderID == prov {
					<-release
					return fmt.Errorf("stopped")
				}
				return nil
			}
			ctx, cancel := context.WithCancel(context.Background())
			if _, err := n.ing.Sync(ctx, ident(s.Pub).ID, ch.addr(), 0, false); err != nil {
				fail("a sync", err.Error(), "step %d: sync of %s refused", i, s.Pub)
			}
			ok := poll(o.Wait, func() bool { return diff(s.Exp, observe(w, n, s.Exp)) == "" })
			obs := observe(w, n, s.Exp)
			n.in.kill()
			cancel()
			close(release)
			n.close(o.Wait)
			if !ok {
				fail(s.Exp, obs, "step %d (stopat): wrong %s", i, diff(s.Exp, obs))
			}
			nn, err := startNode(dur, ncfg())
			if err != nil {
				fail("started", err.Error(), "step %d: cannot start on the existing stores", i)
			}
			n = nn
			hook(n)
		case "badann":
			b := badAnnounce(w, s.Pub)
			req, err := http.NewRequest(http.MethodPut, n.ingestURL()+"/ingest/announce", bytes.NewReader(b))
			if err != nil {
				broken("%v", err)
			}
			resp, err := http.DefaultClient.Do(req)
			if err != nil {
				fail("an answer", err.Error(), "step %d: no answer to a malformed announcement %q", i, b)
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
			if resp.StatusCode/100 != 4 {
				fail("a client error", resp.Status, "step %d: a malformed announcement %q is not refused", i, b)
			}
			settle = o.Settle / 8
		case "fault":
			var id string
			json.Unmarshal(s.Ad, &id)
			w.setFault(s.Pub, id, s.F)
		case "idxdown":
			idxmu.Lock()
			idxdown = s.On
			idxmu.Unlock()
		case "regdown":
			idxmu.Lock()
			regdown = s.On
			idxmu.Unlock()
		case "headdown":
			ch := w.chain(s.Pub)
			ch.mu.Lock()
			ch.headErr = s.On
			ch.mu.Unlock()
		case "restart":
			if !n.close(o.Wait) {
				fail("closed", "still closing", "step %d: close does not end", i)
			}
			n.in.kill()
			if cfg.Interval != 0 {
				vclock.Fake(vclock.Now())
			}
			nn, err := startNode(dur, ncfg())
			if err != nil {
				fail("started", err.Error(), "step %d: cannot start on the existing stores", i)
			}
			n = nn
			hook(n)
		case "remove":
			if err := n.reg.RemoveProvider(context.Background(), ident(s.Prov).ID); err != nil {
				fail("removed", err.Error(), "step %d: removing provider %s failed", i, s.Prov)
			}
			settle = o.Settle / 4
		case "wait":
			fired := vclock.Advance(time.Duration(s.D) * rUnit)
			if !poll(o.Wait, func() bool { return vclock.Handled(fired) }) {
				broken("step %d: the poll round does not end", i)
			}
			n.reg.IsRegistered(ident("p").ID) // (the round's action has run)
			waitState(w, n, s, o, i)
			if len(fired) > 0 {
				for _, ch := range w.chains {
					quiesce(n, ch, o.Settle/4)
				}
			}
		case "lookup":
			lookup(w, n, s, i)
			waitState(w, n, s, o, i)
			// (several clean-ups of the same context may be on their way)
			for k := 0; k < 4; k++ {
				runtime.Gosched()
			}
			settle = o.Settle / 8
		case "allow":
			allowed[s.Peer] = s.On
			if s.On {
				n.reg.AllowPeer(ident(s.Peer).ID)
			} else {
				n.reg.BlockPeer(ident(s.Peer).ID)
			}
			if n.reg.Allowed(ident(s.Peer).ID) != s.On {
				fail(s.On, !s.On, "step %d: allowed state of %s", i, s.Peer)
			}
		case "crash":
			ch := w.chain(s.Pub)
			depth := s.Depth
			if depth == 99 {
				depth = -1
			}
			run := func(n *Node) {
				ctx, cancel := context.WithCancel(context.Background())
				defer cancel()
				res, err := n.ing.Sync(ctx, ident(s.Pub).ID, ch.addr(), depth, s.Resync)
				if err != nil {
					fail("a sync", err.Error(), "step %d: sync of %s refused", i, s.Pub)
				}
				done := false
				ok := poll(o.Wait, func() bool {
					select {
					case <-res:
						done = true
					default:
					}
					return done || n.in.isDead()
				})
				if !ok {
					fail("an end", "nothing", "step %d: sync of %s does not end", i, s.Pub)
				}
			}
			if !n.close(o.Wait) {
				fail("closed", "still closing", "step %d: close does not end", i)
			}
			n.in.kill()
			// how many durable writes does this sync make?
			cp := dur.clone()
			probe, err := startNode(cp, ncfg())
			if err != nil {
				fail("started", err.Error(), "step %d: cannot start on the existing stores", i)
			}
			run(probe)
			probe.close(o.Wait)
			probe.in.mu.Lock()
			total := probe.in.writes
			probe.in.mu.Unlock()
			k := rng.Intn(total + 1)
			// the same sync, stopped after k of them
			dur.buffer()
			victim, err := startNodeIn(&Incarnation{dur: dur, budget: k}, ncfg())
			if err != nil {
				broken("start: %v", err)
			}
			hook(victim)
			run(victim)
			victim.in.kill()
			victim.close(o.Wait) // (a stopped process does not have to close)
			// some of what the value store was given since it was last flushed may
			// have been written
			dur.mu.Lock()
			left := len(dur.unflushed)
			dur.mu.Unlock()
			kept := 0
			if left > 0 {
				kept = rng.Intn(left + 1)
			}
			dur.lose(kept)
			dur.base = nil
			n, err = startNode(dur, ncfg())
			if err != nil {
				fail("started", err.Error(), "step %d: cannot start after stopping at write %d of %d", i, k, total)
			}
			hook(n)
			ob := observe(w, n, s.Exp)
			match := false
			why := ""
			for _, a := range s.Alts {
				d := diff(a, ob)
				if d == "" {
					match = true
					break
				}
				why = d
			}
			if !match {
				fail(s.Alts, ob, "step %d: stopped at durable write %d of %d of the sync of %s (%d of the %d last writes to the value store were not flushed, and lost): the state after the restart matches no prefix of the processing (%s)", i, k, total, s.Pub, left-kept, left, why)
			}
			crashed = true
			continue
		default:
			broken("unknown op %q", s.Op)
		}
		if crashed && s.Op == "publish" {
			continue
		}
		crashed = false
		waitState(w, n, s, o, i)
		if settle > 0 {
			time.Sleep(settle)
			waitState(w, n, s, o, i)
		}
	}
	// nothing happens after the end
	time.Sleep(o.Settle / 2)
	if len(steps) > 0 && !crashed {
		s := steps[len(steps)-1]
		if ob := observe(w, n, s.Exp); diff(s.Exp, ob) != "" {
			fail(s.Exp, ob, "after the last step: %s changed later", diff(s.Exp, ob))
		}
	}
	if !n.close(o.Wait) {
		fail("closed", "still closing", "close does not end")
	}
}

// badAnnounce makes an announcement message that makes no sense.
func badAnnounce(w *world, pub string) []byte {
	ch := w.chain(pub)
	p2p := func(l string) multiaddr.Multiaddr {
		a, err := peer.AddrInfoToP2pAddrs(&peer.AddrInfo{ID: ident(l).ID, Addrs: ma(ch.addr())})
		if err != nil {
			broken("%v", err)
		}
		return a[0]
	}
	m := dtsync.Message{Cid: ch.getHead()}
	k := w.rng.Intn(6)
	switch k {
	case 0: // from nowhere
	case 1: // from nobody
		m.SetAddrs(ma(ch.addr()))
	case 2: // from two
		m.SetAddrs(ma(p2p(pub), p2p("evil")))
	case 3: // from something that is not an address
		m.Addrs = [][]byte{[]byte("\xff\xff")}
	default:
		m.SetAddrs(ma(p2p(pub)))
	}
	var b bytes.Buffer
	if err := m.MarshalCBOR(&b); err != nil {
		broken("%v", err)
	}
	out := b.Bytes()
	switch k {
	case 4:
		out = out[:w.rng.Intn(len(out))]
	case 5:
		out = append([]byte("{}"), out...)
	}
	return out
}

// adFetches says how often each advertisement was fetched.
func adFetches(w *world, ch *Chain) map[string]int {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	out := map[string]int{}
	for c, n := range ch.fetches {
		if id, ok := w.ids[c]; ok {
			out[id] = n
		}
	}
	return out
}

// lookup asks for all multihashes of the labels.
func lookup(w *world, n *Node, s iStep, i int) {
	var q []multihash.Multihash
	for _, l := range s.Q {
		q = append(q, w.mhs(l)...)
	}
	resp, err := finder.NewFinderHandler(n.idx, n.reg).Find(q)
	if err != nil {
		fail(s.Ans, err.Error(), "step %d: a lookup fails", i)
	}
	count := map[string]int{}
	for _, r := range resp.MultihashResults {
		for _, p := range r.ProviderResults {
			count[strings.Join([]string{w.labels[string(r.Multihash)], labelOf(p.Provider.ID), strings.TrimPrefix(string(p.ContextID), "ctx-"), string(p.Metadata)}, "\x00")]++
		}
	}
	got := [][]string{}
	for k, c := range count {
		f := strings.Split(k, "\x00")
		if c != w.expand {
			f[0] = fmt.Sprintf("%s(%d of %d)", f[0], c, w.expand)
		}
		got = append(got, f)
	}
	want := append([][]string{}, s.Ans...)
	sortTuples(got)
	sortTuples(want)
	if !reflect.DeepEqual(got, want) {
		fail(want, got, "step %d: wrong answer of a lookup of %v", i, s.Q)
	}
}

func waitState(w *world, n *Node, s iStep, o Opts, i int) {
	var ob iObs
	if !poll(o.Wait, func() bool {
		ob = observe(w, n, s.Exp)
		return diff(s.Exp, ob) == ""
	}) {
		fail(s.Exp, ob, "step %d (%s): wrong %s", i, s.Op, diff(s.Exp, ob))
	}
}

// quiesce waits until neither the publisher nor the stores have seen anything for d.
func quiesce(n *Node, ch *Chain, d time.Duration) {
	get := func() int {
		ch.mu.Lock()
		a := ch.nfetch + ch.nhead
		ch.mu.Unlock()
		n.in.mu.Lock()
		a += n.in.writes
		n.in.mu.Unlock()
		return a
	}
	last := get()
	for k := 0; k < 1000; k++ {
		time.Sleep(d)
		x := get()
		if x == last {
			return
		}
		last = x
	}
}

var _ = basicnode.Prototype
