// Package main is the conformance harness: it replays behaviours generated by
// TLC from the TLA+ specification into the real storetheindex code, and records
// executions of the real code for validation by TLC. It uses exported APIs and
// network interfaces only.
package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	indexer "github.com/filecoin-project/go-indexer-core"
	"github.com/filecoin-project/go-indexer-core/store/memory"
	"github.com/filecoin-project/go-legs/httpsync"
	"github.com/filecoin-project/storetheindex/api/v0/ingest/schema"
	"github.com/filecoin-project/storetheindex/config"
	"github.com/filecoin-project/storetheindex/internal/ingest"
	"github.com/filecoin-project/storetheindex/internal/registry"
	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
	httpingestserver "github.com/filecoin-project/storetheindex/server/ingest/http"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	"github.com/ipfs/go-datastore/query"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/ipld/go-ipld-prime"
	"github.com/ipld/go-ipld-prime/codec/dagjson"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/ipld/go-ipld-prime/node/bindnode"
	"github.com/libp2p/go-libp2p"
	crypto "github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// ---------------------------------------------------------------- identities

type Ident struct {
	Label string
	Priv  crypto.PrivKey
	ID    peer.ID
}

var (
	identMu  sync.Mutex
	identMap = map[string]*Ident{}
)

// ident returns the deterministic identity with the given label.
func ident(label string) *Ident {
	identMu.Lock()
	defer identMu.Unlock()
	if id, ok := identMap[label]; ok {
		return id
	}
	h := sha256.Sum256([]byte("verif-ident-" + label))
	priv, _, err := crypto.GenerateEd25519Key(bytes.NewReader(append(h[:], h[:]...)))
	if err != nil {
		panic(err)
	}
	pid, err := peer.IDFromPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	id := &Ident{Label: label, Priv: priv, ID: pid}
	identMap[label] = id
	return id
}

func labelOf(p peer.ID) string {
	identMu.Lock()
	defer identMu.Unlock()
	for l, id := range identMap {
		if id.ID == p {
			return l
		}
	}
	return p.String()
}

// mhKind makes multihashes of several kinds.
func mhKind(s string, k int) multihash.Multihash {
	kinds := []uint64{multihash.SHA2_256, multihash.IDENTITY, multihash.SHA2_512, multihash.SHA2_256, multihash.SHA1, multihash.DBL_SHA2_256}
	m, err := multihash.Sum([]byte(s), kinds[k%len(kinds)], -1)
	if err != nil {
		panic(err)
	}
	return m
}

func mhOf(s string) multihash.Multihash {
	m, err := multihash.Sum([]byte(s), multihash.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	return m
}

// ---------------------------------------------------------------- HTTP block server

type fault struct {
	kind string // "404", "500", "corrupt", "subst", "stall"
	data []byte
}

// Chain is one publisher's served state.
type Chain struct {
	mu      sync.Mutex
	ident   *Ident
	path    string
	blocks  map[cid.Cid][]byte
	head    cid.Cid
	headErr bool
	headKey crypto.PrivKey
	faults  map[cid.Cid]fault
	gate    func(c cid.Cid) // called (outside the lock) for each block request
	fetches map[cid.Cid]int
	nfetch  int
	nhead   int
	p2p     *p2pPub
}

type blockServer struct {
	mu     sync.RWMutex
	chains map[string]*Chain
	port   int
	seq    int64
}

var (
	bsrv     *blockServer
	bsrvOnce sync.Once
)

func server() *blockServer {
	bsrvOnce.Do(func() {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		bsrv = &blockServer{chains: map[string]*Chain{}, port: l.Addr().(*net.TCPAddr).Port}
		s := &http.Server{Handler: bsrv}
		go s.Serve(l)
	})
	return bsrv
}

func (s *blockServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	if len(parts) < 2 {
		http.Error(w, "bad path", 400)
		return
	}
	s.mu.RLock()
	ch := s.chains[parts[0]]
	s.mu.RUnlock()
	if ch == nil {
		http.Error(w, "no chain", 404)
		return
	}
	ask := path.Base(r.URL.Path)
	if ask == "head" {
		ch.mu.Lock()
		head, herr, key := ch.head, ch.headErr, ch.headKey
		ch.nhead++
		ch.mu.Unlock()
		if herr {
			http.Error(w, "head unavailable", 500)
			return
		}
		b, err := signedHead(head, key)
		if err != nil {
			http.Error(w, err.Error(), 500)
			return
		}
		w.Write(b)
		return
	}
	c, err := cid.Parse(ask)
	if err != nil {
		http.Error(w, "not a cid", 400)
		return
	}
	ch.mu.Lock()
	gate := ch.gate
	ch.mu.Unlock()
	if gate != nil {
		gate(c)
	}
	ch.mu.Lock()
	ch.fetches[c]++
	ch.nfetch++
	f, bad := ch.faults[c]
	data, ok := ch.blocks[c]
	ch.mu.Unlock()
	if bad {
		switch f.kind {
		case "404":
			http.Error(w, "not found", 404)
			return
		case "500":
			http.Error(w, "temporary", 500)
			return
		case "corrupt", "subst":
			w.Write(f.data)
			return
		}
	}
	if !ok {
		http.Error(w, "not found", 404)
		return
	}
	w.Write(data)
}

type signedHeadT struct {
	Head   cidlink.Link
	Sig    []byte
	Pubkey []byte
}

func signedHead(c cid.Cid, key crypto.PrivKey) ([]byte, error) {
	sig, err := key.Sign(c.Bytes())
	if err != nil {
		return nil, err
	}
	pk, err := crypto.MarshalPublicKey(key.GetPublic())
	if err != nil {
		return nil, err
	}
	node := bindnode.Wrap(&signedHeadT{Head: cidlink.Link{Cid: c}, Sig: sig, Pubkey: pk}, httpsync.SignedHeadSchema())
	var buf bytes.Buffer
	if err = dagjson.Encode(node.Representation(), &buf); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func newChain(id *Ident) *Chain {
	s := server()
	n := atomic.AddInt64(&s.seq, 1)
	ch := &Chain{
		ident:   id,
		path:    fmt.Sprintf("c%d", n),
		blocks:  map[cid.Cid][]byte{},
		faults:  map[cid.Cid]fault{},
		fetches: map[cid.Cid]int{},
		headKey: id.Priv,
	}
	s.mu.Lock()
	s.chains[ch.path] = ch
	s.mu.Unlock()
	return ch
}

func (ch *Chain) drop() {
	if ch.p2p != nil {
		ch.p2p.close()
	}
	s := server()
	s.mu.Lock()
	delete(s.chains, ch.path)
	s.mu.Unlock()
}

// addr is the HTTP multiaddr of the publisher.
func (ch *Chain) addr() multiaddr.Multiaddr {
	if ch.p2p != nil && ch.p2p.pub != nil {
		return ch.p2p.addr()
	}
	a, err := multiaddr.NewMultiaddr(fmt.Sprintf("/ip4/127.0.0.1/tcp/%d/http/httpath/%s", server().port, ch.path))
	if err != nil {
		panic(err)
	}
	return a
}

func (ch *Chain) setFault(c cid.Cid, f fault) {
	ch.mu.Lock()
	ch.faults[c] = f
	ch.mu.Unlock()
}

func (ch *Chain) clearFault(c cid.Cid) {
	ch.mu.Lock()
	delete(ch.faults, c)
	ch.mu.Unlock()
}

func (ch *Chain) setHead(c cid.Cid) {
	ch.mu.Lock()
	ch.head = c
	ch.mu.Unlock()
	if ch.p2p != nil && ch.p2p.pub != nil {
		if err := ch.p2p.pub.SetRoot(context.Background(), c); err != nil {
			broken("root: %v", err)
		}
	}
}

func (ch *Chain) getHead() cid.Cid {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	return ch.head
}

func (ch *Chain) lsys() ipld.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		ch.mu.Lock()
		defer ch.mu.Unlock()
		b, ok := ch.blocks[l.(cidlink.Link).Cid]
		if !ok {
			return nil, errors.New("not found")
		}
		return bytes.NewReader(b), nil
	}
	ls.StorageWriteOpener = func(_ ipld.LinkContext) (io.Writer, ipld.BlockWriteCommitter, error) {
		buf := &bytes.Buffer{}
		return buf, func(l ipld.Link) error {
			ch.mu.Lock()
			defer ch.mu.Unlock()
			ch.blocks[l.(cidlink.Link).Cid] = buf.Bytes()
			return nil
		}, nil
	}
	return ls
}

// storeRaw stores raw bytes as a block with the given codec and returns its CID.
func (ch *Chain) storeRaw(data []byte, codec uint64) cid.Cid {
	c := rawCid(data, codec)
	ch.mu.Lock()
	ch.blocks[c] = data
	ch.mu.Unlock()
	return c
}

func rawCid(data []byte, codec uint64) cid.Cid {
	mh, err := multihash.Sum(data, multihash.SHA2_256, -1)
	if err != nil {
		panic(err)
	}
	return cid.NewCidV1(codec, mh)
}

// chunks stores the multihashes as a chain of entry chunks, the first given
// slice being the first chunk of the chain. Returns the link to the first
// chunk and the cids in order.
func (ch *Chain) chunks(parts [][]multihash.Multihash) (ipld.Link, []cid.Cid) {
	var next ipld.Link
	cids := make([]cid.Cid, len(parts))
	ls := ch.lsys()
	for i := len(parts) - 1; i >= 0; i-- {
		n, err := schema.EntryChunk{Entries: parts[i], Next: next}.ToNode()
		if err != nil {
			panic(err)
		}
		next, err = ls.Store(ipld.LinkContext{}, schema.Linkproto, n)
		if err != nil {
			panic(err)
		}
		cids[i] = next.(cidlink.Link).Cid
	}
	return next, cids
}

// storeAd stores (without changing head) an advertisement signed by key, or
// unsigned when key is nil and ad.Signature already set.
func (ch *Chain) storeAd(ad schema.Advertisement, key crypto.PrivKey) cid.Cid {
	if key != nil {
		if err := ad.Sign(key); err != nil {
			panic(err)
		}
	}
	n, err := ad.ToNode()
	if err != nil {
		panic(err)
	}
	ls := ch.lsys()
	l, err := ls.Store(ipld.LinkContext{}, schema.Linkproto, n)
	if err != nil {
		panic(err)
	}
	return l.(cidlink.Link).Cid
}

// ---------------------------------------------------------------- recording stores

// Event is one observed effect of the code under test.
type Event struct {
	Op   string // mark1 mark0 latest dellatest reg delreg blk delblk iput irm (see kinds below)
	Key  string // cid string, peer id string
	Val  string
	Prov peer.ID
	Ctx  string
	Md   string
	Mhs  []multihash.Multihash
	Err  bool
}

// Durable is what survives a crash of the indexer.
type Durable struct {
	ds  datastore.Batching
	idx indexer.Interface
	// mu excludes writes while the whole index is read (the memory store's
	// iterator does not).
	mu sync.Mutex
	// base, when set, is what of the index survives a crash for sure: writes to
	// the index since it was last flushed, in unflushed, may get lost.
	base      indexer.Interface
	unflushed []func(indexer.Interface) error
}

// buffer makes the index one that needs flushing.
func (d *Durable) buffer() {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.base = copyIndex(d.idx)
}

func (d *Durable) change(f func(indexer.Interface) error) error {
	if d.base != nil {
		d.unflushed = append(d.unflushed, f)
	}
	return f(d.idx)
}

// flush saves the first n unflushed writes, or all.
func (d *Durable) flush(n int) {
	if d.base == nil {
		return
	}
	if n < 0 || n > len(d.unflushed) {
		n = len(d.unflushed)
	}
	for _, f := range d.unflushed[:n] {
		f(d.base)
	}
	d.unflushed = append(d.unflushed[:0:0], d.unflushed[n:]...)
}

// lose forgets all but the first n of the unflushed writes.
func (d *Durable) lose(n int) {
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.base == nil {
		return
	}
	d.flush(n)
	d.unflushed = nil
	d.idx = copyIndex(d.base)
}

func copyIndex(from indexer.Interface) indexer.Interface {
	to := memory.New()
	it, err := from.Iter()
	if err != nil {
		broken("iter: %v", err)
	}
	for {
		m, vals, err := it.Next()
		if err != nil {
			return to
		}
		for _, v := range vals {
			if err = to.Put(v, m); err != nil {
				broken("put: %v", err)
			}
		}
	}
}

func newDurable() *Durable {
	return &Durable{ds: dssync.MutexWrap(datastore.NewMapDatastore()), idx: memory.New()}
}

// Incarnation is one run of the process over a Durable: after it is killed its
// writes no longer reach the durable state.
type Incarnation struct {
	dur    *Durable
	mu     sync.Mutex
	dead   bool
	budget int // writes left before the crash; <0: unlimited
	writes int
	evs    []Event
	onEv   func(Event)
	// idxFault, when set, is consulted before index writes.
	idxFault func(op string, v indexer.Value) error
	// dsFault, when set, is consulted before datastore writes.
	dsFault func(op string, key string) error
	// idxEnter/idxLeave bracket index write calls (for overlap detection, gates).
	idxEnter func(op string, v indexer.Value)
	idxLeave func(op string, v indexer.Value)
}

// clone copies the durable state.
func (d *Durable) clone() *Durable {
	c := newDurable()
	ctx := context.Background()
	d.mu.Lock()
	defer d.mu.Unlock()
	rs, err := d.ds.Query(ctx, query.Query{})
	if err != nil {
		broken("query: %v", err)
	}
	es, err := rs.Rest()
	if err != nil {
		broken("query: %v", err)
	}
	for _, e := range es {
		if err = c.ds.Put(ctx, datastore.NewKey(e.Key), e.Value); err != nil {
			broken("put: %v", err)
		}
	}
	c.idx = copyIndex(d.idx)
	return c
}

func (in *Incarnation) isDead() bool {
	in.mu.Lock()
	defer in.mu.Unlock()
	return in.dead
}

func (in *Incarnation) kill() {
	in.mu.Lock()
	in.dead = true
	in.mu.Unlock()
}

// write performs one durable write atomically with its event, unless dead.
func (in *Incarnation) write(ev Event, counted bool, f func() error) error {
	in.mu.Lock()
	defer in.mu.Unlock()
	if in.dead {
		return nil
	}
	if counted {
		if in.budget == 0 {
			in.dead = true
			return nil
		}
		if in.budget > 0 {
			in.budget--
		}
		in.writes++
	}
	in.dur.mu.Lock()
	defer in.dur.mu.Unlock()
	err := f()
	ev.Err = err != nil
	if counted {
		in.evs = append(in.evs, ev)
		if in.onEv != nil {
			// no reader sees the write before this
			in.onEv(ev)
		}
	}
	return err
}

type recDS struct{ in *Incarnation }

func classify(op, key string, val []byte) (Event, bool) {
	switch {
	case strings.HasPrefix(key, "/adProcessed/"):
		ev := Event{Op: "mark", Key: strings.TrimPrefix(key, "/adProcessed/")}
		if op == "del" {
			ev.Op = "mark0"
		} else if len(val) > 0 && val[0] == 1 {
			ev.Op = "mark1"
		} else {
			ev.Op = "mark0"
		}
		return ev, true
	case strings.HasPrefix(key, "/sync/"):
		ev := Event{Op: "latest", Key: strings.TrimPrefix(key, "/sync/")}
		if op == "del" {
			ev.Op = "dellatest"
			return ev, true
		}
		if _, c, err := cid.CidFromBytes(val); err == nil {
			ev.Val = c.String()
		}
		return ev, true
	case strings.HasPrefix(key, "/registry/"):
		ev := Event{Op: "reg", Key: path.Base(key)}
		if op == "del" {
			ev.Op = "delreg"
		}
		return ev, true
	}
	k := strings.TrimPrefix(key, "/")
	if !strings.Contains(k, "/") {
		if _, err := cid.Decode(k); err == nil {
			ev := Event{Op: "blk", Key: k}
			if op == "del" {
				ev.Op = "delblk"
			}
			return ev, true
		}
	}
	return Event{Op: "other", Key: key}, false
}

func (d *recDS) Get(ctx context.Context, k datastore.Key) ([]byte, error) {
	d.in.dur.mu.Lock()
	defer d.in.dur.mu.Unlock()
	return d.in.dur.ds.Get(ctx, k)
}
func (d *recDS) Has(ctx context.Context, k datastore.Key) (bool, error) {
	d.in.dur.mu.Lock()
	defer d.in.dur.mu.Unlock()
	return d.in.dur.ds.Has(ctx, k)
}
func (d *recDS) GetSize(ctx context.Context, k datastore.Key) (int, error) {
	d.in.dur.mu.Lock()
	defer d.in.dur.mu.Unlock()
	return d.in.dur.ds.GetSize(ctx, k)
}
func (d *recDS) Query(ctx context.Context, q query.Query) (query.Results, error) {
	return d.in.dur.ds.Query(ctx, q)
}
func (d *recDS) Put(ctx context.Context, k datastore.Key, v []byte) error {
	ev, counted := classify("put", k.String(), v)
	if counted && d.in.dsFault != nil {
		if err := d.in.dsFault("put", k.String()); err != nil {
			return err
		}
	}
	vv := append([]byte(nil), v...)
	return d.in.write(ev, counted, func() error { return d.in.dur.ds.Put(context.Background(), k, vv) })
}
func (d *recDS) Delete(ctx context.Context, k datastore.Key) error {
	ev, counted := classify("del", k.String(), nil)
	if counted && d.in.dsFault != nil {
		if err := d.in.dsFault("del", k.String()); err != nil {
			return err
		}
	}
	return d.in.write(ev, counted, func() error { return d.in.dur.ds.Delete(context.Background(), k) })
}
func (d *recDS) Sync(ctx context.Context, k datastore.Key) error {
	if d.in.dsFault != nil {
		if err := d.in.dsFault("sync", k.String()); err != nil {
			return err
		}
	}
	return nil
}
func (d *recDS) Close() error { return nil }
func (d *recDS) Batch(ctx context.Context) (datastore.Batch, error) {
	return datastore.NewBasicBatch(d), nil
}

type recIdx struct{ in *Incarnation }

func (x *recIdx) Get(m multihash.Multihash) ([]indexer.Value, bool, error) {
	// The memory store hands out shared metadata slices; values are copied by it.
	return x.in.dur.idx.Get(m)
}
func (x *recIdx) enter(op string, v indexer.Value) {
	if x.in.idxEnter != nil {
		x.in.idxEnter(op, v)
	}
}
func (x *recIdx) leave(op string, v indexer.Value) {
	if x.in.idxLeave != nil {
		x.in.idxLeave(op, v)
	}
}
func (x *recIdx) Put(v indexer.Value, mhs ...multihash.Multihash) error {
	x.enter("iput", v)
	defer x.leave("iput", v)
	if x.in.idxFault != nil {
		if err := x.in.idxFault("iput", v); err != nil {
			return err
		}
	}
	cp := make([]multihash.Multihash, len(mhs))
	copy(cp, mhs)
	ev := Event{Op: "iput", Prov: v.ProviderID, Ctx: string(v.ContextID), Md: string(v.MetadataBytes), Mhs: cp}
	vv := indexer.Value{ProviderID: v.ProviderID, ContextID: append([]byte(nil), v.ContextID...), MetadataBytes: append([]byte(nil), v.MetadataBytes...)}
	return x.in.write(ev, true, func() error {
		return x.in.dur.change(func(i indexer.Interface) error { return i.Put(vv, cp...) })
	})
}
func (x *recIdx) Remove(v indexer.Value, mhs ...multihash.Multihash) error {
	x.enter("iremove", v)
	defer x.leave("iremove", v)
	if x.in.idxFault != nil {
		if err := x.in.idxFault("iremove", v); err != nil {
			return err
		}
	}
	cp := append([]multihash.Multihash(nil), mhs...)
	ev := Event{Op: "iremove", Prov: v.ProviderID, Ctx: string(v.ContextID), Mhs: cp}
	return x.in.write(ev, true, func() error {
		return x.in.dur.change(func(i indexer.Interface) error { return i.Remove(v, cp...) })
	})
}
func (x *recIdx) RemoveProvider(ctx context.Context, p peer.ID) error {
	v := indexer.Value{ProviderID: p}
	x.enter("irmprov", v)
	defer x.leave("irmprov", v)
	return x.in.write(Event{Op: "irmprov", Prov: p}, true, func() error {
		return x.in.dur.change(func(i indexer.Interface) error { return i.RemoveProvider(context.Background(), p) })
	})
}
func (x *recIdx) RemoveProviderContext(p peer.ID, c []byte) error {
	v := indexer.Value{ProviderID: p, ContextID: c}
	x.enter("irm", v)
	defer x.leave("irm", v)
	if x.in.idxFault != nil {
		if err := x.in.idxFault("irm", v); err != nil {
			return err
		}
	}
	cc := append([]byte(nil), c...)
	return x.in.write(Event{Op: "irm", Prov: p, Ctx: string(c)}, true, func() error {
		return x.in.dur.change(func(i indexer.Interface) error { return i.RemoveProviderContext(p, cc) })
	})
}
func (x *recIdx) Size() (int64, error) { return x.in.dur.idx.Size() }
func (x *recIdx) Flush() error {
	return x.in.write(Event{}, false, func() error { x.in.dur.flush(-1); return nil })
}
func (x *recIdx) Close() error                    { return nil }
func (x *recIdx) Iter() (indexer.Iterator, error) { return x.in.dur.idx.Iter() }

// ---------------------------------------------------------------- node under test

type NodeCfg struct {
	Policy    config.Policy
	Workers   int
	Batch     int
	SegDepth  int
	AdDepth   int
	EntDepth  int
	RateLimit config.RateLimit
	Topic     string
	Resend    bool
	Discover  discovery.Discoverer
	DiscCfg   *config.Discovery
	SyncTO    time.Duration
	Listen    bool
}

type Node struct {
	in   *Incarnation
	cfg  NodeCfg
	host host.Host
	reg  *registry.Registry
	ing  *ingest.Ingester
	ds   *recDS
	idx  *recIdx
	http *httpingestserver.Server
}

// ingestURL is where the node takes requests of publishers.
func (n *Node) ingestURL() string {
	if n.http == nil {
		s, err := httpingestserver.New("127.0.0.1:0", n.idx, n.ing, n.reg)
		if err != nil {
			broken("ingest server: %v", err)
		}
		go s.Start()
		n.http = s
	}
	return n.http.URL()
}

func mkHost(listen bool, key crypto.PrivKey) (host.Host, error) {
	opts := []libp2p.Option{libp2p.ResourceManager(network.NullResourceManager)}
	if key == nil {
		var seed [32]byte
		binary.LittleEndian.PutUint64(seed[:], uint64(rand.Int63()))
		binary.LittleEndian.PutUint64(seed[8:], uint64(time.Now().UnixNano()))
		var err error
		key, _, err = crypto.GenerateEd25519Key(bytes.NewReader(append(seed[:], seed[:]...)))
		if err != nil {
			return nil, err
		}
	}
	opts = append(opts, libp2p.Identity(key))
	if listen {
		opts = append(opts, libp2p.ListenAddrStrings("/ip4/127.0.0.1/tcp/0"))
	} else {
		opts = append(opts, libp2p.NoListenAddrs)
	}
	return libp2p.New(opts...)
}

func allowAll() config.Policy { return config.Policy{Allow: true, Publish: true} }

func startNode(dur *Durable, cfg NodeCfg) (*Node, error) {
	in := &Incarnation{dur: dur, budget: -1}
	return startNodeIn(in, cfg)
}

func startNodeIn(in *Incarnation, cfg NodeCfg) (*Node, error) {
	n := &Node{in: in, cfg: cfg, ds: &recDS{in}, idx: &recIdx{in}}
	dc := config.Discovery{
		Policy:         cfg.Policy,
		PollInterval:   config.Duration(time.Hour * 24),
		PollRetryAfter: config.Duration(time.Hour),
		PollStopAfter:  config.Duration(time.Hour * 24 * 7),
		RediscoverWait: config.Duration(time.Minute),
	}
	if cfg.DiscCfg != nil {
		dc = *cfg.DiscCfg
		dc.Policy = cfg.Policy
	}
	var err error
	n.reg, err = newReg(dc, n.ds, cfg.Discover)
	if err != nil {
		return nil, err
	}
	n.host, err = mkHost(cfg.Listen, nil)
	if err != nil {
		return nil, err
	}
	if cfg.Workers == 0 {
		cfg.Workers = 1
	}
	if cfg.Batch == 0 {
		cfg.Batch = 256
	}
	if cfg.Topic == "" {
		cfg.Topic = "verif/ingest"
	}
	if cfg.SyncTO == 0 {
		cfg.SyncTO = time.Minute
	}
	ic := config.Ingest{
		AdvertisementDepthLimit: cfg.AdDepth,
		EntriesDepthLimit:       cfg.EntDepth,
		IngestWorkerCount:       cfg.Workers,
		PubSubTopic:             cfg.Topic,
		RateLimit:               cfg.RateLimit,
		StoreBatchSize:          cfg.Batch,
		SyncTimeout:             config.Duration(cfg.SyncTO),
		SyncSegmentDepthLimit:   cfg.SegDepth,
		HttpSyncRetryMax:        0,
		HttpSyncRetryWaitMin:    config.Duration(time.Millisecond),
		HttpSyncRetryWaitMax:    config.Duration(time.Millisecond),
		HttpSyncTimeout:         config.Duration(20 * time.Second),
		ResendDirectAnnounce:    cfg.Resend,
	}
	n.ing, err = ingest.NewIngester(ic, n.host, n.idx, n.reg, n.ds)
	if err != nil {
		return nil, err
	}
	return n, nil
}

// close shuts the node down in the background with a bound; it reports whether
// Close returned in time.
func (n *Node) close(to time.Duration) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		if n.http != nil {
			ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
			n.http.Shutdown(ctx)
			cancel()
		}
		n.ing.Close()
		n.reg.Close()
		n.host.Close()
	}()
	select {
	case <-done:
		return true
	case <-time.After(to):
		return false
	}
}

// ---------------------------------------------------------------- helpers

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// poll calls f until it returns true or the timeout passes.
func poll(to time.Duration, f func() bool) bool {
	deadline := time.Now().Add(to)
	d := 500 * time.Microsecond
	for {
		if f() {
			return true
		}
		if time.Now().After(deadline) {
			return f()
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d += d / 2
		}
	}
}

func ma(a ...multiaddr.Multiaddr) []multiaddr.Multiaddr { return a }
