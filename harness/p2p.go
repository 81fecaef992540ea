package main

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"time"

	"github.com/filecoin-project/go-legs/dtsync"
	"github.com/filecoin-project/go-legs/gpubsub"
	"github.com/ipfs/go-cid"
	"github.com/ipfs/go-datastore"
	dssync "github.com/ipfs/go-datastore/sync"
	"github.com/ipld/go-ipld-prime"
	cidlink "github.com/ipld/go-ipld-prime/linking/cid"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/peer"
	pubsub "github.com/libp2p/go-libp2p-pubsub"
	"github.com/multiformats/go-multiaddr"
)

const p2pTopic = "verif/ingest"

// p2pPub is a publisher's libp2p host: it gossips announcements, and serves the
// chain over graphsync if it has a publisher.
type p2pPub struct {
	host   host.Host
	topic  *pubsub.Topic
	cancel context.CancelFunc
	pub    interface {
		SetRoot(context.Context, cid.Cid) error
		Close() error
	}
	seq int
}

// serveLsys reads the blocks of the chain as they are served.
func (ch *Chain) serveLsys() ipld.LinkSystem {
	ls := cidlink.DefaultLinkSystem()
	ls.StorageReadOpener = func(_ ipld.LinkContext, l ipld.Link) (io.Reader, error) {
		c := l.(cidlink.Link).Cid
		ch.mu.Lock()
		defer ch.mu.Unlock()
		ch.fetches[c]++
		ch.nfetch++
		_, bad := ch.faults[c]
		b, ok := ch.blocks[c]
		if !ok || bad {
			return nil, datastore.ErrNotFound
		}
		return bytes.NewReader(b), nil
	}
	return ls
}

// startP2P gives the publisher a libp2p host. If serve, the chain is served by it instead of over HTTP.
func (ch *Chain) startP2P(serve bool) {
	h, err := mkHost(true, ch.ident.Priv)
	if err != nil {
		broken("host: %v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	t, err := gpubsub.MakePubsub(ctx, h, p2pTopic)
	if err != nil {
		broken("pubsub: %v", err)
	}
	p := &p2pPub{host: h, topic: t, cancel: cancel}
	if serve {
		pub, err := dtsync.NewPublisher(h, dssync.MutexWrap(datastore.NewMapDatastore()), ch.serveLsys(), p2pTopic, dtsync.Topic(t))
		if err != nil {
			broken("publisher: %v", err)
		}
		p.pub = pub
	}
	ch.p2p = p
}

func (p *p2pPub) close() {
	if p.pub != nil {
		go p.pub.Close()
		time.Sleep(time.Millisecond)
	}
	p.cancel()
	p.host.Close()
}

func (p *p2pPub) addr() multiaddr.Multiaddr { return p.host.Addrs()[0] }

// gossip announces the advertisement on the topic.
func (ch *Chain) gossip(n *Node, c cid.Cid, wait time.Duration) {
	p := ch.p2p
	ctx, cancel := context.WithTimeout(context.Background(), wait)
	defer cancel()
	if err := p.host.Connect(ctx, peer.AddrInfo{ID: n.host.ID(), Addrs: n.host.Addrs()}); err != nil {
		broken("connect: %v", err)
	}
	// An indexer that does not subscribe misses the announcement.
	poll(wait, func() bool {
		for _, x := range p.topic.ListPeers() {
			if x == n.host.ID() {
				return true
			}
		}
		return false
	})
	p.seq++
	m := dtsync.Message{Cid: c, ExtraData: []byte(fmt.Sprint(p.seq))}
	m.SetAddrs(ma(ch.addr()))
	var b bytes.Buffer
	if err := m.MarshalCBOR(&b); err != nil {
		broken("%v", err)
	}
	if err := p.topic.Publish(ctx, b.Bytes()); err != nil {
		broken("publish: %v", err)
	}
}
