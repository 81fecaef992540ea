From e85406ec2fe7f16a6fa588bd4f8f2c6094668782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:59 +0000
Subject: [PATCH 01/40] fix: apply a provider's poll override to that provider
 only

---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..f9280e7 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -818,6 +818,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			poll := poll
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From 73c56ae3e6a2b2ae7c00fc35af806c85d7d3fe66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:59 +0000
Subject: [PATCH 02/40] fix: return an error instead of panicking on malformed
 provider addresses

---
 internal/registry/registry.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index f9280e7..cf1725d 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -452,7 +452,7 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return err
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
-- 
2.43.0


From 71efad66cb2059fddd8d268c1829b083f2218012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:59 +0000
Subject: [PATCH 03/40] fix: do not panic on publishers or providers without
 addresses

---
 internal/registry/registry.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index cf1725d..6966445 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -418,7 +418,10 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -579,7 +582,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 			// provider ad publisher.
 			log.Infow("Provider does not have valid publisher, assuming same as provider", "reason", pubErr, "provider", regInfo.AddrInfo.ID)
 			regInfo.Publisher = regInfo.AddrInfo.ID
-			regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			if len(regInfo.AddrInfo.Addrs) != 0 {
+				regInfo.PublisherAddr = regInfo.AddrInfo.Addrs[0]
+			}
 		} else {
 			regInfo.Publisher = pInfo.Publisher.ID
 			regInfo.PublisherAddr = pInfo.Publisher.Addrs[0]
@@ -764,7 +769,7 @@ func (r *Registry) loadPersistedProviders(ctx context.Context) (int, error) {
 			return 0, err
 		}
 
-		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID {
+		if pinfo.Publisher.Validate() == nil && pinfo.PublisherAddr == nil && pinfo.Publisher == pinfo.AddrInfo.ID && len(pinfo.AddrInfo.Addrs) != 0 {
 			pinfo.PublisherAddr = pinfo.AddrInfo.Addrs[0]
 		}
 		r.providers[peerID] = pinfo
-- 
2.43.0


From c144470cdd6641a03583f14f27dd5f8a2f690559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:32 +0000
Subject: [PATCH 04/40] fix: update provider info atomically and keep the info
 of inactive providers

---
 internal/registry/registry.go | 71 ++++++++++++++++++++++-------------
 1 file changed, 44 insertions(+), 27 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 6966445..7e2232b 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -315,6 +315,30 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
+	err := r.checkRegister(info)
+	if err != nil {
+		return err
+	}
+
+	// If provider is allowed and publisher is allowed to publish for the
+	// provider, then register.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegister(ctx, info)
+	}
+
+	err = <-errCh
+	if err != nil {
+		return err
+	}
+
+	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	return nil
+}
+
+// checkRegister checks that the provider info is valid and that policy allows
+// it to be registered.
+func (r *Registry) checkRegister(info *ProviderInfo) error {
 	if len(info.AddrInfo.Addrs) == 0 {
 		return errors.New("missing provider address")
 	}
@@ -340,20 +364,6 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
-
-	// If provider is allowed and publisher is allowed to publish for the
-	// provider, then register.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-
-	err = <-errCh
-	if err != nil {
-		return err
-	}
-
-	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
 	return nil
 }
 
@@ -398,10 +408,21 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // If publisher has a valid ID, then the data in publisher replaces the
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
+	// The existing info must be read and replaced as a single action, so that
+	// a concurrent update or removal is not lost.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegisterOrUpdate(ctx, providerID, addrs, adID, publisher)
+	}
+	return <-errCh
+}
+
+func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
-	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
-	if info != nil {
+	// Check that the provider has been discovered and validated. This includes
+	// providers that are inactive.
+	info, ok := r.providers[providerID]
+	if ok {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
 				ID:    providerID,
@@ -468,19 +489,15 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	}
 	info.lastContactTime = now
 
-	// If there is a new providerID or publisherID then do a full Register that
-	// checks the allow policy.
+	// If there is a new providerID or publisherID then check the info and the
+	// allow policy, as for a full Register.
 	if fullRegister {
-		return r.Register(ctx, info)
+		if err := r.checkRegister(info); err != nil {
+			return err
+		}
 	}
 
-	// If laready registered and no new IDs, register without verification.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-	err := <-errCh
-	if err != nil {
+	if err := r.syncRegister(ctx, info); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 754655474467432daa18ef9cbb0b0389348b3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:32 +0000
Subject: [PATCH 05/40] fix: change registered providers in memory only after
 the datastore accepted the change

---
 internal/registry/registry.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 7e2232b..2abb3e7 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -703,12 +703,12 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 }
 
 func (r *Registry) syncRegister(ctx context.Context, info *ProviderInfo) error {
-	r.providers[info.AddrInfo.ID] = info
 	err := r.syncPersistProvider(ctx, info)
 	if err != nil {
 		err = fmt.Errorf("could not persist provider: %s", err)
 		return v0.NewError(err, http.StatusInternalServerError)
 	}
+	r.providers[info.AddrInfo.ID] = info
 	return nil
 }
 
@@ -884,21 +884,19 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 }
 
 func (r *Registry) syncRemoveProvider(ctx context.Context, providerID peer.ID) error {
-	// Remove the provider from the registry.
-	delete(r.providers, providerID)
-
-	if r.dstore == nil {
-		return nil
+	if r.dstore != nil {
+		dsKey := peerIDToDsKey(providerID)
+		err := r.dstore.Delete(ctx, dsKey)
+		if err != nil {
+			return err
+		}
+		if err = r.dstore.Sync(ctx, dsKey); err != nil {
+			return err
+		}
 	}
 
-	dsKey := peerIDToDsKey(providerID)
-	err := r.dstore.Delete(ctx, dsKey)
-	if err != nil {
-		return err
-	}
-	if err = r.dstore.Sync(ctx, dsKey); err != nil {
-		return err
-	}
+	// Remove the provider from the registry.
+	delete(r.providers, providerID)
 	return nil
 }
 
-- 
2.43.0


From 88bd27d6f6618acc672b1e87d2cdf74f06d2c9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:28 +0000
Subject: [PATCH 06/40] fix: do not modify provider info already handed out,
 and do not lose the notice that a polled provider was removed

---
 internal/registry/registry.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 2abb3e7..acbd58c 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -645,8 +645,12 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	}
 	if pinfo != nil {
 		// Tell ingester to delete its provider data.
-		pinfo.deleted = true
-		r.syncChan <- pinfo
+		deleted := *pinfo
+		deleted.deleted = true
+		select {
+		case r.syncChan <- &deleted:
+		case <-r.closing:
+		}
 	}
 	return nil
 }
@@ -848,7 +852,9 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if info.lastContactTime.IsZero() {
 				// There has been no contact since startup.  Poll during next
 				// call to this function if no update for provider.
-				info.lastContactTime = now.Add(-poll.interval)
+				updated := *info
+				updated.lastContactTime = now.Add(-poll.interval)
+				r.providers[peerID] = &updated
 				continue
 			}
 			noContactTime := now.Sub(info.lastContactTime)
@@ -863,16 +869,30 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if sincePollingStarted >= poll.stopAfter {
 				// Too much time since last contact.
 				log.Warnw("Lost contact with provider, too long with no updates", "publisher", info.Publisher, "provider", info.AddrInfo.ID, "since", info.lastContactTime)
+				// Tell the ingester to remove data for the provider. If the
+				// ingester cannot be told now, then leave the provider to be
+				// removed by a later check.
+				deleted := *info
+				deleted.deleted = true
+				select {
+				case r.syncChan <- &deleted:
+				default:
+					log.Debugw("Sync channel blocked, not removing provider yet", "publisher", info.Publisher)
+					continue
+				}
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
-				// Tell the ingester to remove data for the provider.
-				info.deleted = true
-			} else if sincePollingStarted >= 2*poll.retryAfter {
+				continue
+			}
+			if sincePollingStarted >= 2*poll.retryAfter && !info.inactive {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
-				info.inactive = true
+				updated := *info
+				updated.inactive = true
+				info = &updated
+				r.providers[peerID] = info
 			}
 			select {
 			case r.syncChan <- info:
-- 
2.43.0


From 0600285dca606235b0d038f98bff354ae3763f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:02 +0000
Subject: [PATCH 07/40] fix: a publisher that answers a poll without new
 advertisements counts as contacted

---
 internal/ingest/ingest.go     |  2 ++
 internal/registry/registry.go | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..01d8bcb 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -662,6 +662,8 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher responded, even if there was nothing new to sync.
+			ing.reg.Saw(provID)
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index acbd58c..267ad5a 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -505,6 +505,24 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 	return nil
 }
 
+// Saw indicates that there was contact with the publisher of a registered
+// provider, which makes the provider active.
+func (r *Registry) Saw(providerID peer.ID) {
+	done := make(chan struct{})
+	r.actions <- func() {
+		defer close(done)
+		info, ok := r.providers[providerID]
+		if !ok {
+			return
+		}
+		updated := *info
+		updated.lastContactTime = time.Now()
+		updated.inactive = false
+		r.providers[providerID] = &updated
+	}
+	<-done
+}
+
 // IsRegistered checks if the provider is in the registry
 func (r *Registry) IsRegistered(providerID peer.ID) bool {
 	done := make(chan struct{})
-- 
2.43.0


From 9eb0f777a4907c23747c44a0a39fcc2e207df52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:21 +0000
Subject: [PATCH 08/40] fix: a lookup does not delete the content of an
 inactive provider

---
 server/finder/handler/finder_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..1cf4c2d 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -60,6 +60,11 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
 				if pinfo == nil {
+					// An inactive provider is still registered. Omit it from
+					// the result, but keep its content.
+					if h.registry.IsRegistered(provID) {
+						continue
+					}
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
 					// deleted provider. Delete the contextID from the core,
-- 
2.43.0


From 32d4eb1d1fa9340fb729e8b7abb54c14edefdef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:45 +0000
Subject: [PATCH 09/40] fix: accept a request only if it is signed by the
 provider it is about

---
 api/v0/ingest/model/discover_request.go | 5 ++++-
 api/v0/ingest/model/ingest_request.go   | 5 ++++-
 api/v0/ingest/model/model.go            | 5 +++++
 api/v0/ingest/model/register_request.go | 5 ++++-
 4 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..dd6bfcd 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errSignerMismatch
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..287aad5 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errSignerMismatch
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/model.go b/api/v0/ingest/model/model.go
index 0266293..600e131 100644
--- a/api/v0/ingest/model/model.go
+++ b/api/v0/ingest/model/model.go
@@ -1,12 +1,17 @@
 package model
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/libp2p/go-libp2p-core/crypto"
 	"github.com/libp2p/go-libp2p-core/record"
 )
 
+// errSignerMismatch is returned when a request is not signed by the provider
+// that the request is about.
+var errSignerMismatch = errors.New("request not signed by provider")
+
 func makeRequestEnvelop(rec record.Record, privateKey crypto.PrivKey) ([]byte, error) {
 	envelope, err := record.Seal(rec, privateKey)
 	if err != nil {
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..aefb16e 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if !rec.PeerID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, errSignerMismatch
+	}
 	return rec, nil
 }
-- 
2.43.0


From 56b83f204114f30609d8356f09c3204b1bbb3f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:46 +0000
Subject: [PATCH 10/40] fix: verify that data fetched for a CID hashes to that
 CID

---
 internal/ingest/linksystem.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..af0d0b5 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -36,6 +36,7 @@ import (
 
 var (
 	errBadAdvert              = errors.New("bad advertisement")
+	errBadBlock               = errors.New("block data does not match cid")
 	errInvalidAdvertSignature = errors.New("invalid advertisement signature")
 )
 
@@ -62,6 +63,18 @@ func mkLinkSystem(ds datastore.Batching, reg *registry.Registry) ipld.LinkSystem
 
 			log := log.With("cid", c)
 
+			// Verify that the data is what the link identifies. Not all
+			// transports do this.
+			sum, err := c.Prefix().Sum(origBuf)
+			if err != nil {
+				log.Errorw("Cannot verify hash of block", "err", err)
+				return errBadBlock
+			}
+			if !sum.Equals(c) {
+				log.Errorw("Data does not match block CID")
+				return errBadBlock
+			}
+
 			// Decode the node to check its type.
 			n, err := decodeIPLDNode(codec, buf, basicnode.Prototype.Any)
 			if err != nil {
-- 
2.43.0


From 5d8c9ba81095a573e56b4df0c814d1731c633c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:05 +0000
Subject: [PATCH 11/40] fix: a sync that is busy or cancelled does not block
 the processing of advertisements

---
 internal/ingest/ingest.go | 43 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 01d8bcb..dca7ad3 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -391,7 +391,11 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		log.Debugw("Syncing advertisements up to latest", "adCid", c)
 		for {
 			select {
-			case adProcessedEvent := <-syncDone:
+			case adProcessedEvent, ok := <-syncDone:
+				if !ok {
+					log.Warnw("Sync cancelled because of close")
+					return
+				}
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
 				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
 					// If an error occurred then the adProcessedEvent.adCid
@@ -535,9 +539,13 @@ func (ing *Ingester) distributeEvents() {
 // the list of channels to be notified on changes, and closes the channel to
 // allow any reading goroutines to stop waiting on the channel.
 func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, context.CancelFunc) {
-	// Channel is buffered to prevent distribute() from blocking if a reader is
-	// not reading the channel immediately.
 	ch := make(chan adProcessedEvent, 1)
+	out := make(chan adProcessedEvent)
+	// Queue events so that distributeEvents, and the workers that give it
+	// events, never wait for a reader that is busy or that is not reading
+	// anymore.
+	go queueEvents(ch, out)
+
 	ing.outEventsMutex.Lock()
 	defer ing.outEventsMutex.Unlock()
 
@@ -569,14 +577,39 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
 					outEventsChans = outEventsChans[:len(outEventsChans)-1]
-					close(ch)
 					ing.outEventsChans[peerID] = outEventsChans
 				}
+				close(ch)
 				break
 			}
 		}
 	}
-	return ch, cncl
+	return out, cncl
+}
+
+// queueEvents delivers the events read from in to out, without making the
+// writer of in wait for the reader of out. It closes out, and drops any events
+// that are not delivered, when in is closed.
+func queueEvents(in <-chan adProcessedEvent, out chan<- adProcessedEvent) {
+	defer close(out)
+	var queue []adProcessedEvent
+	for {
+		var next adProcessedEvent
+		var send chan<- adProcessedEvent
+		if len(queue) != 0 {
+			next = queue[0]
+			send = out
+		}
+		select {
+		case event, ok := <-in:
+			if !ok {
+				return
+			}
+			queue = append(queue, event)
+		case send <- next:
+			queue = queue[1:]
+		}
+	}
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From da9aa7051fce92fd543e99c258537a7ca288487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:55 +0000
Subject: [PATCH 12/40] fix: act on an announce that is deferred while the
 provider is being released

---
 internal/ingest/ingest.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index dca7ad3..4b52f40 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -436,7 +436,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
-		<-pc
+		ing.releaseProvider(provider, pc)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -446,6 +446,12 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		// The provider may have been released before the announce was stored.
+		select {
+		case pc <- struct{}{}:
+			ing.releaseProvider(provider, pc)
+		default:
+		}
 		return nil
 	}
 }
@@ -834,8 +840,7 @@ func (ing *Ingester) ingestWorker() {
 			ing.providersBeingProcessedMu.Unlock()
 			pc <- struct{}{}
 			ing.ingestWorkerLogic(pid)
-			ing.handlePendingAnnounce(pid)
-			<-pc
+			ing.releaseProvider(pid, pc)
 		}
 	}
 }
@@ -974,6 +979,25 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	}
 }
 
+// releaseProvider handles any pending announce for a provider and then stops
+// holding the provider. An announce that became pending while the provider was
+// being released is handled also, unless the provider is held by something
+// else that will handle the announce.
+func (ing *Ingester) releaseProvider(pid peer.ID, pc chan struct{}) {
+	for {
+		ing.handlePendingAnnounce(pid)
+		<-pc
+		if _, found := ing.providersPendingAnnounce.Load(pid); !found {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+		default:
+			return
+		}
+	}
+}
+
 func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log := log.With("provider", pid)
 	// Process pending announce request if any.
-- 
2.43.0


From 5b88a3de3f8cfe010788022a40026c96391c93fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:56 +0000
Subject: [PATCH 13/40] fix: do not wait forever for a head advertisement that
 is already processed

---
 internal/ingest/ingest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 4b52f40..32191fa 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -382,7 +382,7 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 
 		// If latest head had already finished syncing, then do not wait for
 		// syncDone since it will never happen.
-		if latest == c && !resync {
+		if !resync && (latest == c || ing.adAlreadyProcessed(c)) {
 			log.Infow("Latest advertisement already processed", "adCid", c)
 			out <- c
 			return
-- 
2.43.0


From 1c39e7c54060f50abb8f9cdb41ea509bdf27e93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:44 +0000
Subject: [PATCH 14/40] fix: do not drop advertisements staged for a provider
 when another sync finishes

---
 internal/ingest/ingest.go | 40 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 24 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 32191fa..783cb74 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -67,9 +67,6 @@ type adInfo struct {
 }
 
 type workerAssignment struct {
-	// none represents a nil assignment. Used because a nil in atomic.Value
-	// cannot be stored.
-	none      bool
 	adInfos   []adInfo
 	publisher peer.ID
 	provider  peer.ID
@@ -112,7 +109,9 @@ type Ingester struct {
 	// a provider while ingesting ads for that provider.
 	providersBeingProcessed   map[peer.ID]chan struct{}
 	providersBeingProcessedMu sync.Mutex
-	providerAdChainStaging    map[peer.ID]*atomic.Value
+	// providerAdChainStaging holds, for each provider, the ad chains that are
+	// waiting to be processed. Protected by providersBeingProcessedMu.
+	providerAdChainStaging map[peer.ID][]workerAssignment
 
 	closeWorkers chan struct{}
 	// toStaging receives sync finished events used to call to runIngestStep.
@@ -155,7 +154,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		closePendingSyncs: make(chan struct{}),
 
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
-		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
+		providerAdChainStaging:  make(map[peer.ID][]workerAssignment),
 		toWorkers:               make(chan providerID),
 		closeWorkers:            make(chan struct{}),
 	}
@@ -803,20 +802,15 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if _, ok := ing.providersBeingProcessed[p]; !ok {
 			ing.providersBeingProcessed[p] = make(chan struct{}, 1)
 		}
-		wa, ok := ing.providerAdChainStaging[p]
-		if !ok {
-			wa = &atomic.Value{}
-			ing.providerAdChainStaging[p] = wa
-		}
-		ing.providersBeingProcessedMu.Unlock()
-
-		oldAssignment := wa.Swap(workerAssignment{
+		staged := ing.providerAdChainStaging[p]
+		ing.providerAdChainStaging[p] = append(staged, workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
 		})
+		ing.providersBeingProcessedMu.Unlock()
 
-		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
+		if len(staged) == 0 {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
 			ing.toWorkers <- providerID(p)
@@ -846,21 +840,19 @@ func (ing *Ingester) ingestWorker() {
 }
 
 func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
-	// Pull out the assignment for this provider. Note that runIngestStep
-	// populates this atomic.Value.
+	// Pull out the assignments for this provider. Note that runIngestStep
+	// stages these.
 	ing.providersBeingProcessedMu.Lock()
-	wa := ing.providerAdChainStaging[provider]
+	assignments := ing.providerAdChainStaging[provider]
+	delete(ing.providerAdChainStaging, provider)
 	ing.providersBeingProcessedMu.Unlock()
 
-	assignmentInterface := wa.Swap(workerAssignment{none: true})
-	if assignmentInterface == nil || assignmentInterface.(workerAssignment).none {
-		// Note this is here for completeness. This would not happen
-		// normally. Execution could get here if someone manually calls this
-		// function outside the ingest loop. Nothing to do – no assignment.
-		return
+	for _, assignment := range assignments {
+		ing.processAssignment(assignment)
 	}
-	assignment := assignmentInterface.(workerAssignment)
+}
 
+func (ing *Ingester) processAssignment(assignment workerAssignment) {
 	rmCtxID := make(map[string]struct{})
 	var skips []int
 	skip := -1
-- 
2.43.0


From f3d1ac14700ac0dbbab7102db015f93a8106d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:45 +0000
Subject: [PATCH 15/40] fix: retry an advertisement whose entries could not be
 stored, and skip malformed entry chunks the same way in segmented syncs

---
 internal/ingest/linksystem.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index af0d0b5..eb108ed 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -327,12 +327,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		} else {
 			err = ing.ingestEntryChunk(ctx, ad, syncedFirstEntryCid, *chunk, log)
 			if err != nil {
-				errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index entry chunk: %w", err)}
 			}
 		}
 
 		if chunk != nil && chunk.Next != nil {
 			nextChunkCid := chunk.Next.(cidlink.Link).Cid
+			var indexErr error
 			// Traverse remaining entry chunks based on the entries selector that limits recursion depth.
 			_, err = ing.sub.Sync(ctx, publisherID, nextChunkCid, ing.entriesSel, nil, legs.ScopedBlockHook(func(p peer.ID, c cid.Cid, actions legs.SegmentSyncActions) {
 				// Load CID as entry chunk since the selector should only select entry chunk nodes.
@@ -345,7 +346,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 				err = ing.ingestEntryChunk(ctx, ad, c, *chunk, log)
 				if err != nil {
 					actions.FailSync(err)
-					errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+					indexErr = err
 					return
 				}
 				if chunk.Next != nil {
@@ -354,7 +355,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 					actions.SetNextSyncCid(cid.Undef)
 				}
 			}))
-			if err != nil {
+			if indexErr != nil {
+				// The entries are good but could not be stored, so this may
+				// succeed when retried.
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index entry chunks: %w", indexErr)}
+			}
+			// If entry chunks were bad then that is what failed the sync.
+			if err != nil && len(errsIngestingEntryChunks) == 0 {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
 					return adIngestError{adIngestContentNotFound, fmt.Errorf("failed to sync entries: %w", err)}
 				}
-- 
2.43.0


From eb114808bd5f26540d6454e615473d68a8a2c07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:19 +0000
Subject: [PATCH 16/40] fix: end a sync whose chain contains something that is
 not an advertisement, without processing what is on top of it

---
 internal/ingest/ingest.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 783cb74..7506097 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -780,14 +780,21 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 
 		ad, err := ing.loadAd(c)
 		if err != nil {
+			// The ad may have been processed, and removed from the datastore,
+			// since checking that.
+			if ing.adAlreadyProcessed(c) {
+				break
+			}
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
-			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
-			continue
+			log.Errorw("Failed to load advertisement CID, not processing ad chain", "cid", c, "err", err)
+			ing.failIngestStep(syncFinishedEvent, c, err)
+			return
 		}
 		providerID, err := peer.Decode(ad.Provider)
 		if err != nil {
-			log.Errorf("Failed to get provider from ad CID: %s skipping", err)
-			continue
+			log.Errorw("Failed to get provider from ad CID, not processing ad chain", "cid", c, "err", err)
+			ing.failIngestStep(syncFinishedEvent, c, err)
+			return
 		}
 
 		adsGroupedByProvider[providerID] = append(adsGroupedByProvider[providerID], adInfo{
@@ -818,6 +825,20 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 	}
 }
 
+// failIngestStep tells anyone waiting that the sync finished because of a bad
+// advertisement in the synced chain.
+func (ing *Ingester) failIngestStep(syncFinishedEvent legs.SyncFinished, adCid cid.Cid, err error) {
+	select {
+	case <-ing.closePendingSyncs:
+	case ing.inEvents <- adProcessedEvent{
+		publisher: syncFinishedEvent.PeerID,
+		headAdCid: syncFinishedEvent.Cid,
+		adCid:     adCid,
+		err:       err,
+	}:
+	}
+}
+
 func (ing *Ingester) ingestWorker() {
 	log.Debug("started ingest worker")
 	defer ing.waitForWorkers.Done()
-- 
2.43.0


From 8ee0769607365e8e92f7b412efba3d3df460ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:01 +0000
Subject: [PATCH 17/40] fix: import the last line of a CID list and lines with
 CIDv0 or CRLF line ends

---
 internal/importer/cidlist.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..30e0afc 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -23,14 +24,19 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 
 	var badEntryCount, entryCount int
 	r := bufio.NewReader(in)
-	for {
+	for eof := false; !eof; {
 		line, err := r.ReadString('\n')
 		if err != nil {
 			if err != io.EOF {
 				done <- err
 				return
 			}
-			break
+			// The last line does not need to end with a newline.
+			eof = true
+		}
+		line = strings.TrimSpace(line)
+		if line == "" {
+			continue
 		}
 		c, err := cid.Decode(line)
 		if err != nil || !c.Defined() {
-- 
2.43.0


From 78d76796d18af78990b122233a1b44aa1f7d1737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:02 +0000
Subject: [PATCH 18/40] fix: stop handling an import request whose file cannot
 be opened

---
 server/admin/http/handler.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..977d3f8 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -220,6 +220,7 @@ func (h *adminHandler) importManifest(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
@@ -305,6 +306,7 @@ func (h *adminHandler) importCidList(w http.ResponseWriter, r *http.Request) {
 	if err != nil {
 		log.Errorw("Cannot open cidlist file", "err", err)
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	defer file.Close()
 
-- 
2.43.0


From ca3e43297532913c8e9457486130e1bb7738722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:03 +0000
Subject: [PATCH 19/40] fix: keep running with the current configuration when
 reloading it fails

---
 command/daemon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..0b7481d 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -338,14 +338,15 @@ func daemonCommand(cctx *cli.Context) error {
 				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
+			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
 				if errChan != nil {
 					errChan <- errors.New("could not reload configuration")
-					continue
 				}
+				continue
 			}
+			cfg = newCfg
 
 			if p2pHost != nil {
 				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-- 
2.43.0


From 3ddda97b7599f5339ac6bd4edcfa897c25456e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:04 +0000
Subject: [PATCH 20/40] fix: discovery without a lotus gateway is refused
 instead of crashing

---
 command/daemon.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 0b7481d..45fe82c 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,18 +120,18 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var discoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-		lotusDiscoverer, err = lotus.NewDiscoverer(cfg.Discovery.LotusGateway)
+		discoverer, err = lotus.NewDiscoverer(cfg.Discovery.LotusGateway)
 		if err != nil {
 			return fmt.Errorf("cannot create lotus client: %s", err)
 		}
 	}
 
 	// Create registry
-	reg, err := registry.NewRegistry(cctx.Context, cfg.Discovery, dstore, lotusDiscoverer)
+	reg, err := registry.NewRegistry(cctx.Context, cfg.Discovery, dstore, discoverer)
 	if err != nil {
 		return fmt.Errorf("cannot create provider registry: %s", err)
 	}
-- 
2.43.0


From c32cd2403c00e0aef9297c0c187013454f91d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:04 +0000
Subject: [PATCH 21/40] fix: send the headers of JSON responses

---
 internal/httpserver/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/httpserver/util.go b/internal/httpserver/util.go
index 295ea44..3823e22 100644
--- a/internal/httpserver/util.go
+++ b/internal/httpserver/util.go
@@ -13,10 +13,10 @@ import (
 var log = logging.Logger("indexer/http")
 
 func WriteJsonResponse(w http.ResponseWriter, status int, body []byte) {
-	w.WriteHeader(status)
 	w.Header().Set("Content-Type", "application/json; charset=utf-8")
 	w.Header().Set("Cache-Control", "no-cache")
 	w.Header().Set("Access-Control-Allow-Origin", "*")
+	w.WriteHeader(status)
 
 	if _, err := w.Write(body); err != nil {
 		log.Errorw("cannot write response", "err", err)
-- 
2.43.0


From 1de09c90e9cb340a651d4e6cc2726f646173e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:04 +0000
Subject: [PATCH 22/40] fix: ingest an advertisement whose entries were removed
 by one with the same entries, instead of skipping it

---
 internal/ingest/error.go      | 11 +++++++++++
 internal/ingest/ingest.go     |  8 ++++++++
 internal/ingest/linksystem.go | 22 +++++++++++++++++++++-
 3 files changed, 40 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/error.go b/internal/ingest/error.go
index ab44a62..a79b314 100644
--- a/internal/ingest/error.go
+++ b/internal/ingest/error.go
@@ -1,6 +1,7 @@
 package ingest
 
 import (
+	"errors"
 	"fmt"
 )
 
@@ -20,8 +21,18 @@ const (
 	adIngestContentNotFound     adIngestState = "contentNotFound"
 	// Happens if there is an error during ingest of an entry chunk (rather than fetching it).
 	adIngestEntryChunkErr adIngestState = "ingestEntryChunkErr"
+	// Happens if fetched entries are removed from the datastore before they are
+	// ingested, because another advertisement has the same entries.
+	adIngestEntriesRemovedErr adIngestState = "entriesRemovedErr"
 )
 
 func (e adIngestError) Error() string {
 	return fmt.Sprintf("%s: %s", e.state, e.err)
 }
+
+// entriesRemoved returns true if the error is that fetched entries were removed
+// from the datastore before they were ingested.
+func entriesRemoved(err error) bool {
+	var adIngestErr adIngestError
+	return errors.As(err, &adIngestErr) && adIngestErr.state == adIngestEntriesRemovedErr
+}
diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 7506097..58021f5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -43,6 +43,11 @@ const (
 	adProcessedPrefix = "/adProcessed/"
 )
 
+// maxEntriesRemovedRetry is the number of times to retry ingesting an
+// advertisement after its entries are removed from the datastore by the
+// ingestion of another advertisement that has the same entries.
+const maxEntriesRemovedRetry = 10
+
 type adProcessedEvent struct {
 	publisher peer.ID
 	// Head of the chain being processed.
@@ -942,6 +947,9 @@ func (ing *Ingester) processAssignment(assignment workerAssignment) {
 			"progress", fmt.Sprintf("%d of %d", count, splitAtIndex))
 
 		err := ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
+		for retry := 0; retry < maxEntriesRemovedRetry && entriesRemoved(err); retry++ {
+			err = ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
+		}
 		if err == nil {
 			// No error at all, this ad was processed successfully.
 			stats.Record(context.Background(), metrics.AdIngestSuccessCount.M(1))
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index eb108ed..f9f5397 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -233,6 +233,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 
 	node, err := ing.loadNode(syncedFirstEntryCid, basicnode.Prototype.Any)
 	if err != nil {
+		if errors.Is(err, datastore.ErrNotFound) {
+			return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("failed to load first entry after sync: %w", err)}
+		}
 		return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load first entry after sync: %w", err)}
 	}
 
@@ -258,6 +261,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// Load the CID as HAMT root node.
 		hn, err := ing.loadHamt(syncedFirstEntryCid)
 		if err != nil {
+			if errors.Is(err, datastore.ErrNotFound) {
+				return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
+			}
 			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 		}
 
@@ -287,6 +293,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		for !mi.Done() {
 			k, _, err := mi.Next()
 			if err != nil {
+				if errors.Is(err, datastore.ErrNotFound) {
+					return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+				}
 				return adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
 			}
 			ks, err := k.AsString()
@@ -322,6 +331,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		// We have already peaked the first EntryChunk as part of probing the entries type.
 		// So process that first
 		chunk, err := ing.loadEntryChunk(syncedFirstEntryCid)
+		if errors.Is(err, datastore.ErrNotFound) {
+			return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("failed to load first entry chunk: %w", err)}
+		}
 		if err != nil {
 			errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 		} else {
@@ -333,11 +345,16 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 
 		if chunk != nil && chunk.Next != nil {
 			nextChunkCid := chunk.Next.(cidlink.Link).Cid
-			var indexErr error
+			var indexErr, removedErr error
 			// Traverse remaining entry chunks based on the entries selector that limits recursion depth.
 			_, err = ing.sub.Sync(ctx, publisherID, nextChunkCid, ing.entriesSel, nil, legs.ScopedBlockHook(func(p peer.ID, c cid.Cid, actions legs.SegmentSyncActions) {
 				// Load CID as entry chunk since the selector should only select entry chunk nodes.
 				chunk, err := ing.loadEntryChunk(c)
+				if errors.Is(err, datastore.ErrNotFound) {
+					actions.FailSync(err)
+					removedErr = err
+					return
+				}
 				if err != nil {
 					actions.FailSync(err)
 					errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
@@ -360,6 +377,9 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 				// succeed when retried.
 				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index entry chunks: %w", indexErr)}
 			}
+			if removedErr != nil {
+				return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("failed to load entry chunk: %w", removedErr)}
+			}
 			// If entry chunks were bad then that is what failed the sync.
 			if err != nil && len(errsIngestingEntryChunks) == 0 {
 				if strings.Contains(err.Error(), "datatransfer failed: content not found") {
-- 
2.43.0


From 58c2ae8ae289dffc9cf68737323ded40ad2b17b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:49 +0000
Subject: [PATCH 23/40] fix: skip an advertisement with a malformed HAMT
 instead of crashing or retrying it forever

---
 internal/ingest/linksystem.go | 46 +++++++++++++++++++++++++++++------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index f9f5397..1e2da33 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -264,7 +264,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 			if errors.Is(err, datastore.ErrNotFound) {
 				return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 			}
-			return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
+			return adIngestError{adIngestMalformedErr, fmt.Errorf("failed to load entries as HAMT root node: %w", err)}
 		}
 
 		// Sync all the links in the hamt, since so far we have only synced the root.
@@ -289,19 +289,23 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		//
 		// Group the mutlihashes in StoreBatchSize batches and process as usual.
 		var mhs []multihash.Multihash
-		mi := hn.MapIterator()
-		for !mi.Done() {
-			k, _, err := mi.Next()
+		var mi ipld.MapIterator
+		for {
+			var ks string
+			var done bool
+			mi, ks, done, err = nextHamtKey(hn, mi)
+			if done {
+				break
+			}
 			if err != nil {
 				if errors.Is(err, datastore.ErrNotFound) {
 					return adIngestError{adIngestEntriesRemovedErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
 				}
+				if errors.Is(err, hamt.ErrMalformedHamt) {
+					return adIngestError{adIngestMalformedErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
+				}
 				return adIngestError{adIngestIndexerErr, fmt.Errorf("faild to iterate through HAMT: %w", err)}
 			}
-			ks, err := k.AsString()
-			if err != nil {
-				return adIngestError{adIngestMalformedErr, fmt.Errorf("HAMT key must be of type string: %w", err)}
-			}
 			mhs = append(mhs, multihash.Multihash(ks))
 			// Note that indexContentBlock also does batching with the same batchSize.
 			// The reason we need batching here is because here we are iterating over the _entire_
@@ -402,6 +406,32 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 	return nil
 }
 
+// nextHamtKey gets the next key of the HAMT, starting to iterate over the HAMT
+// if mi is nil. The HAMT comes from a publisher, and iterating over a malformed
+// HAMT can panic. A panic is returned as an error.
+func nextHamtKey(hn *hamt.Node, mi ipld.MapIterator) (_ ipld.MapIterator, key string, done bool, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", hamt.ErrMalformedHamt, r)
+		}
+	}()
+	if mi == nil {
+		mi = hn.MapIterator()
+	}
+	if mi.Done() {
+		return mi, "", true, nil
+	}
+	k, _, err := mi.Next()
+	if err != nil {
+		return mi, "", false, err
+	}
+	key, err = k.AsString()
+	if err != nil {
+		return mi, "", false, fmt.Errorf("%w: HAMT key must be of type string: %v", hamt.ErrMalformedHamt, err)
+	}
+	return mi, key, false, nil
+}
+
 // ingestEntryChunk ingests a block of entries as that block is received
 // through graphsync.
 //
-- 
2.43.0


From 70260d76ad814c7acd6c71e725cb5895b21bfd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 24/40] fix: a provider that publishes for itself gets its new
 address as publisher address

The publisher address of a provider that is its own publisher was taken from
its addresses before the addresses of the update were set. So a provider
registered by its first advertisement had no publisher address until the
indexer was restarted.
---
 internal/registry/registry.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 267ad5a..2a57619 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -464,6 +464,14 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 		}
 	}
 
+	if len(addrs) != 0 {
+		maddrs, err := stringsToMultiaddrs(addrs)
+		if err != nil {
+			return err
+		}
+		info.AddrInfo.Addrs = maddrs
+	}
+
 	if info.Publisher.Validate() == nil && info.PublisherAddr == nil && info.Publisher == info.AddrInfo.ID {
 		if len(info.AddrInfo.Addrs) == 0 {
 			log.Warnw("Register provider with no provider or publisher addresses",
@@ -473,14 +481,6 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 		}
 	}
 
-	if len(addrs) != 0 {
-		maddrs, err := stringsToMultiaddrs(addrs)
-		if err != nil {
-			return err
-		}
-		info.AddrInfo.Addrs = maddrs
-	}
-
 	now := time.Now()
 
 	if adID != info.LastAdvertisement && adID != cid.Undef {
-- 
2.43.0


From 416d452f74ce94ac41754ea2ce6952d9a68f8175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:32 +0000
Subject: [PATCH 25/40] fix: do not register a provider that was blocked while
 it was being discovered or registered

Policy was checked before discovery, which can take minutes, and outside of the
action that registers a provider. A provider blocked in the meantime was
registered afterwards.
---
 internal/registry/registry.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 2a57619..f4957ca 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -315,19 +315,18 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
-	err := r.checkRegister(info)
-	if err != nil {
-		return err
-	}
-
 	// If provider is allowed and publisher is allowed to publish for the
 	// provider, then register.
 	errCh := make(chan error, 1)
 	r.actions <- func() {
+		if err := r.checkRegister(info); err != nil {
+			errCh <- err
+			return
+		}
 		errCh <- r.syncRegister(ctx, info)
 	}
 
-	err = <-errCh
+	err := <-errCh
 	if err != nil {
 		return err
 	}
@@ -716,6 +715,11 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 				AddrInfo:      discoverData.AddrInfo,
 				DiscoveryAddr: spID,
 			}
+			// Policy may have changed while discovering the provider.
+			if err := r.checkRegister(info); err != nil {
+				errCh <- err
+				return
+			}
 			if err := r.syncRegister(ctx, info); err != nil {
 				errCh <- err
 				return
-- 
2.43.0


From 4beb89bfeaec9390f0fddd335cc1d9f55b3173cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:01 +0000
Subject: [PATCH 26/40] fix: do not fail a sync because an advertisement it
 fetched was processed in the meantime

A processed advertisement is removed from the datastore. If that happened
between an overlapping sync from the same publisher fetching the advertisement
and looking at it, that sync failed, and what it was to sync, possibly because
of an announcement, was not ingested.
---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 58021f5..3c78ed5 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -233,6 +233,12 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 	// Therefore, we only attempt to load advertisements here and signal failure if the
 	// load fails.
 	if ad, err := ing.loadAd(c); err != nil {
+		if ing.adAlreadyProcessed(c) {
+			// The ad was processed, and removed from the datastore, since it
+			// was synced. All earlier ads are processed also.
+			actions.SetNextSyncCid(cid.Undef)
+			return
+		}
 		actions.FailSync(err)
 	} else if ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
-- 
2.43.0


From 0fc806388e612c8f1727c51eb04b2109a35b9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:15 +0000
Subject: [PATCH 27/40] fix: close the ingester without crashing while syncs or
 announcements are going on

The leg transport was closed while explicit syncs, automatic syncs and the
announcements handled by workers still used it, which panics when one of them
finishes after that. Stop these first. This also makes syncs that wait for a
publisher end when closing.
---
 internal/ingest/ingest.go | 65 +++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 3c78ed5..3ddd5dc 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -121,6 +121,9 @@ type Ingester struct {
 	closeWorkers chan struct{}
 	// toStaging receives sync finished events used to call to runIngestStep.
 	toStaging <-chan legs.SyncFinished
+	// ingesterLoopDone is closed when toStaging is closed and everything
+	// received from it is handled.
+	ingesterLoopDone chan struct{}
 	// toWorkers is used to ask the worker pool to start processing the ad
 	// chain for a given provider.
 	toWorkers      chan providerID
@@ -162,6 +165,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		providerAdChainStaging:  make(map[peer.ID][]workerAssignment),
 		toWorkers:               make(chan providerID),
 		closeWorkers:            make(chan struct{}),
+		ingesterLoopDone:        make(chan struct{}),
 	}
 
 	var err error
@@ -261,25 +265,20 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
-	// Close leg transport.
-	err := ing.sub.Close()
-
-	// Dismiss any event readers.
-	ing.outEventsMutex.Lock()
-	for _, chans := range ing.outEventsChans {
-		for _, ch := range chans {
-			close(ch)
-		}
-	}
-	ing.outEventsChans = nil
-	ing.outEventsMutex.Unlock()
-
+	var err error
 	ing.closeOnce.Do(func() {
-		ing.cancelOnSyncFinished()
-		close(ing.closeWorkers)
-		ing.waitForWorkers.Wait()
+		// Stop everything that uses the leg transport before closing it,
+		// since it must not be used after that.
 		close(ing.closePendingSyncs)
 		ing.waitForPendingSyncs.Wait()
+		close(ing.closeWorkers)
+		ing.waitForWorkers.Wait()
+
+		// Close leg transport.
+		err = ing.sub.Close()
+
+		ing.cancelOnSyncFinished()
+		<-ing.ingesterLoopDone
 
 		// Stop the distribution goroutine.
 		close(ing.inEvents)
@@ -290,6 +289,27 @@ func (ing *Ingester) Close() error {
 	return err
 }
 
+// contextUntilClose returns a context, derived from ctx, that is canceled when
+// the ingester is closed. It is already canceled if the ingester was closed
+// before.
+func (ing *Ingester) contextUntilClose(ctx context.Context) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(ctx)
+	select {
+	case <-ing.closePendingSyncs:
+		cancel()
+		return ctx, cancel
+	default:
+	}
+	go func() {
+		select {
+		case <-ing.closePendingSyncs:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+	return ctx, cancel
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -332,6 +352,9 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		ctx, cancelCtx := ing.contextUntilClose(ctx)
+		defer cancelCtx()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -703,6 +726,9 @@ func (ing *Ingester) autoSync() {
 		go func(pubID peer.ID, pubAddr multiaddr.Multiaddr, provID peer.ID) {
 			defer ing.waitForPendingSyncs.Done()
 
+			ctx, cancel := ing.contextUntilClose(ctx)
+			defer cancel()
+
 			log := log.With("provider", provID, "publisher", pubID, "addr", pubAddr)
 			log.Info("Auto-syncing the latest advertisement with publisher")
 
@@ -769,6 +795,7 @@ func (ing *Ingester) RunWorkers(n int) {
 }
 
 func (ing *Ingester) runIngesterLoop() {
+	defer close(ing.ingesterLoopDone)
 	for syncFinishedEvent := range ing.toStaging {
 		ing.runIngestStep(syncFinishedEvent)
 	}
@@ -831,7 +858,11 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if len(staged) == 0 {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
-			ing.toWorkers <- providerID(p)
+			select {
+			case ing.toWorkers <- providerID(p):
+			case <-ing.closePendingSyncs:
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From b5fda136b94bbf7b5ce9ed82fec5373a498abdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:29 +0000
Subject: [PATCH 28/40] fix: refuse a malformed batch lookup with a client
 error

---
 server/finder/http/handler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/finder/http/handler.go b/server/finder/http/handler.go
index 30c695c..24e1c6e 100644
--- a/server/finder/http/handler.go
+++ b/server/finder/http/handler.go
@@ -69,7 +69,7 @@ func (h *httpHandler) findBatch(w http.ResponseWriter, r *http.Request) {
 	req, err := model.UnmarshalFindRequest(body)
 	if err != nil {
 		log.Errorw("error unmarshalling get batch request", "err", err)
-		http.Error(w, "", http.StatusInternalServerError)
+		httpserver.HandleError(w, err, "find")
 		return
 	}
 	h.getIndexes(w, req.Multihashes)
-- 
2.43.0


From d48b85df3f9e35423c2b2bb7fb10fd1f197de0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:02 +0000
Subject: [PATCH 29/40] fix: loading a config keeps its log levels as they are

The levels in a config file were added to the default levels, so that a
level that had been removed came back and saving a config and loading it
again did not give the same config.
---
 config/config.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/config/config.go b/config/config.go
index fd984af..6b21cfe 100644
--- a/config/config.go
+++ b/config/config.go
@@ -110,11 +110,17 @@ func Load(filePath string) (*Config, error) {
 		Logging:   NewLogging(),
 		Peering:   NewPeering(),
 	}
+	// Decoding adds to a map that is already there. Leave it out, so that the
+	// levels in the config replace the default levels.
+	cfg.Logging.Loggers = nil
 
 	if err = json.NewDecoder(f).Decode(&cfg); err != nil {
 		return nil, err
 	}
 
+	if cfg.Logging.Loggers == nil {
+		cfg.Logging.Loggers = NewLogging().Loggers
+	}
 	cfg.populateUnset()
 
 	return &cfg, nil
-- 
2.43.0


From 0c25fdac640f43e8e3ba4d94b482e8d0333104fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:15 +0000
Subject: [PATCH 30/40] fix: a long line does not end the import of a manifest

Reading a manifest stopped with an error at a line of more than 64 kB, such
as an entry with many path prefixes, and lost everything after it.
---
 internal/importer/manifest.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/internal/importer/manifest.go b/internal/importer/manifest.go
index 3cad696..49b8541 100644
--- a/internal/importer/manifest.go
+++ b/internal/importer/manifest.go
@@ -2,6 +2,7 @@ package importer
 
 import (
 	"bufio"
+	"bytes"
 	"context"
 	"encoding/json"
 	"errors"
@@ -18,15 +19,29 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 	defer close(errOut)
 
 	var badEntryCount, entryCount int
-	scanner := bufio.NewScanner(in)
-	for scanner.Scan() {
+	var readErr error
+	r := bufio.NewReader(in)
+	for eof := false; !eof; {
+		line, err := r.ReadBytes('\n')
+		if err != nil {
+			if err != io.EOF {
+				readErr = err
+				break
+			}
+			// The last line does not need to end with a newline.
+			eof = true
+		}
+		line = bytes.TrimSpace(line)
+		if len(line) == 0 {
+			continue
+		}
 		e := agg.ManifestDagEntry{}
 		// In its current implementation, there is no performance benefit
 		// from using json.Unmarshal v.s. json.Decode, as Decode uses a
 		// buffer to unmarshal, so they have similar performance.
 		// This will change in future versions of Go, evaluate then
 		// if it makes sense to change the implementation.
-		err := json.Unmarshal(scanner.Bytes(), &e)
+		err = json.Unmarshal(line, &e)
 		if err != nil {
 			badEntryCount++
 			continue
@@ -69,8 +84,9 @@ func ReadManifest(ctx context.Context, in io.Reader, out chan<- multihash.Multih
 	// range loop exit and then read errOut
 	close(out)
 
-	if err := scanner.Err(); err != nil {
-		errOut <- err
+	if readErr != nil {
+		errOut <- readErr
+		return
 	}
 	if badEntryCount != 0 {
 		log.Errorf("Skipped %d bad manifest entries", badEntryCount)
-- 
2.43.0


From cb40b8a9c2b9f081569203d2d459d750cde5acc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 31/40] fix: an admin address of none disables the admin server

The config documents "none" as the way to disable the admin server, as for
the other servers, but the daemon took it for a bad address and did not start.
---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index 45fe82c..068c0cc 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -252,7 +252,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0


From 27f6d8e119b262f6f4f31400b20632e7cef57cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:29 +0000
Subject: [PATCH 32/40] fix: the daemon runs without libp2p hosting

Without libp2p hosting there is no ingester, and creating the admin server
panicked, while an announcement panicked in the ingest server. Only requests
that need the ingester are refused now.
---
 server/admin/http/handler.go            | 6 ++++++
 server/admin/http/server.go             | 3 ---
 server/ingest/handler/ingest_handler.go | 6 ++++++
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 977d3f8..33a5b2d 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -77,6 +77,12 @@ func (h *adminHandler) sync(w http.ResponseWriter, r *http.Request) {
 	}
 	log := log.With("peerID", peerID)
 
+	// There is no ingester if libp2p hosting is disabled.
+	if h.ingester == nil {
+		http.Error(w, "ingester not available", http.StatusServiceUnavailable)
+		return
+	}
+
 	query := r.URL.Query()
 	var depth int64
 	depthStr := query.Get("depth")
diff --git a/server/admin/http/server.go b/server/admin/http/server.go
index c62f680..cb5f8b8 100644
--- a/server/admin/http/server.go
+++ b/server/admin/http/server.go
@@ -24,9 +24,6 @@ type Server struct {
 }
 
 func New(listen string, indexer indexer.Interface, ingester *ingest.Ingester, reg *registry.Registry, reloadErrChan chan<- chan error, options ...ServerOption) (*Server, error) {
-	if ingester == nil {
-		panic("ingester cannot be nil")
-	}
 	var cfg serverConfig
 	if err := cfg.apply(append([]ServerOption{serverDefaults}, options...)...); err != nil {
 		return nil, err
diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 5cba4d6..e5f8dea 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -144,6 +144,12 @@ func (h *IngestHandler) Announce(r io.Reader) error {
 		err = fmt.Errorf("announce requests not allowed from peer %s", addrInfo.ID)
 		return v0.NewError(err, http.StatusForbidden)
 	}
+
+	// There is no ingester if libp2p hosting is disabled.
+	if h.ingester == nil {
+		return v0.NewError(errors.New("ingester not available"), http.StatusServiceUnavailable)
+	}
+
 	cur, err := h.ingester.GetLatestSync(addrInfo.ID)
 	if err == nil {
 		if cur.Equals(an.Cid) {
-- 
2.43.0


From 89ce22278e05d138ace943a515e72869abdf6a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:04 +0000
Subject: [PATCH 33/40] fix: reloading the config cannot block the daemon, and
 changes its check interval

The main loop sent to the channel that it alone receives from, so that it
blocked forever if a signal or a change of the file came along with a request
to the admin server. The config check interval was compared with itself before
reloading, so that a changed interval had no effect.
---
 command/daemon.go | 69 ++++++++++++++++++++++++++---------------------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 068c0cc..041c478 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -322,6 +322,37 @@ func daemonCommand(cctx *cli.Context) error {
 		timeChan = ticker.C
 	}
 
+	// reload reloads the config, and reports the result on errChan if not nil.
+	reload := func(errChan chan error) {
+		newCfg, err := reloadConfig(cfgPath, ingester, reg)
+		if err != nil {
+			log.Errorw("Error reloading conifg", "err", err)
+			if errChan != nil {
+				errChan <- errors.New("could not reload configuration")
+			}
+			return
+		}
+		if ticker != nil && newCfg.Indexer.ConfigCheckInterval != cfg.Indexer.ConfigCheckInterval {
+			ticker.Reset(time.Duration(newCfg.Indexer.ConfigCheckInterval))
+		}
+		cfg = newCfg
+
+		if p2pHost != nil {
+			peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
+			if err != nil {
+				log.Errorw("Error reloading peering service", "err", err)
+				if errChan != nil {
+					errChan <- errors.New("could not reload peering service")
+				}
+				return
+			}
+		}
+
+		if errChan != nil {
+			errChan <- nil
+		}
+	}
+
 	for endDaemon := false; !endDaemon; {
 		select {
 		case <-cctx.Done():
@@ -332,37 +363,9 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			reload(nil)
 		case errChan := <-reloadErrsChan:
-			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
-			newCfg, err := reloadConfig(cfgPath, ingester, reg)
-			if err != nil {
-				log.Errorw("Error reloading conifg", "err", err)
-				if errChan != nil {
-					errChan <- errors.New("could not reload configuration")
-				}
-				continue
-			}
-			cfg = newCfg
-
-			if p2pHost != nil {
-				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-				if err != nil {
-					log.Errorw("Error reloading peering service", "err", err)
-					if errChan != nil {
-						errChan <- errors.New("could not reload peering service")
-						continue
-					}
-				}
-			}
-
-			if errChan != nil {
-				errChan <- nil
-			}
+			reload(errChan)
 		case <-timeChan:
 			var changed bool
 			modTime, changed, err = fileChanged(cfgPath, modTime)
@@ -375,7 +378,7 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				reload(nil)
 			}
 		}
 	}
@@ -510,6 +513,10 @@ func loadConfig(filePath string) (*config.Config, error) {
 		return nil, fmt.Errorf("only levelds datastore type supported, %q not supported", cfg.Datastore.Type)
 	}
 
+	if cfg.Indexer.ConfigCheckInterval <= 0 {
+		return nil, fmt.Errorf("bad config check interval %s", time.Duration(cfg.Indexer.ConfigCheckInterval))
+	}
+
 	return cfg, nil
 }
 
-- 
2.43.0


From e17d9e1959a9d74fbf4d54d7cc0384a73ec8aa0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:06 +0000
Subject: [PATCH 34/40] fix: a negative store batch size disables batching

Any value less than 2 is documented to disable batching, but a negative one
was taken for a huge one, and a batch of that size allocated.
---
 internal/ingest/ingest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 3ddd5dc..595f4e4 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -151,7 +151,6 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		ds:          ds,
 		lsys:        mkLinkSystem(ds, reg),
 		indexer:     idxr,
-		batchSize:   uint32(cfg.StoreBatchSize),
 		sigUpdate:   make(chan struct{}, 1),
 		syncTimeout: time.Duration(cfg.SyncTimeout),
 		entriesSel:  Selectors.EntriesWithLimit(recursionLimit(cfg.EntriesDepthLimit)),
@@ -167,6 +166,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		closeWorkers:            make(chan struct{}),
 		ingesterLoopDone:        make(chan struct{}),
 	}
+	ing.SetBatchSize(cfg.StoreBatchSize)
 
 	var err error
 	ing.rateApply, ing.rateBurst, ing.rateLimit, err = configRateLimit(cfg.RateLimit)
@@ -761,6 +761,10 @@ func (ing *Ingester) BatchSize() int {
 }
 
 func (ing *Ingester) SetBatchSize(batchSize int) {
+	// Any value less than 2 disables batching.
+	if batchSize < 1 {
+		batchSize = 1
+	}
 	atomic.StoreUint32(&ing.batchSize, uint32(batchSize))
 }
 
-- 
2.43.0


From c2bb1e979b3efbb832d4d51b009252ec23741517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:07 +0000
Subject: [PATCH 35/40] fix: reloading the config applies all of it or none of
 it

A config with, say, an unusable rate limit had its policy applied before the
reload failed. A negative worker count blocked the daemon.
---
 command/daemon.go         | 41 ++++++++++++++++++++++++++++++++++++---
 internal/ingest/ingest.go |  2 +-
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 041c478..7599a67 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -21,6 +21,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
 	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
+	"github.com/filecoin-project/storetheindex/internal/registry/policy"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -500,6 +501,26 @@ func setLoggingConfig(cfgLogging config.Logging) error {
 	return nil
 }
 
+// checkLoggingConfig checks that the logging config can be set.
+func checkLoggingConfig(cfgLogging config.Logging) error {
+	if _, err := logging.LevelFromString(cfgLogging.Level); err != nil {
+		return err
+	}
+	known := make(map[string]struct{})
+	for _, name := range logging.GetSubsystems() {
+		known[name] = struct{}{}
+	}
+	for loggerName, level := range cfgLogging.Loggers {
+		if _, err := logging.LevelFromString(level); err != nil {
+			return err
+		}
+		if _, ok := known[loggerName]; !ok && loggerName != "*" {
+			return logging.ErrNoSuchLogger
+		}
+	}
+	return nil
+}
+
 func loadConfig(filePath string) (*config.Config, error) {
 	cfg, err := config.Load(filePath)
 	if err != nil {
@@ -526,12 +547,21 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		return nil, err
 	}
 
-	err = reg.SetPolicy(cfg.Discovery.Policy)
-	if err != nil {
+	// Check everything before applying anything, so that a config that cannot
+	// be used completely is not used at all.
+	if _, err = policy.New(cfg.Discovery.Policy); err != nil {
 		return nil, fmt.Errorf("failed to set policy config: %w", err)
 	}
-
+	if err = checkLoggingConfig(cfg.Logging); err != nil {
+		return nil, fmt.Errorf("failed to configure logging: %w", err)
+	}
 	if ingester != nil {
+		if cfg.Ingest.IngestWorkerCount <= 0 {
+			return nil, errors.New("ingester worker count must be > 0")
+		}
+		if _, err = cfg.Peering.PeerAddrs(); err != nil {
+			return nil, fmt.Errorf("bad peering peer: %w", err)
+		}
 		err = ingester.SetRateLimit(cfg.Ingest.RateLimit)
 		if err != nil {
 			return nil, fmt.Errorf("failed to set rate limit config: %w", err)
@@ -540,6 +570,11 @@ func reloadConfig(cfgPath string, ingester *ingest.Ingester, reg *registry.Regis
 		ingester.RunWorkers(cfg.Ingest.IngestWorkerCount)
 	}
 
+	err = reg.SetPolicy(cfg.Discovery.Policy)
+	if err != nil {
+		return nil, fmt.Errorf("failed to set policy config: %w", err)
+	}
+
 	err = setLoggingConfig(cfg.Logging)
 	if err != nil {
 		return nil, fmt.Errorf("failed to configure logging: %w", err)
diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 595f4e4..2015d02 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -207,7 +207,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 
 	ing.toStaging, ing.cancelOnSyncFinished = ing.sub.OnSyncFinished()
 
-	if cfg.IngestWorkerCount == 0 {
+	if cfg.IngestWorkerCount <= 0 {
 		return nil, errors.New("ingester worker count must be > 0")
 	}
 	ing.RunWorkers(cfg.IngestWorkerCount)
-- 
2.43.0


From a5ef75e3a2749cfd3e692589aa40fd2fd85d7450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:08 +0000
Subject: [PATCH 36/40] fix: a reload request does not keep the daemon from
 stopping

A request to reload the config that came while the daemon was stopping was
never answered, so that shutting down the admin server timed out.
---
 server/admin/http/handler.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 33a5b2d..cf9b051 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -187,9 +187,19 @@ func (h *adminHandler) importProviders(w http.ResponseWriter, r *http.Request) {
 }
 
 func (h *adminHandler) reloadConfig(w http.ResponseWriter, r *http.Request) {
-	errChan := make(chan error)
-	h.reloadErrChan <- errChan
-	err := <-errChan
+	// Buffered, so that the result can be sent after this stops waiting for it.
+	errChan := make(chan error, 1)
+	var err error
+	select {
+	case h.reloadErrChan <- errChan:
+		select {
+		case err = <-errChan:
+		case <-h.ctx.Done():
+			err = errors.New("server shutdown")
+		}
+	case <-h.ctx.Done():
+		err = errors.New("server shutdown")
+	}
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
-- 
2.43.0


From 8bbbda11ea12498b2d108326ba944d5ebade5f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:23 +0000
Subject: [PATCH 37/40] fix: save what was indexed before marking an
 advertisement as processed

The value store may buffer writes, as storethehash does. If the indexer was
killed after an advertisement was marked as processed and before the value
store wrote its buffers, the content of the advertisement was lost, and not
ingested again.
---
 internal/ingest/ingest.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 2015d02..5bdc73f 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -991,6 +991,13 @@ func (ing *Ingester) processAssignment(assignment workerAssignment) {
 		for retry := 0; retry < maxEntriesRemovedRetry && entriesRemoved(err); retry++ {
 			err = ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
 		}
+		if err == nil {
+			// Save what was indexed before marking the ad as processed. The
+			// ad is not ingested again once it is marked.
+			if flushErr := ing.indexer.Flush(); flushErr != nil {
+				err = adIngestError{adIngestIndexerErr, fmt.Errorf("failed to flush indexer: %w", flushErr)}
+			}
+		}
 		if err == nil {
 			// No error at all, this ad was processed successfully.
 			stats.Record(context.Background(), metrics.AdIngestSuccessCount.M(1))
-- 
2.43.0


From b17af32324f6639676cc650e0086d60d3b7c2512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:32 +0000
Subject: [PATCH 38/40] fix: the register and find commands use the flags and
 the server they should

Providers register with the ingest server, not the admin server. Both commands
read flags that they do not have.
---
 command/find.go     | 2 +-
 command/register.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/command/find.go b/command/find.go
index 505e8d5..0f64cb9 100644
--- a/command/find.go
+++ b/command/find.go
@@ -51,7 +51,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 	case "libp2p":
-		peerID, err := peer.Decode(cctx.String("peerid"))
+		peerID, err := peer.Decode(cctx.String("indexerid"))
 		if err != nil {
 			return err
 		}
diff --git a/command/register.go b/command/register.go
index 3862c98..dab0084 100644
--- a/command/register.go
+++ b/command/register.go
@@ -30,13 +30,13 @@ func registerCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	indexerHost := cliIndexer(cctx, "admin")
+	indexerHost := cliIndexer(cctx, "ingest")
 	client, err := v0client.New(indexerHost)
 	if err != nil {
 		return err
 	}
 
-	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("addr"))
+	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("provider-addr"))
 	if err != nil {
 		return fmt.Errorf("failed to register providers: %s", err)
 	}
-- 
2.43.0


From c1dabbe411076c1d86863d95034aa066b58328a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:00 +0000
Subject: [PATCH 39/40] fix: libp2p client opens a new stream when the server
 dropped the old one

---
 api/v0/libp2pclient/client.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/api/v0/libp2pclient/client.go b/api/v0/libp2pclient/client.go
index aa1c388..21c8aec 100644
--- a/api/v0/libp2pclient/client.go
+++ b/api/v0/libp2pclient/client.go
@@ -185,12 +185,23 @@ func (c *Client) SendMessage(ctx context.Context, msg proto.Message) error {
 }
 
 func (c *Client) sendMessage(ctx context.Context, msg proto.Message) error {
+	reused := c.stream != nil
 	err := c.prepStreamReader(ctx)
 	if err != nil {
 		return err
 	}
 
-	if err = writeMsg(c.stream, msg); err != nil {
+	err = writeMsg(c.stream, msg)
+	if err != nil && reused {
+		// The server resets idle streams, so a stream kept from a previous
+		// request may be unusable. Try again with a new stream.
+		c.closeStream()
+		if err = c.prepStreamReader(ctx); err != nil {
+			return err
+		}
+		err = writeMsg(c.stream, msg)
+	}
+	if err != nil {
 		c.closeStream()
 		return err
 	}
-- 
2.43.0


From 024869415d9e9dc7eaa28704bef21592bc736f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:00 +0000
Subject: [PATCH 40/40] fix: close the response body of unsuccessful find
 requests

---
 api/v0/finder/client/http/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/api/v0/finder/client/http/client.go b/api/v0/finder/client/http/client.go
index 203034e..b895ebc 100644
--- a/api/v0/finder/client/http/client.go
+++ b/api/v0/finder/client/http/client.go
@@ -164,6 +164,8 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
+
 	// Handle failed requests
 	if resp.StatusCode != http.StatusOK {
 		if resp.StatusCode == http.StatusNotFound {
@@ -172,7 +174,6 @@ func (c *Client) sendRequest(req *http.Request) (*model.FindResponse, error) {
 		return nil, fmt.Errorf("batch find query failed: %v", http.StatusText(resp.StatusCode))
 	}
 
-	defer resp.Body.Close()
 	b, err := io.ReadAll(resp.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0

