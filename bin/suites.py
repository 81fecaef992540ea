"""Which parts of the specification decide which property, and within which bounds.

A suite is a module of spec/ with constants.  'cover' runs TLC exhaustively within the
bounds (the invariants are checked) and emits the history of every transition; 'sim' has
TLC emit random behaviours beyond them.  All of them are replayed into the real code.
'rec' suites are scenario generators whose executions are recorded from the real code and
validated against the specification by TLC.
"""

import re

S = {}

def q(*xs):
    return '{' + ','.join('"%s"' % x for x in xs) + '}'

ING = dict(Pubs=q('p'), Provs=q('p'), Ctxs=q('c', 'd'), Labels=q('x'), MaxAds=3, MaxSteps=7,
           AdKinds=q('put', 'meta', 'rm'), EntKinds=q('ok'), Auths=q('prov'), Faults='{}', Depths='{0}',
           Resyncs='{FALSE}', Ops=q('publish', 'sync'), SelfOnly='TRUE', Allow0='TRUE', Publish0='TRUE', PubExc='{}', MaxEnts=1, P2P='FALSE', Sample=0, EmitMod=1, Points='{0}',
           Interval=4, Retry=2, Stop=12, OPeer='"q"', OInterval=8, ORetry=4, OStop=6, Period=2)
INV = 'ChainExact PrefixProcessed LatestProcessed AuthProcessed Justified'
INVM = 'LatestProcessed AuthProcessed Justified'
ALLAUTH = q('prov', 'pub', 'evil', 't_prev', 't_ents', 't_prov', 't_addr', 't_md', 't_rm', 't_sig', 't_sigswap')


def suite(name, module, base, inv, quick, thorough, cfg=None, clock=False, pre='', **consts):
    """quick/thorough: list of (kind, n, overrides)"""
    c = dict(base)
    c.update(consts)
    S[name] = dict(name=name, module=module, consts=c, inv=inv, quick=quick, thorough=thorough, cfg=cfg or {}, clock=clock, pre=pre)


def ing(name, inv, quick, thorough, **consts):
    suite(name, 'Ingest', ING, inv, quick, thorough, **consts)
    c = S[name]['consts']
    S[name]['cfg'] = {'Walk': name == 'ingest-remove', 'Allow0': c['Allow0'] == 'TRUE', 'Publish0': c['Publish0'] == 'TRUE',
                      'PubExc': re.findall(r'"(\w+)"', c['PubExc'])}


# chains, partitions into syncs, depth limits, re-syncs
ing('ingest-core', INV,
    [('cover', 3500, dict(MaxSteps=6, EmitMod=2)), ('sim', 700, dict(Sample=4, MaxAds=7, MaxSteps=14, Labels=q('x', 'y', 'z'), MaxEnts=2,
      Depths='{0,99,1,2,3}', Ops=q('publish', 'sync', 'announce', 'annold', 'restart'))),
     ('sim', 250, dict(Sample=10, MaxAds=12, MaxSteps=15, Depths='{0}', Resyncs='{FALSE}', Ctxs=q('c', 'd', 'e'), AdKinds=q('put', 'rm'), Labels=q('x', 'y')))],
    [('cover', 40000, dict()), ('sim', 20000, dict(Sample=4, MaxAds=9, MaxSteps=22, Ctxs=q('c', 'd', 'e'), Labels=q('x', 'y', 'z'), MaxEnts=3,
      Depths='{0,99,1,2,3,5}', Ops=q('publish', 'sync', 'announce', 'annold', 'restart'))),
     ('sim', 8000, dict(Sample=10, MaxAds=20, MaxSteps=26, Depths='{0}', Resyncs='{FALSE}', Ctxs=q('c', 'd', 'e'), AdKinds=q('put', 'rm'), Labels=q('x', 'y')))],
    Depths='{0,1}', Resyncs='{TRUE,FALSE}')
# temporary and permanent failures
ing('ingest-fault', INV,
    [('cover', 4000, dict(MaxSteps=5, EmitMod=25)), ('sim', 900, dict(Sample=4, MaxAds=6, MaxSteps=16, Labels=q('x', 'y', 'z'), MaxEnts=3, Ctxs=q('c', 'd'),
      Ops=q('publish', 'sync', 'announce', 'fault', 'idxdown', 'regdown', 'headdown', 'restart', 'policy'))),
     ('sim', 300, dict(Sample=20, MaxAds=12, MaxSteps=16, Faults=q('ent404'), Ctxs=q('c', 'd', 'e'), AdKinds=q('put', 'rm'), EntKinds=q('ok'), Labels=q('x', 'y'), MaxEnts=1, Ops=q('publish', 'sync', 'fault')))],
    [('cover', 200000, dict()), ('sim', 30000, dict(Sample=4, MaxAds=8, MaxSteps=24, Labels=q('x', 'y', 'z'), MaxEnts=3, Ctxs=q('c', 'd'),
      Ops=q('publish', 'sync', 'announce', 'fault', 'idxdown', 'regdown', 'headdown', 'restart', 'policy'))),
     ('sim', 8000, dict(Sample=20, MaxAds=20, MaxSteps=26, Faults=q('ent404'), Ctxs=q('c', 'd', 'e'), AdKinds=q('put', 'rm'), EntKinds=q('ok'), Labels=q('x', 'y'), MaxEnts=1, Ops=q('publish', 'sync', 'fault')))],
    Ctxs=q('c'), Labels=q('x', 'y'), MaxEnts=2, MaxSteps=6, EntKinds=q('ok', 'bad1', 'bad2'),
    Faults=q('ad404', 'ent404', 'ent404b', 'adsub', 'entsub'), Ops=q('publish', 'sync', 'fault', 'idxdown', 'regdown', 'headdown'))
# several publishers and providers, policy, removal, restart
ing('ingest-multi', INVM,
    [('cover', 3000, dict(MaxSteps=5, EmitMod=5)), ('sim', 900, dict(Sample=4, MaxAds=5, MaxSteps=16, Ctxs=q('c', 'd'), Labels=q('x', 'y'), MaxEnts=2,
      Ops=q('publish', 'sync', 'announce', 'badann', 'policy', 'remove', 'restart')))],
    [('cover', 200000, dict()), ('sim', 30000, dict(Sample=4, Pubs=q('p', 'q', 'r'), Provs=q('p', 'q', 'r'), MaxAds=6, MaxSteps=24, Ctxs=q('c', 'd'), Labels=q('x', 'y'), MaxEnts=2,
      Ops=q('publish', 'sync', 'announce', 'badann', 'policy', 'remove', 'restart')))],
    Pubs=q('p', 'q'), Provs=q('p', 'q'), Ctxs=q('c'), MaxAds=2, MaxSteps=6, AdKinds=q('put', 'rm'), SelfOnly='FALSE',
    Ops=q('publish', 'sync', 'policy', 'remove', 'restart'))
# who signed what
for name, pub0, exc in (('ingest-authF', 'FALSE', q()), ('ingest-authT', 'TRUE', q()), ('ingest-authFp', 'FALSE', q('p')), ('ingest-authTe', 'TRUE', q('evil', 'q'))):
    ing(name, INVM,
        [('cover', 2000, dict(MaxSteps=4, MaxAds=2, EmitMod=6)), ('sim', 350, dict(Sample=4, MaxAds=6, MaxSteps=12, Pubs=q('p', 'q')))],
        [('cover', 100000, dict()), ('sim', 10000, dict(Sample=4, MaxAds=6, MaxSteps=16, Pubs=q('p', 'q'), Ops=q('publish', 'sync', 'announce', 'rewind', 'restart', 'remove')))],
        Provs=q('p', 'q'), Ctxs=q('c'), MaxSteps=5, AdKinds=q('put', 'rm'), Auths=ALLAUTH,
        Ops=q('publish', 'sync', 'rewind', 'announce'), SelfOnly='FALSE', Publish0=pub0, PubExc=exc)

# announcements by gossip; chains served over graphsync
P2OPS = q('publish', 'sync', 'announce', 'policy', 'remove', 'restart')
for name, p2p, auths in (('ingest-gossip', 'FALSE', q('prov')), ('ingest-p2p', 'TRUE', q('prov')), ('ingest-p2pauth', 'TRUE', ALLAUTH)):
    ing(name, INVM,
        [('sim', 150, {})], [('sim', 4000, dict(MaxAds=6, MaxSteps=18))],
        Pubs=q('p', 'q'), Provs=q('p', 'q'), Labels=q('x', 'y'), MaxEnts=2, SelfOnly='FALSE', P2P=p2p, Auths=auths, Publish0='FALSE' if auths != q('prov') else 'TRUE',
        Sample=4, MaxAds=4, MaxSteps=12, Ops=P2OPS if auths == q('prov') else q('publish', 'sync', 'rewind', 'announce'))
ing('ingest-p2pfault', INVM, [('sim', 150, {})], [('sim', 4000, dict(MaxAds=6, MaxSteps=18))], Labels=q('x', 'y'), MaxEnts=2, P2P='TRUE', EntKinds=q('ok', 'bad1', 'bad2'),
    Faults=q('ad404', 'ent404', 'ent404b'), Sample=4, MaxAds=5, MaxSteps=13, Ops=q('publish', 'sync', 'announce', 'fault', 'restart'))
for name in ('ingest-gossip', 'ingest-p2p', 'ingest-p2pauth', 'ingest-p2pfault'):
    S[name]['cfg'].update(P2P=name != 'ingest-gossip', Gossip=name != 'ingest-p2pfault')

# a stop at any durable write
CRASHOPS = q('publish', 'sync', 'crash')
ing('ingest-crash', INV + ' !Resumes !Backed',
    [('cover', 1500, dict(EmitMod=8, MaxSteps=5, Points='0..1', MaxEnts=1)), ('sim', 400, dict(Sample=4, MaxAds=5, MaxSteps=12, Pubs=q('p', 'q'), Provs=q('p', 'q'), Labels=q('x', 'y', 'z'), MaxEnts=2,
      Points='0..3', Ops=q('publish', 'sync', 'crash', 'announce', 'restart', 'remove')))],
    [('cover', 40000, dict(Points='0..3')), ('sim', 10000, dict(Sample=4, MaxAds=7, MaxSteps=18, Pubs=q('p', 'q'), Provs=q('p', 'q'), Labels=q('x', 'y', 'z'), MaxEnts=3,
      Points='0..3', Depths='{0,99,2}', Ops=q('publish', 'sync', 'crash', 'announce', 'restart', 'remove')))],
    Ops=CRASHOPS, MaxSteps=6, Labels=q('x', 'y'), Ctxs=q('c', 'd'), MaxEnts=2, Resyncs='{FALSE,TRUE}', Points='0..3')

# removal, and providers that are not heard of
REMOPS = q('publish', 'sync', 'remove', 'lookup', 'restart', 'announce')
ing('ingest-remove', INVM + ' Forgotten @RemoveOnly',
    [('cover', 1500, dict(MaxSteps=5, EmitMod=5)), ('sim', 600, dict(Sample=4, MaxAds=5, MaxSteps=18, Labels=q('x', 'y'), MaxEnts=2, Resyncs='{TRUE,FALSE}'))],
    [('cover', 60000, dict()), ('sim', 20000, dict(Sample=4, Pubs=q('p', 'q', 'r'), Provs=q('p', 'q', 'r'), Ctxs=q('c', 'd'), MaxAds=6, MaxSteps=26, Labels=q('x', 'y'), MaxEnts=2, Resyncs='{TRUE,FALSE}'))],
    Pubs=q('p', 'q'), Provs=q('p', 'q'), Ctxs=q('c'), MaxAds=2, MaxSteps=6, AdKinds=q('put', 'rm'), SelfOnly='FALSE', Ops=REMOPS)
AGEOPS = q('publish', 'sync', 'remove', 'lookup', 'restart', 'announce', 'wait', 'headdown', 'fault', 'idxdown')
AGE = dict(Sample=4, Pubs=q('p', 'q'), Provs=q('p', 'q'), SelfOnly='FALSE', Labels=q('x', 'y'), AdKinds=q('put', 'rm', 'meta'), Faults=q('ad404', 'ent404'), Ops=AGEOPS)
ing('ingest-age', INVM + ' Forgotten @RemoveOnly',
    [('cover', 600, dict(MaxSteps=13, EmitMod=2)), ('sim', 200, dict(AGE, MaxAds=4, MaxSteps=40))],
    [('cover', 20000, dict(MaxSteps=16, MaxAds=3)), ('sim', 5000, dict(AGE, MaxAds=6, MaxSteps=70))],
    Ctxs=q('c'), MaxAds=2, AdKinds=q('put'), Ops=q('publish', 'sync', 'lookup', 'wait', 'headdown', 'restart'))
S['ingest-age']['clock'] = True
S['ingest-age']['cfg'].update(Interval=4, Retry=2, Stop=12, OPeer='q', OInterval=8, ORetry=4, OStop=6)

# ---------------------------------------------------------------- entries
ENT = dict(Pubs=q('p'), Ctxs=q('c'), Labels=q('x', 'y'), Encs=q('chunk', 'hamt'), MaxChunks=2, MaxAds=2, MaxSteps=3, Limit=0,
           Ops=q('publish', 'sync', 'share', 'leftover'), Sample=0, EmitMod=1)
for lim, mc in ((0, 3), (1, 3), (2, 4)):
    suite('entries-%d' % lim, 'Entries', ENT, 'Exact',
          [('cover', 900, dict(EmitMod=5)), ('sim', 500, dict(Sample=6, Pubs=q('p', 'q'), Ctxs=q('c', 'd'), Labels=q('x', 'y', 'z'), MaxChunks=4, MaxAds=4, MaxSteps=14,
             Ops=q('publish', 'sync', 'share', 'both', 'leftover', 'restart', 'batch')))],
          [('cover', 40000, dict(MaxChunks=mc)), ('sim', 8000, dict(Sample=6, Pubs=q('p', 'q'), Ctxs=q('c', 'd'), Labels=q('x', 'y', 'z'), MaxChunks=4, MaxAds=6, MaxSteps=20,
             Ops=q('publish', 'sync', 'share', 'both', 'leftover', 'restart', 'batch')))],
          cfg=dict(Limit=lim), Limit=lim)

# ---------------------------------------------------------------- registry

REG = dict(Peers=q('p', 'q'), Addrs=q('a', 'b'), AdIds=q('x'), MaxSteps=5, Ops='{}', AllowDefs='{TRUE,FALSE}', PubDefs='{TRUE,FALSE}',
           Allow0='TRUE', AllowExc0='{}', Pub0='TRUE', PubExc0='{}', Interval=4, Retry=2, Stop=12,
           OPeer='"q"', OInterval=8, ORetry=4, OStop=6, Period=2, DiscAddrs=q('s1'), Rewait=3, Sample=0, EmitMod=1)
RINV = 'Durable HiddenKept DiscOK'
ALLREG = q('register', 'regpub', 'update', 'bad', 'remove', 'restart', 'allow', 'policy', 'dsdown', 'saw', 'wait', 'discover', 'import')
P3 = dict(Peers=q('p', 'q', 'r'), AdIds=q('x', 'y'), DiscAddrs=q('s1', 's2'), Sample=12)


def lab(x):
    return re.findall(r'"(\w+)"', x)


def regs(name, quick, thorough, module='Registry', base=REG, inv=RINV, pre='', unit=1, **consts):
    suite(name, module, base, inv, quick, thorough, clock=True, pre=pre, **consts)
    c = S[name]['consts']
    S[name]['cfg'] = dict(Allow0=c['Allow0'] == 'TRUE', Pub0=c['Pub0'] == 'TRUE', AllowExc0=lab(c['AllowExc0']), PubExc0=lab(c['PubExc0']),
                          OPeer=lab(c['OPeer'])[0], Unit=unit, **{k: c[k] for k in ('Interval', 'Retry', 'Stop', 'OInterval', 'ORetry', 'OStop', 'Rewait')})


SIMREG = ('sim', 1500, dict(P3, MaxSteps=25, Ops=ALLREG))
regs('reg-store', [('cover', 3000, dict(MaxSteps=4, EmitMod=60)), ('sim', 1500, dict(P3, MaxSteps=25, Ops=q('register', 'regpub', 'update', 'bad', 'remove', 'restart', 'allow', 'dsdown', 'saw', 'wait', 'discover')))],
     [('cover', 60000, dict()), ('sim', 30000, dict(P3, MaxSteps=40, Ops=ALLREG))],
     Ops=q('register', 'regpub', 'update', 'bad', 'remove', 'restart', 'allow', 'dsdown'))
regs('reg-policy', [('cover', 3000, dict(MaxSteps=3, EmitMod=15, AdIds='{}', Addrs=q('a'))), ('sim', 1500, dict(P3, MaxSteps=20, Ops=q('register', 'regpub', 'update', 'remove', 'restart', 'allow', 'policy', 'discover', 'import')))],
     [('cover', 60000, dict(AdIds='{}', Addrs=q('a'))), ('sim', 30000, dict(P3, MaxSteps=40, Ops=q('register', 'regpub', 'update', 'remove', 'restart', 'allow', 'policy', 'discover', 'import')))],
     MaxSteps=4, Ops=q('register', 'regpub', 'update', 'restart', 'allow', 'policy', 'discover', 'import'))
regs('reg-poll', [('cover', 3000, dict(MaxSteps=9, EmitMod=4)), ('sim', 1500, dict(P3, MaxSteps=45, Addrs=q('a', 'b'), Ops=q('update', 'saw', 'wait', 'remove', 'restart', 'register', 'import')))],
     [('cover', 60000, dict()), ('sim', 20000, dict(P3, MaxSteps=80, Addrs=q('a', 'b'), Ops=q('update', 'saw', 'wait', 'remove', 'restart', 'register', 'import', 'dsdown')))],
     MaxSteps=11, Addrs=q('a'), AdIds='{}', Ops=q('update', 'saw', 'wait'), Pub0='FALSE')
regs('reg-disc', [('cover', 2500, dict(EmitMod=4)), ('sim', 1500, dict(P3, MaxSteps=25, Ops=q('discover', 'wait', 'allow', 'register', 'update', 'remove', 'restart', 'dsdown')))],
     [('cover', 60000, dict(MaxSteps=7)), ('sim', 20000, dict(P3, MaxSteps=40, Ops=q('discover', 'wait', 'allow', 'register', 'update', 'remove', 'restart', 'dsdown')))],
     MaxSteps=6, AdIds='{}', Ops=q('discover', 'wait', 'allow', 'restart'))
regs('reg-import', [('cover', 2000, dict(EmitMod=2)), ('sim', 300, dict(P3, MaxSteps=40, Ops=q('import', 'update', 'wait'))), ('sim', 1000, dict(P3, MaxSteps=12, Ops=q('import', 'allow', 'policy', 'register', 'update', 'remove', 'restart', 'dsdown')))],
     [('cover', 30000, dict(MaxSteps=4)), ('sim', 5000, dict(P3, MaxSteps=60, Ops=q('import', 'update', 'wait', 'saw'))), ('sim', 10000, dict(P3, MaxSteps=20, Ops=q('import', 'allow', 'policy', 'register', 'update', 'remove', 'restart', 'dsdown')))],
     MaxSteps=3, AdIds='{}', Addrs=q('a'), Ops=q('import', 'allow', 'register', 'update', 'remove', 'restart'))

# ---------------------------------------------------------------- front ends
SVC = dict(REG, Peers=q('p', 'q'), Ctxs=q('c'), Labels=q('x', 'y'), Mds=q('bitswap', 'm'), MaxReq=2, Signers='{}', Defects='{}', Kinds='{}', Limit=4)
SINV = RINV + ' IdxMd @SeqGrow @Authed @Harmless'
DEFECTS = q('sig', 'payload', 'wrongtype', 'domain', 'codec', 'trunc', 'garbage', 'unsigned', 'longctx', 'longmd', 'badaddr')


def svc(name, quick, thorough, **consts):
    regs(name, quick, thorough, module='Service', base=SVC, inv=SINV, pre='S', **consts)


LOOKOPS = q('put', 'del', 'lookup', 'register', 'update', 'remove', 'restart', 'saw', 'wait', 'idxdown', 'malformed')
svc('svc-look', [('cover', 900, dict(EmitMod=4)), ('sim', 700, dict(P3, Sample=6, Ctxs=q('c', 'd'), Labels=q('x', 'y', 'z'), MaxReq=4, MaxSteps=25, Ops=LOOKOPS))],
    [('cover', 20000, dict(MaxSteps=7, Labels=q('x', 'y'))), ('sim', 12000, dict(P3, Sample=6, Ctxs=q('c', 'd'), Labels=q('x', 'y', 'z'), MaxReq=5, MaxSteps=40, Ops=LOOKOPS))],
    MaxSteps=6, AdIds='{}', Addrs=q('a', 'b'), Labels=q('x'), Ops=q('put', 'lookup', 'register', 'remove', 'restart', 'malformed'))
# inactive providers
svc('svc-hide', [('sim', 500, dict(MaxSteps=40))], [('sim', 8000, dict(MaxSteps=60))],
    Addrs=q('a', 'b'), AdIds=q('x'), Ctxs=q('c', 'd'), Sample=2, MaxReq=2, Ops=q('put', 'lookup', 'update', 'saw', 'wait'))
REQOPS = q('request', 'wait', 'allow', 'restart', 'discover', 'remove', 'lookup')
svc('svc-req', [('cover', 1500, dict(EmitMod=10)), ('sim', 900, dict(Sample=4, Peers=q('p', 'q'), Addrs=q('a', 'b'), Ctxs=q('c', 'd'), DiscAddrs=q('s1', 's2'), MaxSteps=30, Ops=REQOPS))],
    [('cover', 40000, dict(MaxSteps=3)), ('sim', 15000, dict(Sample=4, Peers=q('p', 'q', 'r'), Addrs=q('a', 'b'), Ctxs=q('c', 'd'), DiscAddrs=q('s1', 's2'), MaxSteps=50, Ops=REQOPS))],
    unit=720, MaxSteps=3, AdIds='{}', Peers=q('p'), Addrs=q('a'), Labels=q('x'), Mds=q('m'), OPeer='"p"', Signers=q('evil'), Defects=DEFECTS,
    Kinds=q('register', 'index', 'discover'), Ops=q('request', 'wait', 'discover', 'allow'))

# ---------------------------------------------------------------- bulk import
IMP = dict(Provs=q('p'), Ctxs=q('c'), Mds=q('m'), Labels=q('x', 'y'), Encs=q('v0', 'v1', 'pb', 'big'), Junk=q('bad', 'blank', 'long', 'other', 'many'), Bulks=q('B1'),
           MaxLines=2, MaxSteps=1, Formats=q('cidlist', 'manifest'), Ops=q('import', 'fault'), Sample=0, EmitMod=1)
suite('import-file', 'Import', IMP, '@Exact',
      [('cover', 900, {}), ('sim', 300, dict(Sample=2, Provs=q('p', 'q'), Ctxs=q('c', 'd'), Mds=q('m', 'n'), Labels=q('x', 'y', 'z'), Bulks=q('B1', 'B2'), MaxLines=9, MaxSteps=6))],
      [('cover', 40000, dict(MaxLines=3, Labels=q('x'))), ('sim', 6000, dict(Sample=2, Provs=q('p', 'q'), Ctxs=q('c', 'd'), Mds=q('m', 'n'), Labels=q('x', 'y', 'z'), Bulks=q('B1', 'B2'), MaxLines=15, MaxSteps=10))])

# ---------------------------------------------------------------- the configuration file
CZD = ('Addresses.Admin Addresses.Finder Addresses.Ingest Addresses.P2PAddr Datastore.Dir Datastore.Type Discovery.PollInterval Discovery.PollRetryAfter Discovery.PollStopAfter '
       'Discovery.Timeout Indexer.CacheSize Indexer.ConfigCheckInterval Indexer.GCInterval Indexer.ShutdownTimeout Indexer.ValueStoreDir Indexer.ValueStoreType '
       'Ingest.AdvertisementDepthLimit Ingest.EntriesDepthLimit Ingest.HttpSyncRetryMax Ingest.HttpSyncRetryWaitMax Ingest.HttpSyncRetryWaitMin Ingest.HttpSyncTimeout '
       'Ingest.IngestWorkerCount Ingest.PubSubTopic Ingest.StoreBatchSize Ingest.SyncSegmentDepthLimit Ingest.SyncTimeout').split()
CZV = ('Identity.PeerID Identity.PrivKey Addresses.NoResourceManager Bootstrap.Peers Bootstrap.MinimumPeers Discovery.LotusGateway Discovery.Policy.Allow Discovery.Policy.Except '
       'Discovery.Policy.Publish Discovery.Policy.PublishExcept Discovery.PollOverrides Discovery.RediscoverWait Ingest.RateLimit.Apply Ingest.RateLimit.Except '
       'Ingest.RateLimit.BlocksPerSecond Ingest.ResendDirectAnnounce Peering.Peers').split()
CFG = dict(ZD=q('zd1'), ZV=q('zv1'), Custom=q('c1'), Bad='{}', Ops=q('write', 'load', 'save', 'upgrade'), MaxSteps=2, Wild='FALSE', EmitMod=1)
CWILD = dict(ZD=q(*CZD), ZV=q(*CZV), Custom=q('c1', 'c2'), Wild='TRUE', Bad=q('missing', 'dir', 'empty', 'cut', 'type'),
             Ops=q('write', 'edit', 'spoil', 'load', 'set', 'save', 'upgrade', 'init'))
suite('config-file', 'Config', CFG, 'RoundTrip @Keeps',
      [('cover', 3000, dict(EmitMod=4)), ('cover', 1500, dict(MaxSteps=4, ZD=q('zd1'), ZV='{}', EmitMod=20, Bad=q('missing', 'dir', 'empty', 'cut', 'type'), Ops=q('edit', 'spoil', 'load', 'set', 'save', 'upgrade', 'init'))),
       ('sim', 400, dict(CWILD, MaxSteps=20))],
      [('cover', 60000, dict(ZD=q('zd1'), Custom=q('c1'))), ('cover', 40000, dict(MaxSteps=6, ZD=q('zd1'), ZV='{}', EmitMod=20, Bad=q('missing', 'dir', 'empty', 'cut', 'type'), Ops=q('edit', 'spoil', 'load', 'set', 'save', 'upgrade', 'init'))),
       ('sim', 8000, dict(CWILD, MaxSteps=40))])
S['config-file']['daemon'] = True

# ---------------------------------------------------------------- the daemon
DMN = dict(Peers=q('p', 'q'), Labels=q('x', 'y', 'z'), Bads=q('cut', 'policy', 'publish', 'level', 'logger', 'loglevel', 'dstype', 'interval', 'rate', 'ratenum', 'workers', 'peer'), P2PBads=q('rate', 'ratenum', 'workers', 'peer'), Mild=q('rate', 'ratenum'),
           Vias=q('admin', 'hup', 'both', 'cli'), FreeServers='TRUE', Ops=q('edit', 'start', 'stop', 'kill', 'reload', 'admit', 'import', 'fetch', 'publish', 'pull'), MaxAds=5, MaxSteps=12, EmitMod=0)
DINV = 'KnownOK AdsOK @AllOrNothing @Lasting'
suite('daemon-life', 'Daemon', DMN, DINV, [('sim', 60, {})], [('sim', 1000, dict(MaxSteps=25))])
suite('daemon-reload', 'Daemon', DMN, DINV, [('sim', 60, {})], [('sim', 1000, dict(MaxSteps=25))], FreeServers='FALSE', Ops=q('edit', 'start', 'reload', 'admit'))
suite('daemon-crash', 'Daemon', DMN, DINV, [('sim', 60, {})], [('sim', 1000, dict(MaxSteps=25))], FreeServers='FALSE', Bads='{}', Ops=q('start', 'stop', 'kill', 'import', 'publish', 'pull'), MaxAds=12, MaxSteps=14)
for n in ('daemon-life', 'daemon-reload', 'daemon-crash'):
    S[n]['daemon'] = True

# ---------------------------------------------------------------- clients
CLI = dict(Clients=q('a', 'b'), P2P=q('a', 'b'), Slow=q('find', 'batch'), Quick=q('miss', 'prov', 'noprov', 'list', 'stats'), MaxCalls=5, MaxSteps=5,
           Ops=q('start', 'cancel', 'shut', 'open', 'drop'), Sample=0, EmitMod=1)


def cli(name, p2p, quick, thorough, clock=False, **c):
    suite(name, 'Client', CLI, 'Served @Stable @Blame', quick, thorough, cfg=dict(P2P=list(p2p), Clock=clock), clock=clock, P2P=q(*p2p), **c)


CSIM = dict(Sample=1, MaxCalls=24, MaxSteps=16, Ops=q('start', 'burst', 'cancel', 'shut', 'open', 'drop'))
for n, p2p in (('client-p2p', 'ab'), ('client-http', ''), ('client-both', 'a')):
    cli(n, p2p, [('cover', 250, dict(Quick=q('prov'), Slow=q('find'), EmitMod=4)), ('sim', 200, CSIM)],
        [('cover', 30000, dict(Quick=q('prov'), Slow=q('find'), MaxSteps=7, EmitMod=2)), ('sim', 6000, dict(CSIM, MaxSteps=30, MaxCalls=40))])
cli('client-time', 'ab', [('cover', 120, dict(Quick=q('prov'), Slow=q('find'), EmitMod=4)), ('sim', 120, dict(Sample=1, MaxCalls=16, MaxSteps=14))],
    [('cover', 6000, dict(Quick=q('prov'), Slow=q('find'), MaxSteps=6)), ('sim', 3000, dict(Sample=1, MaxCalls=24, MaxSteps=24))], clock=True,
    Ops=q('start', 'cancel', 'shut', 'open', 'wait'))

# ---------------------------------------------------------------- rate limits
RATE = dict(Pubs=q('p', 'q'), Rates='{0,1,2,4}', Bursts='{1,2,3}', Bads=q('rate', 'burst', 'peer'), MaxChunks=3, MaxAds=3, MaxSteps=6, Sample=0, EmitMod=1,
            Ops=q('publish', 'sync', 'announce', 'set', 'tick', 'restart'))
suite('rate-limit', 'RateLimit', RATE, 'Bound Free @Whole @Refused',
      [('cover', 1200, dict(Pubs=q('p'), Rates='{0,2}', Bursts='{1,2}', MaxChunks=2, MaxAds=2, MaxSteps=8, EmitMod=20)), ('sim', 500, dict(Sample=2, MaxChunks=4, MaxAds=6, MaxSteps=30))],
      [('cover', 20000, dict(Pubs=q('p'), Rates='{0,2}', Bursts='{1,2}', MaxChunks=2, MaxAds=2, MaxSteps=10, EmitMod=20)), ('sim', 8000, dict(Sample=2, MaxChunks=5, MaxAds=9, MaxSteps=50))], clock=True)

# ---------------------------------------------------------------- overlapping operations
CONC = dict(Pubs=q('p', 'q'), Provs=q('p', 'q'), Mode='"own"', Ctxs=q('c', 'd'), Kinds=q('put', 'meta', 'rm'), MaxAds=6, MaxSteps=24, MaxSyncs=4,
            Ops='{}', Sample=4, EmitMod=0)
COPS = ('publish', 'sync', 'announce', 'burst', 'hold')


def conc(name, mode, nq, nt, ops, **c):
    suite(name, 'IngestConc', CONC, 'Bounds', [('sim', nq, {})], [('sim', nt, dict(MaxSteps=40, MaxAds=9))],
          cfg=dict(Mode=mode), Mode='"%s"' % mode, Ops=q(*(COPS + ops)), **c)


conc('conc-own', 'own', 1500, 15000, ('cancel', 'workers'))
conc('conc-one', 'one', 1500, 15000, ('cancel', 'workers'))
conc('conc-multi', 'multi', 1000, 10000, ('workers',))
conc('conc-fault', 'own', 1200, 10000, ('cancel', 'workers', 'fault', 'close'))

# concurrent registry operations
RC = dict(Peers=q('p', 'q'), Addrs=q('a', 'b'), AdIds=q('x', 'y'), DiscAddrs=q('s1'), Threads='{1,2,3,4}', PerRound=2, MaxSteps=24, Ops='{}', Sample=2, EmitMod=0)


def rconc(name, nq, nt, ops, **c):
    suite(name, 'RegistryConc', RC, 'Bounds', [('sim', nq, {})], [('sim', nt, dict(MaxSteps=40))], Ops=q(*ops), **c)


rconc('rconc-upd', 1500, 20000, ('update', 'register', 'remove', 'info', 'saw'), Peers=q('p'), PerRound=3)
rconc('rconc-all', 1500, 20000, ('update', 'register', 'remove', 'info', 'saw', 'allow', 'policy', 'discover'))

# what judges the executions recorded from a module's scenarios
JUDGE = {'IngestConc': 'IngestTrace', 'RegistryConc': 'RegistryTrace'}
JUDGES = {
    'IngestTrace': dict(module='IngestTrace'),
    'RegistryTrace': dict(module='RegistryTrace', spec='JSpec', search=True,
                          consts=dict(REG, Peers=q('p', 'q'), AdIds=q('x', 'y'), Rewait=0)),
}

P = {
    'C01': ['ingest-core', 'ingest-multi', 'ingest-p2p'],
    'C02': ['ingest-crash'],
    'C03': ['ingest-fault', 'ingest-p2pfault'],
    'C04': ['ingest-authF', 'ingest-authT', 'ingest-authFp', 'ingest-authTe', 'ingest-p2pauth'],
    'C05': ['ingest-fault'],
    'C06': ['svc-req'],
    'C07': ['reg-policy', 'reg-import', 'ingest-gossip'],
    'C08': ['reg-store'],
    'C09': ['rconc-upd', 'rconc-all'],
    'C10': ['reg-poll', 'ingest-age'],
    'C11': ['svc-look', 'svc-hide'],
    'C12': ['svc-look', 'svc-hide'],
    'C13': ['conc-own', 'conc-fault', 'conc-one', 'conc-multi', 'ingest-core'],
    'C14': ['conc-own', 'conc-one', 'ingest-multi', 'ingest-gossip', 'ingest-p2p'],
    'C15': ['conc-own', 'conc-one', 'conc-multi', 'conc-fault'],
    'C16': ['entries-0', 'entries-1', 'entries-2'],
    'C17': ['ingest-remove', 'ingest-age', 'svc-look'],
    'C18': ['config-file', 'daemon-reload'],
    'C19': ['reg-disc'],
    'C20': ['import-file', 'reg-import'],
    'C22': ['client-p2p', 'client-http', 'client-both', 'client-time'],
    'C23': ['rate-limit'],
    'C21': ['daemon-life', 'daemon-reload', 'daemon-crash'],
}

_J = ('TLA+ specification checked with TLC; TLC-generated schedules run against the real code, and the executions recorded from it '
      'judged by TLC against the specification (is there a behaviour of the specification that explains the recording?)')
_D = ('TLA+ specification checked with TLC; TLC-generated behaviours replayed into the real storetheindex process (started, signalled, killed '
      'and asked over its real addresses) with the abstract state compared after every step')
_C = ('TLA+ specification with explicit time checked with TLC; TLC-generated behaviours replayed into the real code under a virtual clock '
      '(the time package of the packages under test is substituted at build time) with the abstract state compared after every step')
TECH = {'C09': _J, 'C13': _J, 'C14': _J, 'C15': _J, 'C21': _D, 'C18': _D, 'C10': _C, 'C22': _C, 'C23': _C}
NOTE = {}
NA = {}
DEFAULT_NOTE = ('The specification is model-checked exhaustively within the bounds in the evidence file; every transition within them '
                '(a seeded sample in quick) and seeded random behaviours beyond them are replayed into the real code. Verdicts come only from the '
                'real code diverging from the specification, confirmed by re-execution. Trusted: the abstraction function of the harness.')
