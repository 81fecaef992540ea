------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* Sequential specification of advertisement ingestion: publishers publish *)
(* chains of advertisements; the indexer syncs, processes and forgets.     *)
(* Every operation of the indexer is one (macro) step whose effect is a    *)
(* total function of the state; IngestConc.tla has the interleaved steps   *)
(* inside an operation and IngestTrace.tla judges recorded executions      *)
(* write by write.                                                         *)
(*                                                                         *)
(* s is the abstract state, hist the history that is replayed into the     *)
(* implementation: every entry has the operation, its arguments, the       *)
(* expected result and the expected projection of the state.               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions, Randomization

CONSTANTS Pubs,      \* publishers (also identities that may be providers)
          Provs,     \* providers
          Ctxs,      \* context IDs
          Labels,    \* content labels; each stands for several multihashes
          MaxAds,    \* chain length bound, per publisher
          MaxSteps,  \* bound on the number of operations
          AdKinds,   \* subset of {"put","meta","rm"}
          EntKinds,  \* subset of {"ok","bad1","bad2"}
          Auths,     \* subset of {"prov","pub","evil","t_prev",...}
          Faults,    \* subset of {"ad404","adsub","ent404","entsub","ent404b"}
          Depths,    \* depth arguments of explicit syncs
          Resyncs,   \* subset of BOOLEAN
          Ops,       \* subset of the operation names below
          SelfOnly,  \* TRUE: a publisher only publishes for itself
          Allow0,    \* initial allow default (policy)
          Publish0,  \* initial publish default (policy)
          PubExc,    \* peers for which the publish default is inverted
          Sample,    \* 0, or how many advertisements to choose from at a step (simulation)
          Points,    \* where in a sync a crash may happen (interpreted by the harness)
          EmitMod,   \* print one in so many transitions
          Interval, Retry, Stop,               \* polling: when it starts, its retries, when it gives up
          OPeer, OInterval, ORetry, OStop,     \* the same, overridden for one provider
          Period,    \* how often the registry looks
          P2P,       \* the publishers serve their chains over graphsync, not HTTP
          MaxEnts    \* at most this many labels in an advertisement

VARIABLES s, hist

vars == <<s, hist>>
Idents == Pubs \union Provs
None == "none"

MdOf(pub, i) == pub \o "#" \o ToString(i)

(* Label order: the first label of an advertisement is in its first chunk. *)
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE
              LET m == CHOOSE x \in S : TRUE IN <<m>> \o Ordered(S \ {m})
LabelSeq == Ordered(Labels)
Rank(l) == CHOOSE k \in 1..Len(LabelSeq) : LabelSeq[k] = l
FirstLabel(ents) == CHOOSE l \in ents : \A m \in ents : Rank(l) <= Rank(m)

Zero == 99
MaxAge == 60
NoReg == [reg |-> FALSE, addr |-> None, pub |-> None, ad |-> None]

\* What a failed attempt may have left in the index: multihashes of the labels ls and the
\* metadata md.  How much of it is visible is not determined.
NoFlux == [ls |-> {}, md |-> None]

\* After a crash during a sync the durable state is one of alts.
NoCrash == [n |-> 0, alts |-> {}, pub |-> None, resync |-> FALSE, depth |-> 0]
Init0 == [ chain     |-> [p \in Pubs |-> <<>>],
           flt       |-> [p \in Pubs |-> <<>>],
           local     |-> [p \in Pubs |-> {}],
           processed |-> [p \in Pubs |-> {}],
           latest    |-> [p \in Pubs |-> 0],
           idx       |-> {},
           md        |-> [x \in Provs \X Ctxs |-> None],
           flux      |-> [x \in Provs \X Ctxs |-> NoFlux],
           reg       |-> [p \in Provs |-> NoReg],
           stored    |-> [p \in Provs |-> NoReg],
           allowed   |-> [p \in Idents |-> Allow0],
           idxdown   |-> FALSE,
           regdown   |-> FALSE,                    \* the datastore refuses provider records
           headdown  |-> {},
           age       |-> [p \in Provs |-> Zero],   \* time since the last contact; Zero: none since the start
           act       |-> [p \in Provs |-> TRUE],   \* not hidden
           phase     |-> 0,                        \* time since the registry looked
           lag       |-> {},      \* publishers whose recorded progress may lag behind after a crash
           crash     |-> NoCrash ]

MayPublish(p) == Publish0 # (p \in PubExc)
PublishAllowed(st, pub, prov) == pub = prov \/ MayPublish(pub)

(***************************************************************************)
(* Index effects                                                           *)
(***************************************************************************)
PutLabels(st, prov, ctx, ls, m) ==
   [st EXCEPT !.idx = @ \union {<<l, prov, ctx>> : l \in ls},
              !.md = [@ EXCEPT ![<<prov, ctx>>] = m],
              !.flux = [@ EXCEPT ![<<prov, ctx>>] =
                          LET r == @.ls \ ls IN IF r = {} THEN NoFlux ELSE [ls |-> r, md |-> m]]]
\* an attempt that may have written some of ls
TryLabels(st, prov, ctx, ls, m) ==
   [st EXCEPT !.flux = [@ EXCEPT ![<<prov, ctx>>] = [ls |-> @.ls \union ls, md |-> m]]]

\* effect of fully ingesting advertisement a, whose metadata is m
ApplyAd(st, a, m) ==
   CASE a.kind = "put" ->
          (CASE a.ek = "ok"   -> PutLabels(st, a.prov, a.ctx, a.ents, m)
             [] a.ek = "bad1" -> st
             [] a.ek = "bad2" -> TryLabels(st, a.prov, a.ctx, {FirstLabel(a.ents)}, m))
     [] a.kind = "meta" ->
          [st EXCEPT !.md = [@ EXCEPT ![<<a.prov, a.ctx>>] = IF @ # None THEN m ELSE @],
                     !.flux = [@ EXCEPT ![<<a.prov, a.ctx>>] = IF @ = NoFlux THEN @ ELSE [ls |-> @.ls, md |-> m]]]
     [] a.kind = "rm" ->
          [st EXCEPT !.idx = {e \in @ : ~(e[2] = a.prov /\ e[3] = a.ctx)},
                     !.md = [@ EXCEPT ![<<a.prov, a.ctx>>] = None],
                     !.flux = [@ EXCEPT ![<<a.prov, a.ctx>>] = NoFlux]]

\* the content obtained by applying a whole chain in order
RECURSIVE Fold(_, _, _, _)
Fold(st, pub, ch, i) ==
   IF i > Len(ch) THEN st ELSE Fold(ApplyAd(st, ch[i], MdOf(pub, i)), pub, ch, i + 1)
FoldChain(pub, ch) ==
   Fold([idx |-> {}, md |-> [x \in Provs \X Ctxs |-> None], flux |-> [x \in Provs \X Ctxs |-> NoFlux]], pub, ch, 1)

(***************************************************************************)
(* Processing                                                              *)
(***************************************************************************)
\* Registration performed when an advertisement of prov published by pub is
\* ingested.  Policy is consulted for a new provider or a new publisher.
RegOK(st, pub, prov) ==
   \/ st.reg[prov].reg /\ st.reg[prov].pub = pub
   \/ /\ st.allowed[prov]
      /\ pub = prov \/ (st.allowed[pub] /\ PublishAllowed(st, pub, prov))
DoReg(st, pub, i, a) ==
   LET r == [reg |-> TRUE, addr |-> MdOf(pub, i), pub |-> pub, ad |-> MdOf(pub, i)]
   IN [st EXCEPT !.reg[a.prov] = r, !.stored[a.prov] = r, !.age[a.prov] = 0, !.act[a.prov] = TRUE]

\* transient entries faults of a put advertisement
EntFault(st, pub, i) == st.chain[pub][i].kind = "put" /\
                        st.flt[pub][i] \in {"ent404", "entsub"}
EntFault2(st, pub, i) == /\ st.chain[pub][i].kind = "put"
                         /\ Cardinality(st.chain[pub][i].ents) > 1
                         /\ st.chain[pub][i].ek # "bad1"
                         /\ st.flt[pub][i] = "ent404b"

Mark(st, pub, i) == [st EXCEPT !.processed[pub] = @ \union {i},
                               !.local[pub] = @ \ {i},
                               !.lag = @ \ {pub},
                               !.latest[pub] = i]

\* result of trying advertisement i: [st, ok]
TryAd(st, pub, i) ==
   LET a == st.chain[pub][i]
       m == MdOf(pub, i)
   IN IF ~RegOK(st, pub, a.prov) \/ st.regdown THEN [st |-> st, ok |-> FALSE]
      ELSE LET st1 == DoReg(st, pub, i, a) IN
      IF EntFault(st, pub, i) THEN [st |-> st1, ok |-> FALSE]
      ELSE IF st.idxdown /\ ~(a.kind = "put" /\ a.ek = "bad1")
           THEN [st |-> st1, ok |-> FALSE]
      ELSE IF EntFault2(st, pub, i)
           THEN [st |-> TryLabels(st1, a.prov, a.ctx, a.ents, m), ok |-> FALSE]
      ELSE [st |-> Mark(ApplyAd(st1, a, m), pub, i), ok |-> TRUE]

\* process the advertisements of one provider, oldest first; todo is ascending
RECURSIVE Work(_, _, _, _)
Work(st, pub, todo, k) ==
   IF k > Len(todo) THEN st
   ELSE LET i == todo[k]
            a == st.chain[pub][i]
            skip == \E j \in (k+1)..Len(todo) :
                       /\ st.chain[pub][todo[j]].kind = "rm"
                       /\ st.chain[pub][todo[j]].ctx = a.ctx
        IN IF skip THEN Work(Mark(st, pub, i), pub, todo, k + 1)
           ELSE LET r == TryAd(st, pub, i)
                IN IF r.ok THEN Work(r.st, pub, todo, k + 1) ELSE r.st

Ascending(S) == SetToSortSeq(S, LAMBDA x, y : x < y)

RECURSIVE WorkAll(_, _, _, _)
WorkAll(st, pub, todo, provs) ==
   IF provs = {} THEN st
   ELSE LET p == CHOOSE x \in provs : TRUE
            mine == {i \in todo : st.chain[pub][i].prov = p}
        IN WorkAll(Work(st, pub, Ascending(mine), 1), pub, todo, provs \ {p})

MultiProv(st, pub) == \E i, j \in 1..Len(st.chain[pub]) :
                         st.chain[pub][i].prov # st.chain[pub][j].prov

AuthOK(st, pub, a) ==
   \/ a.auth = "prov"
   \/ a.auth = "pub" /\ PublishAllowed(st, pub, a.prov)
   \/ a.auth = "evil" /\ MayPublish("evil")

\* Sync the chain of pub up to advertisement upto: result [st, res]
SyncTo(st, pub, upto, depth, resync) ==
   LET ch   == st.chain[pub]
       stop == IF resync THEN 0 ELSE st.latest[pub]
   IN
   IF stop = upto /\ ~resync THEN [st |-> st, res |-> MdOf(pub, upto), walk |-> {}]
   ELSE
   LET lo0  == IF stop < upto THEN stop + 1 ELSE 1
       lo   == IF depth > 0 /\ upto - depth + 1 > lo0 THEN upto - depth + 1 ELSE lo0
       rng  == lo..upto
       unav == {i \in rng : /\ i \notin st.local[pub]
                            /\ (st.flt[pub][i] \in {"ad404", "adsub"} \/ ~AuthOK(st, pub, ch[i]))}
   IN
   IF unav # {}
   THEN LET j == Max(unav) IN
        [st |-> [st EXCEPT !.local[pub] = @ \union ((j+1)..upto)], res |-> None, walk |-> {}]
   ELSE
   LET done == IF resync THEN {} ELSE rng \cap st.processed[pub]
       todo == IF done = {} THEN rng ELSE {i \in rng : i > Max(done)}
       st1  == [st EXCEPT !.local[pub] = @ \union rng,
                          !.processed[pub] = IF resync THEN @ \ rng ELSE @]
       st2  == WorkAll(st1, pub, todo, {ch[i].prov : i \in todo})
       \* with several providers the last writer of the progress is not
       \* determined; the canonical choice is the newest
       new  == st2.processed[pub] \cap todo
       st3  == IF new # {} /\ MultiProv(st, pub)
               THEN [st2 EXCEPT !.latest[pub] = Max(new)] ELSE st2
   IN [st |-> st3, res |-> MdOf(pub, upto), walk |-> IF MultiProv(st, pub) THEN {} ELSE {MdOf(pub, i) : i \in rng \ st.local[pub]}]

Sync(st, pub, depth, resync) ==
   IF pub \in st.headdown THEN [st |-> st, res |-> None, walk |-> {}]
   ELSE SyncTo(st, pub, Len(st.chain[pub]), depth, resync)

\* an announcement of advertisement i
Announce(st, pub, i) ==
   IF ~st.allowed[pub] THEN [st |-> st, res |-> "refused"]
   ELSE [st |-> SyncTo(st, pub, i, 0, FALSE).st, res |-> "ok"]

Restart(st) ==
   [st EXCEPT !.reg = [p \in Provs |-> IF st.allowed[p] THEN st.stored[p] ELSE NoReg],
              !.age = [p \in Provs |-> Zero], !.act = [p \in Provs |-> TRUE], !.phase = 0]

(***************************************************************************)
(* Crashes: the durable states that an interrupted sync may leave behind    *)
(***************************************************************************)
\* while advertisement i is being ingested
Mid(st, pub, i) ==
   LET a == st.chain[pub][i]
       m == MdOf(pub, i)
       st1 == DoReg(st, pub, i, a)
   IN IF ~RegOK(st, pub, a.prov) THEN {st}
      ELSE {st, st1, [ApplyAd(st1, a, m) EXCEPT !.processed[pub] = @ \union {i}]}
           \union (IF a.kind = "put" THEN {TryLabels(st1, a.prov, a.ctx, a.ents, m)} ELSE {ApplyAd(st1, a, m)})
RECURSIVE CrashWork(_, _, _, _)
CrashWork(st, pub, todo, k) ==
   IF k > Len(todo) THEN {st}
   ELSE LET i == todo[k]
            a == st.chain[pub][i]
            skip == \E j \in (k+1)..Len(todo) :
                       /\ st.chain[pub][todo[j]].kind = "rm"
                       /\ st.chain[pub][todo[j]].ctx = a.ctx
        IN IF skip
           THEN {st, [st EXCEPT !.processed[pub] = @ \union {i}]} \union CrashWork(Mark(st, pub, i), pub, todo, k + 1)
           ELSE LET r == TryAd(st, pub, i)
                IN Mid(st, pub, i) \union (IF r.ok THEN CrashWork(r.st, pub, todo, k + 1) ELSE {r.st})
\* what is fetched but not processed has no effect later: without faults it is not tracked
Forget(st) == [st EXCEPT !.local = [p \in Pubs |-> {}]]
CrashStates(st, pub, depth, resync) ==
   LET upto == Len(st.chain[pub])
       stop == IF resync THEN 0 ELSE st.latest[pub]
       lo0  == IF stop < upto THEN stop + 1 ELSE 1
       lo   == IF depth > 0 /\ upto - depth + 1 > lo0 THEN upto - depth + 1 ELSE lo0
       rng  == lo..upto
       done == IF resync THEN {} ELSE rng \cap st.processed[pub]
       todo == IF done = {} THEN rng ELSE {i \in rng : i > Max(done)}
       \* a re-sync first records, newest first, that nothing is processed
       unm  == IF resync THEN {[st EXCEPT !.processed[pub] = @ \ (j..upto)] : j \in lo..(upto + 1)} ELSE {st}
       st1  == [st EXCEPT !.processed[pub] = IF resync THEN @ \ rng ELSE @]
       all  == IF stop = upto /\ ~resync THEN {st}
               ELSE unm \union CrashWork(st1, pub, Ascending(todo), 1)
   IN {Forget(Restart(x)) : x \in all}

RemoveProvider(st, p) ==
   LET pub == st.reg[p].pub
   IN [st EXCEPT !.reg[p] = NoReg, !.stored[p] = NoReg, !.age[p] = Zero, !.act[p] = TRUE,
                 !.latest = IF st.reg[p].reg /\ pub \in Pubs THEN [@ EXCEPT ![pub] = 0] ELSE @,
                 !.lag = IF st.reg[p].reg THEN @ \ {pub} ELSE @]

(***************************************************************************)
(* Polling: the registry looks every Period which providers were not heard  *)
(* of, and has the ingester sync with their publishers or forget them       *)
(***************************************************************************)
IntervalOf(p) == IF p = OPeer THEN OInterval ELSE Interval
RetryOf(p) == IF p = OPeer THEN ORetry ELSE Retry
StopOf(p) == IF p = OPeer THEN OStop ELSE Stop
Due(st) == {p \in Provs : st.reg[p].reg /\ st.age[p] # Zero /\ st.age[p] >= IntervalOf(p)}
PollOne(st, p) ==
   LET since == st.age[p] - IntervalOf(p)
       st1 == [st EXCEPT !.act[p] = IF since >= 2 * RetryOf(p) THEN FALSE ELSE @]
       x == Sync(st1, st.reg[p].pub, 0, FALSE)
   IN IF since >= StopOf(p) THEN RemoveProvider(st, p)
      ELSE IF x.res = None THEN x.st
      ELSE [x.st EXCEPT !.age[p] = 0, !.act[p] = TRUE]
Elapse(st, d) ==
   LET st1 == [st EXCEPT !.age = [p \in Provs |-> IF @[p] = Zero THEN Zero ELSE IF @[p] + d > MaxAge THEN MaxAge ELSE @[p] + d],
                         !.phase = (@ + d) % Period]
       due == Due(st1)
       st2 == [st1 EXCEPT !.age = [p \in Provs |-> IF st1.reg[p].reg /\ @[p] = Zero THEN IntervalOf(p) ELSE @[p]]]
   IN IF st.phase + d < Period THEN [st |-> st1, due |-> {}]
      ELSE IF due = {} THEN [st |-> st2, due |-> {}]
      ELSE [st |-> PollOne(st2, CHOOSE p \in due : TRUE), due |-> due]

(***************************************************************************)
(* Lookups: content of registered providers that are not hidden; content   *)
(* of providers that are not registered is cleaned out                     *)
(***************************************************************************)
Visible(st, p) == st.reg[p].reg /\ st.act[p]
Answer(st, q) == {<<e[1], e[2], e[3], st.md[<<e[2], e[3]>>]>> : e \in {f \in st.idx : f[1] \in q /\ Visible(st, f[2])}}
Clean(st, q) ==
   LET gone == {<<e[2], e[3]>> : e \in {f \in st.idx : f[1] \in q /\ ~st.reg[f[2]].reg}}
   IN IF st.idxdown THEN st ELSE
      [st EXCEPT !.idx = {e \in @ : <<e[2], e[3]>> \notin gone},
                 !.md = [x \in Provs \X Ctxs |-> IF x \in gone THEN None ELSE @[x]]]

(***************************************************************************)
(* Projection compared with the implementation                             *)
(***************************************************************************)
Show(st) ==
   [ idx    |-> {<<e[1], e[2], e[3], st.md[<<e[2], e[3]>>]>> : e \in st.idx},
     flux   |-> {<<x[1], x[2], st.flux[x].md, st.flux[x].ls>> : x \in {y \in Provs \X Ctxs : st.flux[y] # NoFlux}},
     latest |-> [p \in Pubs |-> IF st.latest[p] = 0 THEN None ELSE MdOf(p, st.latest[p])],
     reg    |-> [p \in Provs |-> st.reg[p]],
     hid    |-> {p \in Provs : ~st.act[p]},
     lag    |-> st.lag,
     multi  |-> [p \in Pubs |-> MultiProv(st, p)],
     done   |-> [p \in Pubs |-> {MdOf(p, i) : i \in st.processed[p]}] ]

Step(st, rec) ==
   /\ s' = st
   /\ hist' = Append(hist, rec @@ [exp |-> Show(st)])
Live == s.crash.alts = {}

NFaulty(st) == Cardinality({<<p, i>> \in Pubs \X (1..MaxAds) :
                              i <= Len(st.flt[p]) /\ st.flt[p][i] # "ok"})

(***************************************************************************)
(* Next                                                                    *)
(***************************************************************************)
Ads(pub) ==
   {a \in [prov : IF SelfOnly THEN {pub} ELSE Provs, ctx : Ctxs, kind : AdKinds,
           ents : {E \in SUBSET Labels : Cardinality(E) <= MaxEnts}, ek : EntKinds, auth : Auths] :
      /\ (a.kind = "put") <=> (a.ents # {})
      /\ a.kind # "put" => a.ek = "ok"
      /\ a.ek = "bad2" => Cardinality(a.ents) > 1
      /\ a.auth = "pub" => a.prov # pub}

Choice(S) == IF Sample = 0 THEN S ELSE RandomSubset(Sample, S)
Publish == /\ "publish" \in Ops
           /\ \E pub \in Pubs : Len(s.chain[pub]) < MaxAds /\ \E a \in Choice(Ads(pub)) :
                Step([s EXCEPT !.chain[pub] = Append(@, a), !.flt[pub] = Append(@, "ok")],
                     [op |-> "publish", pub |-> pub, res |-> None,
                      ad |-> a @@ [ord |-> SelectSeq(LabelSeq, LAMBDA l : l \in a.ents)]])

\* Known finding F1: when a publisher's chain has several providers and an advertisement of
\* one fails while a later one of another is processed, the failed one is not retried.
\* Such steps are left out here; the finding has its own reproduction.
Lossy(st) == \E pub \in Pubs : \E i, j \in 1..Len(st.chain[pub]) :
                /\ i < j /\ st.chain[pub][i].prov # st.chain[pub][j].prov
                /\ i \notin st.processed[pub] /\ j \in st.processed[pub]

DoSync == /\ "sync" \in Ops
          /\ \E pub \in Pubs, d \in Depths, r \in Resyncs :
               /\ Len(s.chain[pub]) > 0
               /\ LET x == Sync(s, pub, d, r) IN
                  /\ ~Lossy(x.st)
                  /\ Step(x.st, [op |-> "sync", pub |-> pub, depth |-> d, resync |-> r, res |-> x.res, walk |-> TLCEval(x.walk)])

DoAnnounce == /\ "announce" \in Ops
              /\ \E pub \in Pubs : \E i \in 1..Len(s.chain[pub]) :
                   /\ i = Len(s.chain[pub]) \/ (i > s.latest[pub] /\ "annold" \in Ops)
                   /\ LET x == Announce(s, pub, i) IN
                      /\ ~Lossy(x.st)
                      /\ Step(x.st, [op |-> "announce", pub |-> pub, ad |-> MdOf(pub, i), res |-> x.res])

\* an announcement request that makes no sense
BadAnnounce == /\ "badann" \in Ops
               /\ \E pub \in Pubs : Len(s.chain[pub]) > 0 /\ Step(s, [op |-> "badann", pub |-> pub, res |-> "err"])

SetFault == /\ "fault" \in Ops
            /\ \E pub \in Pubs, f \in Faults : \E i \in 1..Len(s.chain[pub]) :
                 /\ s.flt[pub][i] = "ok" /\ NFaulty(s) = 0
                 /\ i \notin s.processed[pub] \/ "latefault" \in Ops
                 /\ f \in {"ent404", "entsub", "ent404b"} => s.chain[pub][i].kind = "put"
                 /\ (P2P /\ f = "ad404") => i \notin s.local[pub]
                 /\ f = "ent404b" => Cardinality(s.chain[pub][i].ents) > 1 /\ s.chain[pub][i].ek = "ok"
                 /\ Step([s EXCEPT !.flt[pub][i] = f],
                         [op |-> "fault", pub |-> pub, ad |-> MdOf(pub, i), f |-> f, res |-> None])

ClearFault == /\ "fault" \in Ops
              /\ \E pub \in Pubs : \E i \in 1..Len(s.chain[pub]) :
                 /\ s.flt[pub][i] # "ok"
                 /\ Step([s EXCEPT !.flt[pub][i] = "ok"],
                         [op |-> "fault", pub |-> pub, ad |-> MdOf(pub, i), f |-> "ok", res |-> None])

IdxDown == /\ "idxdown" \in Ops
           /\ Step([s EXCEPT !.idxdown = ~@], [op |-> "idxdown", on |-> ~s.idxdown, res |-> None])

RegDown == /\ "regdown" \in Ops
           /\ Step([s EXCEPT !.regdown = ~@], [op |-> "regdown", on |-> ~s.regdown, res |-> None])

HeadDown == /\ "headdown" \in Ops
            /\ \E pub \in Pubs :
               Step([s EXCEPT !.headdown = IF pub \in @ THEN @ \ {pub} ELSE @ \union {pub}],
                    [op |-> "headdown", pub |-> pub, on |-> pub \notin s.headdown, res |-> None])

DoRestart == /\ "restart" \in Ops
             /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
             /\ Step(Restart(s), [op |-> "restart", res |-> None])

DoRemove == /\ "remove" \in Ops
            /\ \E p \in Provs : /\ s.reg[p].reg
                                /\ Step(RemoveProvider(s, p), [op |-> "remove", prov |-> p, res |-> None])

SetAllow == /\ "policy" \in Ops
            /\ \E p \in Idents : Step([s EXCEPT !.allowed[p] = ~@],
                     [op |-> "allow", peer |-> p, on |-> ~s.allowed[p], res |-> None])

\* time passes (rounds in which several providers are due are left out: the notices of one
\* round may not all be delivered)
Wait == /\ "wait" \in Ops
        /\ \E d \in {1, Period - s.phase} :
             LET x == Elapse(s, d) IN
             /\ Cardinality(x.due) <= 1
             /\ ~Lossy(x.st)
             /\ Step(x.st, [op |-> "wait", d |-> d, res |-> None])

Lookup == /\ "lookup" \in Ops
          /\ \A x \in Provs \X Ctxs : s.flux[x] = NoFlux
          /\ \E q \in {Labels} \union {{l} : l \in Labels} :
               Step(Clean(s, q), [op |-> "lookup", q |-> q, ans |-> TLCEval(Answer(s, q)), res |-> None])

\* withdraw the newest advertisements that were not processed, then go on from there
Rewind == /\ "rewind" \in Ops
          /\ \E pub \in Pubs :
               LET n == Len(s.chain[pub]) - 1 IN
               /\ Len(s.chain[pub]) > 1
               /\ n >= s.latest[pub]
               /\ (n + 1) \notin s.processed[pub]
               /\ ~AuthOK(s, pub, s.chain[pub][n+1])
               /\ Step([s EXCEPT !.chain[pub] = SubSeq(@, 1, n), !.flt[pub] = SubSeq(@, 1, n),
                                 !.local[pub] = @ \ {n+1}],
                       [op |-> "rewind", pub |-> pub, n |-> n, res |-> None])

\* the indexer stops somewhere during a sync and is started again; at selects where
DoCrash == /\ "crash" \in Ops
           /\ \E pub \in Pubs, d \in Depths, r \in Resyncs :
                /\ Len(s.chain[pub]) > 0
                /\ Live \/ (s.crash.n < 2 /\ s.crash.pub = pub /\ s.crash.resync = r /\ s.crash.depth = d)
                /\ LET from == IF Live THEN {Forget(s)} ELSE s.crash.alts
                       alts == TLCEval(UNION {CrashStates([x EXCEPT !.chain = s.chain, !.flt = s.flt], pub, d, r) : x \in from})
                       st   == [Forget(Restart(s)) EXCEPT !.crash = [alts |-> alts, pub |-> pub, resync |-> r, depth |-> d, n |-> s.crash.n + 1]]
                   IN /\ s' = st
                      /\ \E at \in Points : hist' = Append(hist, [op |-> "crash", pub |-> pub, depth |-> d, resync |-> r, at |-> at, res |-> None,
                                               exp |-> Show(st), alts |-> TLCEval({Show(x) : x \in alts})])
\* the interrupted sync is repeated
DoRecover == /\ ~Live
             /\ LET c == s.crash
                    xs == {[Sync([x EXCEPT !.chain = s.chain, !.flt = s.flt], c.pub, c.depth, c.resync) EXCEPT !.st = Forget(@)] : x \in c.alts}
                    x  == CHOOSE y \in xs : \A z \in xs : y.st.latest[c.pub] >= z.st.latest[c.pub]
                    lag == IF \E y \in xs : y.st.latest # x.st.latest \/ c.pub \in y.st.lag THEN {c.pub} ELSE {}
                IN Step([x.st EXCEPT !.lag = @ \union lag], [op |-> "sync", pub |-> c.pub, depth |-> c.depth, resync |-> c.resync, res |-> x.res])

Init == s = Init0 /\ hist = <<>>
\* print complete behaviours (simulation)
Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars

Next == \/ Fin
        \/ Len(hist) < MaxSteps /\ (DoRecover \/ DoCrash \/ Publish)
        \/ /\ Len(hist) < MaxSteps /\ Live
           /\ \/ DoSync \/ DoAnnounce \/ BadAnnounce \/ SetFault \/ ClearFault \/ IdxDown \/ RegDown \/ HeadDown
              \/ Wait \/ Lookup
              \/ DoRestart \/ DoRemove \/ SetAllow \/ Rewind
Spec == Init /\ [][Next]_vars

View == s
\* print the history of every generated transition (transition cover)
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
Withdrawn(ch, i) == \E j \in (i+1)..Len(ch) : ch[j].kind = "rm" /\ ch[j].ctx = ch[i].ctx /\ ch[j].prov = ch[i].prov
LatestBacked(x, pub) ==
   LET ch == x.chain[pub] IN
   \A i \in 1..x.latest[pub] : (ch[i].kind = "put" /\ ~Withdrawn(ch, i)) =>
      \A l \in ch[i].ents : <<l, ch[i].prov, ch[i].ctx>> \in x.idx
\* C02: wherever the sync was interrupted, repeating it ends the same way
Resumes == ~Live =>
   LET c == s.crash
       Same(x) == [Show(Forget(x)) EXCEPT !.latest = None, !.lag = None]
   IN Cardinality({Same(Sync([x EXCEPT !.chain = s.chain, !.flt = s.flt], c.pub, c.depth, c.resync).st) : x \in c.alts}) = 1
\* C02: reported progress is backed by the content, unless a later removal withdrew it
Backed == \A x \in s.crash.alts : ~s.crash.resync => LatestBacked(x, s.crash.pub)
ProvsOf(pub) == {s.chain[pub][i].prov : i \in 1..Len(s.chain[pub])}
Exclusive(pub) == \A q \in Pubs \ {pub} : ProvsOf(q) \cap ProvsOf(pub) = {}
AllDone(pub) == \A i \in 1..Len(s.chain[pub]) : i \in s.processed[pub]

\* C01: a completely processed chain of one provider leaves exactly its in-order effect.
\* (InOrder: nothing older was left out when something newer was processed, i.e. no
\* depth-limited sync happened that no later re-sync completed.)
ChainExact ==
   \A pub \in Pubs :
      (AllDone(pub) /\ Exclusive(pub) /\ Cardinality(ProvsOf(pub)) <= 1 /\ ~s.idxdown) =>
         LET f == FoldChain(pub, s.chain[pub])
             P == ProvsOf(pub)
         IN /\ {e \in s.idx : e[2] \in P} = f.idx
            /\ \A x \in P \X Ctxs : s.md[x] = f.md[x]

\* C03/C15: without depth limits, what is processed is a prefix of the chain (per provider)
PrefixProcessed ==
   (Depths = {0}) =>
   \A pub \in Pubs : \A i, j \in 1..Len(s.chain[pub]) :
      (i < j /\ s.chain[pub][i].prov = s.chain[pub][j].prov /\ j \in s.processed[pub]
       /\ Cardinality(ProvsOf(pub)) <= 1)
         => i \in s.processed[pub]

\* C02: reported progress is processed
LatestProcessed == \A pub \in Pubs : s.latest[pub] # 0 => s.latest[pub] \in s.processed[pub]

\* C04: nothing unauthentic is ever processed
AuthProcessed == \A pub \in Pubs : \A i \in s.processed[pub] :
                    i <= Len(s.chain[pub]) => AuthOK(s, pub, s.chain[pub][i])

\* C10, C17: what a provider that is not registered published is not returned, and nothing
\* is known about it; a hidden provider stays registered
Forgotten == \A p \in Provs : /\ ~s.reg[p].reg => s.act[p] /\ s.age[p] = Zero
                              /\ ~s.reg[p].reg => ~\E e \in Answer(s, Labels) : e[2] = p
\* C17: a removal leaves the content and the progress of others alone
RemoveOnly == [][hist'[Len(hist')].op = "remove" =>
                   LET p == hist'[Len(hist')].prov IN
                   /\ s'.idx = s.idx /\ s'.md = s.md /\ ~s'.reg[p].reg /\ ~s'.stored[p].reg
                   /\ \A o \in Provs \ {p} : s'.reg[o] = s.reg[o] /\ s'.stored[o] = s.stored[o]
                   /\ \A o \in Pubs \ {s.reg[p].pub} : s'.latest[o] = s.latest[o]
                   /\ s.reg[p].pub \in Pubs => s'.latest[s.reg[p].pub] = 0]_vars

\* the index only has content that some processed or attempted advertisement carries
Justified == \A e \in s.idx : \E pub \in Pubs : \E i \in 1..Len(s.chain[pub]) :
                LET a == s.chain[pub][i] IN
                a.kind = "put" /\ a.prov = e[2] /\ a.ctx = e[3] /\ e[1] \in a.ents /\ AuthOK(s, pub, a)
=============================================================================
