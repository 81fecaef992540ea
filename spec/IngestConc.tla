----------------------------- MODULE IngestConc -----------------------------
(***************************************************************************)
(* Overlapping syncs, announcements, cancellations, worker changes and     *)
(* closes.  The actions start things without waiting for them; held blocks *)
(* and held store writes decide what overlaps.  The specification says     *)
(* what must be true whenever everything that was started has been given   *)
(* the time to finish (Settle).  What happens in between is recorded from  *)
(* the real code and judged by IngestTrace.tla.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt, Randomization

CONSTANTS Pubs, Provs,      \* publishers, providers
          Mode,             \* own: each publishes for itself, one: all for the same provider, multi: for any
          Ctxs, Kinds, MaxAds, MaxSteps, MaxSyncs, Ops, Sample, EmitMod

VARIABLES s, hist
vars == <<s, hist>>
None == "none"
MdOf(pub, i) == pub \o "#" \o ToString(i)

Init0 == [ chain |-> [p \in Pubs |-> <<>>],
           lo    |-> [p \in Pubs |-> 0],     \* surely processed once settled
           hi    |-> [p \in Pubs |-> 0],     \* possibly processed
           held  |-> {},                     \* held ads: <<pub, i, where>>
           flt   |-> None,                   \* the advertisement whose entries are unavailable
           syncs |-> <<>>,                   \* [pub, state]: running, ended
           base  |-> [p \in Pubs |-> 0],     \* surely processed already
           dirty |-> {},
           idle  |-> TRUE ]

Fold(pub, ch, k) ==
   LET RECURSIVE F(_, _)
       F(st, i) == IF i > k THEN st ELSE
          LET a == ch[i] x == <<a.prov, a.ctx>> IN
          F(CASE a.kind = "put"  -> [has |-> st.has \union {x}, md |-> [st.md EXCEPT ![x] = MdOf(pub, i)]]
              [] a.kind = "meta" -> [st EXCEPT !.md = [@ EXCEPT ![x] = IF x \in st.has THEN MdOf(pub, i) ELSE @]]
              [] a.kind = "rm"   -> [st EXCEPT !.has = @ \ {x}], i + 1)
       r == F([has |-> {}, md |-> [x \in Provs \X Ctxs |-> None]], 1)
   IN {<<x[1], pub \o x[2], r.md[x]>> : x \in r.has}

\* what may be seen when settled: progress and content per publisher
Alts(st) == [p \in Pubs |-> TLCEval({[k |-> k, idx |-> TLCEval(Fold(p, st.chain[p], k))] : k \in st.lo[p]..st.hi[p]})]
\* a failed or interrupted attempt may have left some of its content
Loose(st) == TLCEval({p \in Pubs : st.lo[p] # st.hi[p] /\ (st.flt # None \/ p \in st.dirty \/ Mode = "multi")})

Step(st, rec) == s' = st /\ hist' = Append(hist, rec)
Choice(S) == IF Sample = 0 \/ Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)
ProvsOf(p) == CASE Mode = "own" -> {p} [] Mode = "one" -> {CHOOSE x \in Provs : TRUE} [] OTHER -> Provs
Top(p) == Len(s.chain[p])
\* a request that will bring in everything published so far
Request(st, p) == LET h == Len(st.chain[p]) IN
   [st EXCEPT !.hi[p] = IF h > @ THEN h ELSE @,
              !.lo[p] = IF st.flt = None /\ h > @ THEN h ELSE @,
              !.idle = FALSE]

Publish == /\ "publish" \in Ops
           /\ \E p \in Pubs : Top(p) < MaxAds /\ \E prov \in ProvsOf(p), c \in Ctxs, k \in Kinds :
                LET a == [prov |-> prov, ctx |-> c, kind |-> k]
                    \* a running sync or announcement may or may not pick this up
                    st == [s EXCEPT !.chain[p] = Append(@, a)]
                IN Step(IF s.idle THEN st ELSE [st EXCEPT !.hi[p] = IF \E h \in 1..Len(s.syncs) : s.syncs[h] = [pub |-> p, run |-> TRUE] THEN Len(st.chain[p]) ELSE @],
                        [op |-> "publish", pub |-> p, ad |-> a @@ [ents |-> {"x"}]])
StartSync == /\ "sync" \in Ops
             /\ \E p \in Pubs : /\ Top(p) > 0 /\ Cardinality({h \in 1..Len(s.syncs) : s.syncs[h].run}) < MaxSyncs
                  /\ Step([Request(s, p) EXCEPT !.syncs = Append(@, [pub |-> p, run |-> TRUE])],
                          [op |-> "start", pub |-> p, h |-> Len(s.syncs) + 1])
\* started with a context that is cancelled at some point
CancelSync == /\ "cancel" \in Ops
              /\ \E p \in Pubs : /\ Top(p) > 0 /\ Len(s.syncs) < 12
                   /\ LET st == Request(s, p) IN
                      Step([st EXCEPT !.lo = s.lo, !.syncs = Append(@, [pub |-> p, run |-> TRUE])],
                           [op |-> "cancel", pub |-> p, h |-> Len(s.syncs) + 1])
Announce == /\ "announce" \in Ops
            /\ \E p \in Pubs : Top(p) > 0 /\ Step(Request(s, p), [op |-> "announce", pub |-> p, i |-> Top(p)])
\* announcements of everything published since, in quick succession
Burst == /\ "burst" \in Ops
         /\ \E p \in Pubs : \E i \in {s.lo[p] + 1} :
              i <= Top(p) /\ Step(Request(s, p), [op |-> "burst", pub |-> p, i |-> i])
\* the head is being processed and announced again, and when it finishes a new head is announced
Late == /\ "burst" \in Ops /\ s.idle /\ s.flt = None
        /\ \E p \in Pubs : /\ Top(p) < MaxAds /\ Top(p) > s.hi[p] /\ s.chain[p][Top(p)].kind = "put"
             /\ LET a == s.chain[p][Top(p)]
                    st == Request([s EXCEPT !.chain[p] = Append(@, a)], p)
                IN Step([st EXCEPT !.syncs = Append(@, [pub |-> p, run |-> TRUE])],
                        [op |-> "late", pub |-> p, i |-> Top(p), h |-> Len(s.syncs) + 1, ad |-> a @@ [ents |-> {"x"}]])
Hold == /\ "hold" \in Ops
        /\ \E p \in Pubs, w \in {"ad", "ent", "store"} : \E i \in Choice((s.lo[p] + 1)..Top(p)) :
             /\ Cardinality(s.held) < 3 /\ <<p, i, w>> \notin s.held
             /\ (w # "ad" => s.chain[p][i].kind = "put")
             /\ Step([s EXCEPT !.held = @ \union {<<p, i, w>>}], [op |-> "hold", pub |-> p, i |-> i, where |-> w])
Release == /\ "hold" \in Ops
           /\ \E x \in s.held : Step([s EXCEPT !.held = @ \ {x}], [op |-> "release", pub |-> x[1], i |-> x[2], where |-> x[3]])
Fault == /\ "fault" \in Ops /\ s.idle /\ s.flt = None
         /\ \E p \in Pubs : \E i \in (s.lo[p] + 1)..Top(p) :
              /\ s.chain[p][i].kind = "put"
              /\ Step([s EXCEPT !.flt = MdOf(p, i)], [op |-> "fault", pub |-> p, i |-> i, on |-> TRUE])
Clear == /\ s.flt # None
         /\ Step([s EXCEPT !.flt = None], [op |-> "fault", ad |-> s.flt, on |-> FALSE])
Workers == /\ "workers" \in Ops
           /\ \E n \in 1..4 : Step(s, [op |-> "workers", n |-> n])
Settle == /\ ~s.idle
          /\ Step([s EXCEPT !.idle = TRUE, !.held = {}, !.base = s.lo, !.dirty = {p \in Pubs : s.lo[p] # s.hi[p] /\ (p \in @ \/ s.flt # None)},
                            !.syncs = [h \in 1..Len(@) |-> [@[h] EXCEPT !.run = FALSE]]],
                  [op |-> "settle", alts |-> Alts(s), loose |-> Loose(s)])
\* close while things are going on, then start again
Close == /\ "close" \in Ops /\ ~s.idle /\ s.flt = None
         /\ Step([s EXCEPT !.idle = TRUE, !.held = {}, !.syncs = [h \in 1..Len(@) |-> [@[h] EXCEPT !.run = FALSE]],
                           !.lo = s.base, !.dirty = Pubs], [op |-> "close"])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == s = Init0 /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Publish)
        \/ (More /\ StartSync)
        \/ (More /\ CancelSync)
        \/ (More /\ Announce)
        \/ (More /\ Burst)
        \/ (More /\ Late)
        \/ (More /\ Hold)
        \/ (More /\ Release)
        \/ (More /\ Fault)
        \/ (More /\ Clear)
        \/ (More /\ Workers)
        \/ (More /\ Settle)
        \/ (More /\ Close)
Spec == Init /\ [][Next]_vars
View == s
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))
Bounds == \A p \in Pubs : s.lo[p] <= s.hi[p] /\ s.hi[p] <= Len(s.chain[p])
=============================================================================
