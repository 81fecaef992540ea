------------------------------ MODULE Entries ------------------------------
(***************************************************************************)
(* What of an advertisement's entries must be in the index: entries are a  *)
(* chain of chunks or a HAMT, of valid labels (each standing for a number  *)
(* of multihashes) and invalid ones; the entries depth is limited; several *)
(* advertisements may link to the same entries; blocks may be left in the  *)
(* datastore by an interrupted run; processing leaves none behind.         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, Randomization

CONSTANTS Pubs, Ctxs, Labels, Encs, MaxChunks, MaxAds, MaxSteps, Limit, Ops, Sample, EmitMod

VARIABLES s, hist
vars == <<s, hist>>
None == "none"
Bad == "bad"

MdOf(pub, i) == pub \o "#" \o ToString(i)
Chunks == SUBSET (Labels \union {Bad})
Structs == {[enc |-> e, chunks |-> c] : e \in Encs \ {"hamt"}, c \in UNION {[1..n -> Chunks] : n \in 1..MaxChunks}}
           \union (IF "hamt" \in Encs THEN {[enc |-> "hamt", chunks |-> <<c>>] : c \in Chunks \ {{}, {Bad}}} ELSE {})

\* the depth limit counts the chunks after the first
Reach(e) == IF e.enc = "hamt" \/ Limit = 0 \/ Len(e.chunks) <= Limit + 1 THEN Len(e.chunks) ELSE Limit + 1
Content(e) == (UNION {e.chunks[i] : i \in 1..Reach(e)}) \ {Bad}

Init0 == [ chain |-> [p \in Pubs |-> <<>>], done |-> [p \in Pubs |-> 0], idx |-> {},
           md |-> [x \in Pubs \X Ctxs |-> None], hit |-> [x \in Pubs \X Ctxs |-> FALSE] ]

\* an advertisement all of whose reachable entries are invalid stores nothing at all
Apply(st, p, i) ==
   LET a == st.chain[p][i]
       c == Content(a.ents)
   IN [st EXCEPT !.idx = @ \union {<<l, p, a.ctx>> : l \in c},
                 !.md = [@ EXCEPT ![<<p, a.ctx>>] = IF c # {} THEN MdOf(p, i) ELSE @],
                 !.done[p] = i]
RECURSIVE SyncAll(_, _)
SyncAll(st, p) == IF st.done[p] = Len(st.chain[p]) THEN st ELSE SyncAll(Apply(st, p, st.done[p] + 1), p)

Show(st) == [ idx |-> TLCEval({<<e[1], e[2], e[3], st.md[<<e[2], e[3]>>]>> : e \in st.idx}) ]
Step(st, rec) == s' = st /\ hist' = Append(hist, rec @@ [exp |-> Show(st)])

Choice(S) == IF Sample = 0 \/ Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)
Add(p, ctx, e, share) ==
   Step([s EXCEPT !.chain[p] = Append(@, [ctx |-> ctx, ents |-> e])],
        [op |-> "publish", pub |-> p, ctx |-> ctx, ents |-> e, share |-> share])
Publish == /\ "publish" \in Ops
           /\ \E p \in Pubs, ctx \in Ctxs, e \in Choice(Structs) : Len(s.chain[p]) < MaxAds /\ Add(p, ctx, e, <<>>)
\* another advertisement with the same entries
Share == /\ "share" \in Ops
         /\ \E p, q \in Pubs, ctx \in Ctxs : Len(s.chain[p]) < MaxAds /\ \E i \in 1..Len(s.chain[q]) :
              Add(p, ctx, s.chain[q][i].ents, <<MdOf(q, i)>>)
Sync == /\ "sync" \in Ops
        /\ \E p \in Pubs : /\ s.done[p] < Len(s.chain[p])
                           /\ Step(SyncAll(s, p), [op |-> "sync", pubs |-> {p}])
\* several publishers at once
SyncBoth == /\ "both" \in Ops
            /\ LET P == {p \in Pubs : s.done[p] < Len(s.chain[p])} IN
               /\ Cardinality(P) > 1
               /\ Step(FoldSet(LAMBDA p, st : SyncAll(st, p), s, P), [op |-> "sync", pubs |-> P])
\* blocks of entries that are not processed yet are in the datastore already
Leftover == /\ "leftover" \in Ops
            /\ \E p \in Pubs : \E i \in (s.done[p] + 1)..Len(s.chain[p]) :
                 /\ hist[Len(hist)].op # "leftover"
                 /\ Step(s, [op |-> "leftover", ad |-> MdOf(p, i), n |-> Reach(s.chain[p][i].ents)])
Restart == /\ "restart" \in Ops /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
           /\ Step(s, [op |-> "restart"])
\* the batch size may change at run time
Batch == /\ "batch" \in Ops
         /\ \E n \in {1, 2, 5, 100} : Step(s, [op |-> "batch", n |-> n])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == s = Init0 /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Publish)
        \/ (More /\ Share)
        \/ (More /\ Sync)
        \/ (More /\ SyncBoth)
        \/ (More /\ Leftover)
        \/ (More /\ Restart)
        \/ (More /\ Batch)
Spec == Init /\ [][Next]_vars
View == s
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

(* C16 *)
Exact == \A p \in Pubs : \A c \in Ctxs :
   {e[1] : e \in {x \in s.idx : x[2] = p /\ x[3] = c}} =
     UNION {Content(s.chain[p][i].ents) : i \in {j \in 1..s.done[p] : s.chain[p][j].ctx = c}}
=============================================================================
