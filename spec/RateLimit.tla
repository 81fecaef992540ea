------------------------------ MODULE RateLimit ------------------------------
(***************************************************************************)
(* Rate limiting of what is fetched from publishers.  A sync is a sequence *)
(* of walks: the advertisements, then for each of them, oldest first, its  *)
(* first block of entries and the rest of them.  Every walk of a publisher *)
(* that is subject to rate limiting may fetch Burst blocks at once and     *)
(* then Rate blocks per second; it gets the settings there are when it     *)
(* starts.  Fetching takes no time here: after every step a sync has       *)
(* either ended or waits for its limiter.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Pubs,        \* publishers
          Rates,       \* blocks per second; 0: no limit
          Bursts,
          Bads,        \* kinds of settings that are refused
          MaxChunks,   \* blocks of entries of an advertisement
          MaxAds, MaxSteps, Ops, Sample, EmitMod

VARIABLES s, hist
vars == <<s, hist>>
Second == 4            \* ticks
NoWalk == [left |-> 0, got |-> 0, lim |-> FALSE, rate |-> 0, burst |-> 0, age |-> 0, wait |-> 0]
Idle == [on |-> FALSE, todo |-> <<>>, walk |-> NoWalk, head |-> 0]
Settings == [apply : BOOLEAN, except : SUBSET Pubs, rate : Rates, burst : Bursts]
Init0 == [ set   |-> [apply |-> FALSE, except |-> {}, rate |-> 0, burst |-> 1],
           chain |-> [p \in Pubs |-> <<>>],      \* the number of blocks of entries of each advertisement
           done  |-> [p \in Pubs |-> 0],         \* how many were processed
           got   |-> [p \in Pubs |-> 0],         \* how many blocks, and heads, were fetched
           run   |-> [p \in Pubs |-> Idle] ]

Limited(set, p) == set.rate # 0 /\ (set.apply # (p \in set.except))

\* the walks that fetch entries
RECURSIVE Entries(_, _)
Entries(ch, i) == IF i > Len(ch) THEN <<>>
   ELSE (IF ch[i] = 0 THEN <<>> ELSE IF ch[i] = 1 THEN <<1>> ELSE <<1, ch[i] - 1>>) \o Entries(ch, i + 1)

\* go on until the sync ends or waits
RECURSIVE Go(_, _)
Go(st, p) ==
   LET r == st.run[p] w == r.walk IN
   IF ~r.on THEN st
   ELSE IF w.left = 0 THEN
      IF r.todo = <<>> THEN [st EXCEPT !.run[p] = Idle, !.done[p] = r.head]
      ELSE Go([st EXCEPT !.run[p].todo = Tail(@),
                         !.run[p].walk = [NoWalk EXCEPT !.left = r.todo[1], !.lim = Limited(st.set, p),
                                                        !.rate = st.set.rate, !.burst = st.set.burst]], p)
   ELSE IF w.lim /\ w.got >= w.burst /\ w.wait = 0 THEN [st EXCEPT !.run[p].walk.wait = Second \div w.rate]
   ELSE IF w.lim /\ w.wait > 1 THEN st
   ELSE Go([st EXCEPT !.run[p].walk.left = @ - 1, !.run[p].walk.got = @ + 1, !.run[p].walk.wait = 0, !.got[p] = @ + 1], p)
\* time passes: one tick
RECURSIVE TickAll(_, _)
TickAll(st, ps) ==
   IF ps = {} THEN st
   ELSE LET p == CHOOSE x \in ps : TRUE
            w == st.run[p].walk
            st1 == [st EXCEPT !.run[p].walk.age = @ + 1]
        IN TickAll(IF ~st.run[p].on THEN st
                   ELSE IF w.wait > 1 THEN [st1 EXCEPT !.run[p].walk.wait = @ - 1]
                   ELSE Go(st1, p), ps \ {p})

Show(st) == [got |-> st.got, done |-> st.done, busy |-> TLCEval({p \in Pubs : st.run[p].on})]
Step(st, rec) == s' = st /\ hist' = Append(hist, rec @@ [exp |-> Show(st)])
Choice(S) == IF Sample = 0 \/ Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)

Publish == /\ "publish" \in Ops
           /\ \E p \in Pubs, n \in 0..MaxChunks : /\ Len(s.chain[p]) < MaxAds /\ ~s.run[p].on
                /\ Step([s EXCEPT !.chain[p] = Append(@, n)], [op |-> "publish", pub |-> p, n |-> n])
\* an explicit sync also asks for the head
Start == \E p \in Pubs, op \in Ops \cap {"sync", "announce"} :
           /\ ~s.run[p].on /\ Len(s.chain[p]) > s.done[p]
           /\ LET new == SubSeq(s.chain[p], s.done[p] + 1, Len(s.chain[p]))
                  first == Len(new) + (IF op = "sync" THEN 1 ELSE 0)
                  run == [on |-> TRUE, todo |-> <<first>> \o Entries(new, 1), walk |-> NoWalk, head |-> Len(s.chain[p])]
              IN Step(Go([s EXCEPT !.run[p] = run], p), [op |-> op, pub |-> p])
Set == /\ "set" \in Ops
       /\ \E c \in Choice(Settings) : Step([s EXCEPT !.set = c], [op |-> "set", set |-> c, bad |-> "no"])
SetBad == /\ "set" \in Ops
          /\ \E c \in Choice(Settings), b \in Bads : c.rate # 0 /\ Step(s, [op |-> "set", set |-> c, bad |-> b])
Wait == /\ "tick" \in Ops
        /\ \E p \in Pubs : s.run[p].on
        /\ Step(TickAll(s, Pubs), [op |-> "tick"])
Restart == /\ "restart" \in Ops
           /\ \A p \in Pubs : ~s.run[p].on
           /\ \E c \in Choice(Settings) : Step([s EXCEPT !.set = c], [op |-> "restart", set |-> c])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == s = Init0 /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Publish)
        \/ (More /\ Start)
        \/ (More /\ Set)
        \/ (More /\ SetBad)
        \/ (More /\ Wait)
        \/ (More /\ Restart)
Spec == Init /\ [][Next]_vars
View == s
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

(***************************************************************************)
(* Properties                                                              *)
(***************************************************************************)
\* C23: a walk of a limited publisher never fetched more than it may
Bound == \A p \in Pubs : LET w == s.run[p].walk IN
            (s.run[p].on /\ w.lim) => w.got * Second <= w.burst * Second + w.age * w.rate
\* C23: only a limited publisher waits
Free == \A p \in Pubs : s.run[p].on => s.run[p].walk.lim
\* C23: nothing but time changes by limiting: a sync that is not waiting has got everything
Whole == [][\A p \in Pubs : (s.run[p].on /\ ~s'.run[p].on) => s'.done[p] = s.run[p].head]_vars
\* C23: settings that are refused change nothing
Refused == [][(hist'[Len(hist')].op = "set" /\ hist'[Len(hist')].bad # "no") => s' = s]_vars
=============================================================================
