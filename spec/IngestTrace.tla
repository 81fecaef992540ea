----------------------------- MODULE IngestTrace -----------------------------
(***************************************************************************)
(* Judges executions recorded from the real code (JSON, one per line of    *)
(* TraceFile): is each event one that the specification allows next?       *)
(* C15: one advertisement of a provider at a time, in chain order, once.   *)
(* C13: a sync ends with the head, after it was processed, or because it   *)
(* was cancelled, failed, or the ingester closed.                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, FiniteSetsExt, SequencesExt

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, st
vars == <<t, l, st>>
None == "none"

Range2(s) == {s[i] : i \in 1..Len(s)}
Init0 == [ chain |-> <<>>,      \* [pub, i, prov, ctx, kind] of everything published
           done |-> {}, active |-> {}, syncs |-> <<>>, ended |-> {}, cancelled |-> {},
           fault |-> FALSE, closed |-> FALSE, re |-> {} ]

Of(x, pub) == {a \in Range2(x.chain) : a.pub = pub}
HeadOf(x, pub) == Cardinality(Of(x, pub))
Ads(x, pub, i) == {a \in Of(x, pub) : a.i = i}
\* everything earlier in the chain of the same provider is processed
Turn(x, a) == a.pub \in x.re \/ \A b \in Of(x, a.pub) : (b.i < a.i /\ b.prov = a.prov) => <<b.pub, b.i>> \in x.done
Fresh(x, a) == <<a.pub, a.i>> \notin x.done
SyncOf(x, h) == CHOOSE y \in Range2(x.syncs) : y.h = h

\* the advertisements that an index write may be part of
Cand(x, e) == {a \in Range2(x.chain) :
                 /\ a.prov = e.prov /\ a.ctx = e.ctx
                 /\ IF e.op = "irm" THEN a.kind = "rm" ELSE a.pub = e.pub /\ a.i = e.i /\ a.kind # "rm"
                 /\ Turn(x, a) /\ Fresh(x, a)}

Legal(x, e) ==
   CASE e.e = "publish" -> TRUE
     [] e.e = "in"      -> e.prov \notin x.active /\ Cand(x, e) # {}
     [] e.e = "out"     -> e.prov \in x.active
     [] e.e = "mark1"   -> \E a \in Ads(x, e.pub, e.i) : Turn(x, a) /\ Fresh(x, a) /\ a.prov \notin x.active
     [] e.e = "mark0"   -> e.pub \in x.re
     [] e.e = "latest"  -> <<e.pub, e.i>> \in x.done
     [] e.e = "start"   -> TRUE
     [] e.e = "cancel"  -> TRUE
     [] e.e = "end"     -> LET y == SyncOf(x, e.h) IN
                           /\ e.h \notin x.ended
                           /\ IF e.i = 0 THEN e.h \in x.cancelled \/ x.closed
                              ELSE /\ e.i >= y.head /\ e.i <= HeadOf(x, y.pub)
                                   /\ <<y.pub, e.i>> \in x.done \/ x.fault
     [] e.e = "fault"   -> TRUE
     [] e.e = "settle"  -> \A y \in Range2(x.syncs) : y.h \in x.ended
     [] e.e = "close"   -> TRUE
     [] e.e = "open"    -> \A y \in Range2(x.syncs) : y.h \in x.ended
     [] OTHER -> FALSE

Apply(x, e) ==
   CASE e.e = "publish" -> [x EXCEPT !.chain = Append(@, [pub |-> e.pub, i |-> e.i, prov |-> e.prov, ctx |-> e.ctx, kind |-> e.kind])]
     [] e.e = "in"      -> [x EXCEPT !.active = @ \union {e.prov}]
     [] e.e = "out"     -> [x EXCEPT !.active = @ \ {e.prov}]
     [] e.e = "mark1"   -> [x EXCEPT !.done = @ \union {<<e.pub, e.i>>}]
     [] e.e = "mark0"   -> [x EXCEPT !.done = @ \ {<<e.pub, e.i>>}]
     [] e.e = "start"   -> [x EXCEPT !.syncs = Append(@, [h |-> e.h, pub |-> e.pub, head |-> HeadOf(x, e.pub)])]
     [] e.e = "cancel"  -> [x EXCEPT !.cancelled = @ \union {e.h}]
     [] e.e = "end"     -> [x EXCEPT !.ended = @ \union {e.h}]
     \* a fault ends only when everything that was started before has settled
     [] e.e = "fault"   -> [x EXCEPT !.fault = TRUE]
     [] e.e = "settle"  -> [x EXCEPT !.fault = e.i = 1]
     [] e.e = "close"   -> [x EXCEPT !.closed = TRUE]
     [] e.e = "open"    -> [x EXCEPT !.closed = FALSE]
     [] OTHER -> x

Ev == Traces[t].events
Init == t \in 1..Len(Traces) /\ l = 1 /\ st = Init0
Go == /\ l <= Len(Ev)
      /\ Legal(st, Ev[l])
      /\ st' = Apply(st, Ev[l]) /\ l' = l + 1 /\ t' = t
      /\ (l' > Len(Ev)) => PrintT("ACCEPT " \o Traces[t].id)
Reject == /\ l <= Len(Ev) /\ ~Legal(st, Ev[l])
          /\ PrintT("REJECT " \o ToJson([id |-> Traces[t].id, at |-> l, event |-> Ev[l], state |-> st]))
          /\ l' = Len(Ev) + 1 /\ UNCHANGED <<t, st>>
Next == Go \/ Reject
Spec == Init /\ [][Next]_vars
=============================================================================
