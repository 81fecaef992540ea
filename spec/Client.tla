------------------------------- MODULE Client -------------------------------
(***************************************************************************)
(* Clients asking the indexer.  Each client makes any number of calls at   *)
(* once; calls are cancelled, connections are dropped, streams fall idle   *)
(* and the server is slow to answer some clients (its gate for them is     *)
(* shut).  A call ends with the answer to its own question or with an      *)
(* error, and what happened to one call does not spoil the others.  C22    *)
(*                                                                         *)
(* A libp2p client asks one question at a time, over one stream (its other *)
(* calls wait for their turn); an HTTP client does not.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Clients, P2P,     \* all clients, and those using libp2p
          Slow, Quick,      \* kinds of questions: those that stop at a shut gate, and others
          MaxCalls, MaxSteps, Ops, Sample, EmitMod

VARIABLES calls,  \* sequence of [cl, kind, st, age]: whose, what, how it is going, seconds since it was asked
          shut, hist
vars == <<calls, shut, hist>>

\* st: "run" is being answered or waiting, "ok" got its answer, "err" failed,
\*     "run/ok" has not failed, "any" (its connection was dropped: may have failed, not with a wrong answer),
\*     "end" has ended, well or not
Active(c) == {i \in DOMAIN calls : calls[i].cl = c /\ calls[i].st \in {"run", "run/ok", "any"}}
Stuck(c) == {i \in Active(c) : calls[i].kind \in Slow}
Set(I, s) == [i \in DOMAIN calls |-> IF i \in I THEN [calls[i] EXCEPT !.st = s] ELSE calls[i]]
Step(cs, g, rec) == /\ calls' = cs /\ shut' = g
                    /\ hist' = Append(hist, rec @@ [exp |-> [i \in DOMAIN cs |-> cs[i].st]])
Pick(S) == IF Sample = 0 \/ S = {} THEN S ELSE {RandomElement(S)}

\* does a call of this kind end at once?
Ends(c, k) == /\ c \notin shut \/ k \in Quick
              /\ c \in P2P => Active(c) = {}
Start == /\ "start" \in Ops /\ Len(calls) < MaxCalls
         /\ \E c \in Pick(Clients), k \in Pick(Slow \union Quick) :
              /\ c \notin shut => Active(c) = {}
              \* after a drop, who is waiting for whom is not known: let the calls end first
              /\ \A i \in Active(c) : calls[i].st = "run"
              /\ Step(Append(calls, [cl |-> c, kind |-> k, st |-> IF Ends(c, k) THEN "ok" ELSE "run", age |-> 0]), shut,
                      [op |-> "start", cl |-> c, kind |-> k])
\* several calls at once; they all end well
Burst == /\ "burst" \in Ops /\ Len(calls) + 4 <= MaxCalls
         /\ \E c \in Pick(Clients \ shut), ks \in Pick([1..4 -> Slow \union Quick]) :
              /\ Active(c) = {}
              /\ Step(calls \o [i \in 1..4 |-> [cl |-> c, kind |-> ks[i], st |-> "ok", age |-> 0]], shut, [op |-> "burst", cl |-> c, kinds |-> ks])
\* a call is cancelled: it ends, and those waiting for it go on
Cancel == /\ "cancel" \in Ops
          /\ \E i \in Pick({j \in DOMAIN calls : calls[j].st = "run"}) :
               LET c == calls[i].cl
                   rest == Active(c) \ {i}
                   quick == {j \in rest : calls[j].kind \in Quick} IN
               Step([j \in DOMAIN calls |-> IF j = i THEN [calls[j] EXCEPT !.st = "err"]
                                            ELSE IF j \in quick THEN [calls[j] EXCEPT !.st = IF Stuck(c) \ {i} = {} THEN "ok" ELSE "run/ok"]
                                            ELSE calls[j]],
                    shut, [op |-> "cancel", i |-> i])
Shut == "shut" \in Ops /\ \E c \in Pick(Clients \ shut) : Step(calls, shut \union {c}, [op |-> "shut", cl |-> c])
\* the server answers
Open == /\ "open" \in Ops
        /\ \E c \in Pick(shut) :
             Step([i \in DOMAIN calls |-> IF i \notin Active(c) THEN calls[i]
                                          ELSE [calls[i] EXCEPT !.st = IF @ = "any" THEN "end" ELSE "ok"]], shut \ {c}, [op |-> "open", cl |-> c])
\* the connection between a client and the server is lost
Drop == /\ "drop" \in Ops
        /\ \E c \in Pick(Clients) : Step(Set(Active(c), "any"), shut, [op |-> "drop", cl |-> c])
\* time passes: a libp2p client waits for an answer no longer than its timeout, and the server closes idle streams
Wait == /\ "wait" \in Ops
        /\ \A c \in Clients : Cardinality(Active(c)) <= 1 /\ \A i \in Active(c) : calls[i].st = "run"
        /\ \E d \in Pick({4, 11, 61}) :
             Step([i \in DOMAIN calls |->
                     IF calls[i].st # "run" \/ calls[i].cl \notin P2P THEN calls[i]
                     ELSE [calls[i] EXCEPT !.age = IF @ + d > 10 THEN 0 ELSE @ + d, !.st = IF calls[i].age + d > 10 THEN "err" ELSE "run"]],
                  shut, [op |-> "wait", d |-> d])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == calls = <<>> /\ shut = {} /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Start) \/ (More /\ Burst) \/ (More /\ Cancel) \/ (More /\ Shut) \/ (More /\ Open) \/ (More /\ Drop) \/ (More /\ Wait)
Spec == Init /\ [][Next]_vars
View == <<calls, shut>>
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

\* C22: a client that the server answers has no call left waiting, and nobody else waits because of a stuck client
Served == \A c \in Clients : c \notin shut => Active(c) = {}
\* what has ended stays ended
Stable == [][\A i \in DOMAIN calls : calls[i].st \in {"ok", "err", "end"} => calls'[i] = calls[i]]_vars
\* a call fails only by being cancelled, by running out of time or by losing its connection
Blame == [][\A i \in DOMAIN calls : (calls[i].st # "err" /\ calls'[i].st = "err") => hist'[Len(hist')].op \in {"cancel", "wait"}]_vars
=============================================================================
