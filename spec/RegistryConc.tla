---------------------------- MODULE RegistryConc ----------------------------
(***************************************************************************)
(* Concurrent programs for the registry: rounds in which several threads   *)
(* each run a few operations at once.  The histories recorded from running *)
(* them are judged by RegistryTrace.tla.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Peers, Addrs, AdIds, DiscAddrs, Threads, PerRound, MaxSteps, Ops, Sample, EmitMod

VARIABLES n, hist        \* n: operations of each thread in this round
vars == <<n, hist>>
None == "none"

Choice(S) == IF Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)
Op(rec) == \E th \in Choice({x \in Threads : n[x] < PerRound}) :
             /\ n' = [n EXCEPT ![th] = @ + 1]
             /\ hist' = Append(hist, rec @@ [th |-> th])
On(o) == o \in Ops

Register == On("register") /\ \E x \in Choice(Peers \X Addrs \X (Peers \union {None}) \X Addrs) :
              Op([op |-> "register", prov |-> x[1], addr |-> x[2], pub |-> x[3], paddr |-> IF x[3] = None THEN None ELSE x[4]])
Update == On("update") /\ \E x \in Choice(Peers \X (Addrs \union {None}) \X (AdIds \union {None}) \X (Peers \union {None}) \X (Addrs \union {None})) :
              Op([op |-> "update", prov |-> x[1], addr |-> x[2], ad |-> x[3], pub |-> x[4], paddr |-> IF x[4] = None THEN None ELSE x[5]])
Remove == On("remove") /\ \E p \in Peers : Op([op |-> "remove", prov |-> p])
Saw == On("saw") /\ \E p \in Peers : Op([op |-> "saw", prov |-> p])
Info == On("info") /\ \E p \in Peers : Op([op |-> "info", prov |-> p])
IsReg == On("info") /\ \E p \in Peers : Op([op |-> "isreg", prov |-> p])
All == On("info") /\ Op([op |-> "all"])
Allow == On("allow") /\ \E p \in Peers, b \in BOOLEAN : Op([op |-> "allow", peer |-> p, on |-> b])
Allowed == On("allow") /\ \E p \in Peers : Op([op |-> "allowed", peer |-> p])
Policy == On("policy") /\ \E x \in Choice(BOOLEAN \X (SUBSET Peers) \X BOOLEAN \X (SUBSET Peers)) :
              Op([op |-> "policy", def |-> x[1], exc |-> x[2], pdef |-> x[3], pexc |-> x[4]])
Discover == On("discover") /\ \E p \in Peers, d \in DiscAddrs : Op([op |-> "discover", prov |-> p, disc |-> d])
Round == /\ \E th \in Threads : n[th] > 0
         /\ n' = [th \in Threads |-> 0]
         /\ hist' = Append(hist, [op |-> "round", th |-> 0])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == n = [th \in Threads |-> 0] /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Register)
        \/ (More /\ Update)
        \/ (More /\ Remove)
        \/ (More /\ Saw)
        \/ (More /\ Info)
        \/ (More /\ IsReg)
        \/ (More /\ All)
        \/ (More /\ Allow)
        \/ (More /\ Allowed)
        \/ (More /\ Policy)
        \/ (More /\ Discover)
        \/ (More /\ (IF \E th \in Threads : n[th] < PerRound THEN RandomElement(1..3) = 1 ELSE TRUE) /\ Round)
Spec == Init /\ [][Next]_vars
View == n
EmitEdge == TRUE
Bounds == \A th \in Threads : n[th] <= PerRound
=============================================================================
