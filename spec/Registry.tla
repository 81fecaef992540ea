------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* Sequential specification of the provider registry: policy,              *)
(* registration by every route, durability, polling of publishers,         *)
(* discovery.  Time is in abstract units; a poll round happens every       *)
(* Period units.  RegistryConc.tla judges concurrent histories.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Randomization

CONSTANTS Peers,      \* providers and publishers
          Addrs,      \* addresses
          AdIds,      \* advertisement ids
          MaxSteps,
          Ops,
          AllowDefs, PubDefs,   \* policy defaults that may be loaded
          Allow0, AllowExc0, Pub0, PubExc0,   \* initial policy
          Interval, Retry, Stop,              \* default polling settings
          OPeer, OInterval, ORetry, OStop,    \* override for one provider
          Period,     \* units between poll rounds (the smallest retry time)
          DiscAddrs,  \* discovery addresses
          Rewait,     \* units before a repeated discovery
          Sample, EmitMod

VARIABLES s, hist
vars == <<s, hist>>

None == "none"
Zero == 99      \* no contact since the start
MaxAge == 40

IntervalOf(p) == IF p = OPeer THEN OInterval ELSE Interval
RetryOf(p)    == IF p = OPeer THEN ORetry ELSE Retry
StopOf(p)     == IF p = OPeer THEN OStop ELSE Stop

\* a registration: what is stored, plus the age of the last contact and activity
NoReg == [reg |-> FALSE, addr |-> None, disc |-> None, pub |-> None, paddr |-> None, ad |-> None]
Live0 == [age |-> Zero, act |-> TRUE]

Init0 == [ reg    |-> [p \in Peers |-> NoReg],
           live   |-> [p \in Peers |-> Live0],
           stored |-> [p \in Peers |-> NoReg],
           allow  |-> [def |-> Allow0, exc |-> AllowExc0],
           pubpol |-> [def |-> Pub0, exc |-> PubExc0],
           dsdown |-> FALSE,
           phase  |-> 0,
           chan   |-> [who |-> {}, del |-> FALSE],   \* undelivered notice to the ingester
           disc   |-> [d \in DiscAddrs |-> [run |-> None, age |-> Zero]] ]

Allowed(st, p) == st.allow.def # (p \in st.allow.exc)
MayPublish(st, pub, prov) == pub = prov \/ (st.pubpol.def # (pub \in st.pubpol.exc))

\* may this be registered
RegOK(st, p, r) == /\ r.addr # None
                   /\ Allowed(st, p)
                   /\ r.pub \notin {None, p} => Allowed(st, r.pub) /\ MayPublish(st, r.pub, p)

SetReg(st, p, r, l) == [st EXCEPT !.reg[p] = r, !.stored[p] = r, !.live[p] = l]

Store(st, p, r, l, check) ==
   IF check /\ ~RegOK(st, p, r) THEN [st |-> st, res |-> "err"]
   ELSE IF st.dsdown THEN [st |-> st, res |-> "err"]
   ELSE [st |-> SetReg(st, p, r, l), res |-> "ok"]

Register(st, p, a, pub, pa) ==
   Store(st, p, [reg |-> TRUE, addr |-> a, disc |-> None, pub |-> pub, paddr |-> pa, ad |-> None], Live0, TRUE)

\* update by an advertisement or an index-content request: replaces only what it carries
Update(st, p, a, ad, pub, pa) ==
   LET old  == st.reg[p]
       new0 == [old EXCEPT !.reg = TRUE,
                  !.addr = IF a # None THEN a ELSE @,
                  !.ad = IF ad # None THEN ad ELSE @,
                  !.pub = IF pub # None THEN pub ELSE @,
                  !.paddr = IF pub = None THEN @
                            ELSE IF pub # old.pub THEN pa
                            ELSE IF pa # None THEN pa ELSE @]
       new  == IF new0.pub = p /\ new0.paddr = None THEN [new0 EXCEPT !.paddr = new0.addr] ELSE new0
   IN IF a = "bad" THEN [st |-> st, res |-> "err"]
      ELSE Store(st, p, new, [age |-> 0, act |-> TRUE], ~old.reg \/ new.pub # old.pub)

RemoveProv(st, p) ==
   IF st.dsdown THEN [st |-> st, res |-> "err"]
   ELSE [st |-> [st EXCEPT !.reg[p] = NoReg, !.stored[p] = NoReg, !.live[p] = Live0,
                           !.chan = IF st.reg[p].reg THEN [who |-> {p}, del |-> TRUE] ELSE @],
         res |-> "ok"]

Restart(st) ==
   [st EXCEPT !.reg = [p \in Peers |-> IF Allowed(st, p) THEN st.stored[p] ELSE NoReg],
              !.live = [p \in Peers |-> Live0], !.phase = 0,
              !.chan = [who |-> {}, del |-> FALSE],
              !.disc = [d \in DiscAddrs |-> [run |-> None, age |-> Zero]]]

(***************************************************************************)
(* Polling                                                                 *)
(***************************************************************************)
Known(st) == {p \in Peers : st.reg[p].reg /\ st.reg[p].pub # None}
Age(st, p) == st.live[p].age
Due(st) == {p \in Known(st) : Age(st, p) # Zero /\ Age(st, p) >= IntervalOf(p)}
Dead(st) == {p \in Due(st) : Age(st, p) - IntervalOf(p) >= StopOf(p)}
Quiet(st) == {p \in Due(st) \ Dead(st) : Age(st, p) - IntervalOf(p) >= 2 * RetryOf(p)}

Poll(st) ==
   LET due == TLCEval(Due(st))
       dead == Dead(st)
       quiet == Quiet(st)
       free == st.chan.who = {}
       gone == IF free THEN dead ELSE {}
   IN [st EXCEPT
         !.live = [p \in Peers |->
                     IF p \in gone /\ ~st.dsdown THEN Live0
                     ELSE IF p \in Known(st) /\ Age(st, p) = Zero THEN [@[p] EXCEPT !.age = IntervalOf(p)]
                     ELSE IF p \in quiet THEN [@[p] EXCEPT !.act = FALSE]
                     ELSE @[p]],
         !.reg = [p \in Peers |-> IF p \in gone /\ ~st.dsdown THEN NoReg ELSE @[p]],
         !.stored = [p \in Peers |-> IF p \in gone /\ ~st.dsdown THEN NoReg ELSE @[p]],
         !.chan = IF free /\ due # {} THEN [who |-> due, del |-> dead # {}] ELSE @]

Elapse(st, d) ==
   LET st1 == [st EXCEPT
         !.live = [p \in Peers |-> [@[p] EXCEPT !.age = IF @ = Zero THEN @ ELSE IF @ + d > MaxAge THEN MaxAge ELSE @ + d]],
         !.disc = [x \in DiscAddrs |-> [@[x] EXCEPT !.age = IF @ = Zero THEN @ ELSE IF @ + d > MaxAge THEN MaxAge ELSE @ + d]],
         !.phase = (@ + d) % Period]
   IN IF st.phase + d >= Period THEN Poll(st1) ELSE st1

(***************************************************************************)
(* Projection and steps                                                    *)
(***************************************************************************)
Show(st) == [ reg    |-> [p \in Peers |-> st.reg[p] @@ [act |-> st.live[p].act]],
              stored |-> st.stored,
              allow  |-> [p \in Peers |-> Allowed(st, p)],
              pub    |-> TLCEval({<<a, b>> \in Peers \X Peers : MayPublish(st, a, b)}) ]

Step(st, rec) == /\ s' = st
                 /\ hist' = Append(hist, rec @@ [exp |-> Show(st)])
Do(x, rec) == Step(x.st, rec @@ [res |-> x.res])

Choice(S) == IF Sample = 0 \/ Cardinality(S) <= Sample THEN S ELSE RandomSubset(Sample, S)
PubAddr(pub) == IF pub = None THEN {None} ELSE Addrs
Bool(b) == IF b THEN "true" ELSE "false"

RegArgs == {x \in Peers \X (Addrs \union {None}) \X (Peers \union {None}) \X (Addrs \union {None}) :
              x[4] \in PubAddr(x[3]) /\ (x[3] # None => "regpub" \in Ops)}
DoRegister == /\ "register" \in Ops
              /\ \E x \in Choice(RegArgs) :
                   Do(Register(s, x[1], x[2], x[3], x[4]), [op |-> "register", prov |-> x[1], addr |-> x[2], pub |-> x[3], paddr |-> x[4]])

UpdArgs == {x \in Peers \X (Addrs \union {None, "bad"}) \X (AdIds \union {None}) \X (Peers \union {None}) \X (Addrs \union {None}) :
              (x[4] = None => x[5] = None) /\ (x[2] = "bad" => "bad" \in Ops)}
DoUpdate == /\ "update" \in Ops
            /\ \E x \in Choice(UpdArgs) :
                 Do(Update(s, x[1], x[2], x[3], x[4], x[5]), [op |-> "update", prov |-> x[1], addr |-> x[2], ad |-> x[3], pub |-> x[4], paddr |-> x[5]])

DoSaw == /\ "saw" \in Ops
         /\ \E p \in Peers : Step([s EXCEPT !.live[p] = IF s.reg[p].reg THEN [age |-> 0, act |-> TRUE] ELSE @],
                                  [op |-> "saw", prov |-> p, res |-> None])

DoRemove == /\ "remove" \in Ops /\ s.chan.who = {}
            /\ \E p \in Peers : Do(RemoveProv(s, p), [op |-> "remove", prov |-> p])

DoRestart == /\ "restart" \in Ops
             /\ hist # <<>> /\ hist[Len(hist)].op # "restart"
             /\ \A d \in DiscAddrs : s.disc[d].run = None
             /\ Step(Restart(s), [op |-> "restart", res |-> None])

DoAllow == /\ "allow" \in Ops
           /\ \E p \in Peers, on \in BOOLEAN :
                LET exc == TLCEval(IF on # s.allow.def THEN s.allow.exc \union {p} ELSE s.allow.exc \ {p}) IN
                Step([s EXCEPT !.allow.exc = exc],
                     [op |-> "allow", peer |-> p, on |-> on, res |-> Bool(exc # s.allow.exc)])

DoPolicy == /\ "policy" \in Ops
            /\ \E x \in Choice(AllowDefs \X (SUBSET Peers) \X PubDefs \X (SUBSET Peers)) : LET d == x[1] e == x[2] pd == x[3] pe == x[4] IN
                 Step([s EXCEPT !.allow = [def |-> d, exc |-> e], !.pubpol = [def |-> pd, exc |-> pe]],
                      [op |-> "policy", def |-> d, exc |-> e, pdef |-> pd, pexc |-> pe, bad |-> None, res |-> "ok"])
BadPolicy == /\ "policy" \in Ops
             /\ \E d \in AllowDefs, pd \in PubDefs, w \in {"allow", "publish"} :
                  Step(s, [op |-> "policy", def |-> d, exc |-> {}, pdef |-> pd, pexc |-> {}, bad |-> w, res |-> "err"])

DsDown == /\ "dsdown" \in Ops
          /\ Step([s EXCEPT !.dsdown = ~@], [op |-> "dsdown", on |-> ~s.dsdown, res |-> None])

\* With several notices due in one round only one is sure to be delivered: which provider is
\* removed is then open, and such rounds are left out.
Wait == /\ "wait" \in Ops
        /\ \E d \in {1, Period - s.phase} :
             LET st1 == [s EXCEPT !.live = [p \in Peers |-> [@[p] EXCEPT !.age = IF @ = Zero THEN @ ELSE @ + d]]]
                 x == Elapse(s, d) IN
             /\ s.phase + d >= Period => (Dead(st1) = {} \/ Cardinality(Due(st1)) <= 1)
             /\ Step(x, [op |-> "wait", d |-> d, res |-> None])

\* the ingester takes the notices that are waiting
Drain == /\ "wait" \in Ops
         /\ s.chan.who # {}
         /\ Step([s EXCEPT !.chan = [who |-> {}, del |-> FALSE]],
                 [op |-> "drain", who |-> s.chan.who, del |-> s.chan.del, res |-> None])

DiscStart == /\ "discover" \in Ops
             /\ \E p \in Peers, d \in DiscAddrs :
                  LET ok == /\ Allowed(s, p) /\ s.disc[d].run = None
                            /\ (s.disc[d].age = Zero \/ s.disc[d].age >= Rewait) IN
                  Step(IF ok THEN [s EXCEPT !.disc[d] = [run |-> p, age |-> Zero]] ELSE s,
                       [op |-> "discover", prov |-> p, disc |-> d, res |-> IF ok THEN "started" ELSE "err"])

DiscEnd == /\ "discover" \in Ops
           /\ \E d \in DiscAddrs : s.disc[d].run # None /\ \E a \in Addrs \union {None} :
                LET p == s.disc[d].run
                    st1 == [s EXCEPT !.disc[d] = [run |-> None, age |-> 0]]
                    x == IF a = None THEN [st |-> st1, res |-> "err"]
                         ELSE Store(st1, p, [NoReg EXCEPT !.reg = TRUE, !.addr = a, !.disc = d], Live0, TRUE)
                IN Do(x, [op |-> "discend", disc |-> d, prov |-> p, addr |-> a])

\* import from another indexer, which lists the providers of L, each with a publisher
ImpLists == LET I == Peers \X (Peers \union {None}) IN {L \in {{x, y} : x \in I, y \in I} : \A x, y \in L : x[1] = y[1] => x = y}
Import == /\ "import" \in Ops
          /\ s.chan.who = {}
          /\ \E L \in Choice(ImpLists) :
                  LET Rec(x) == LET pub == IF x[2] = None THEN x[1] ELSE x[2] IN
                         [NoReg EXCEPT !.reg = TRUE, !.addr = "imp", !.pub = pub, !.paddr = IF x[2] = None THEN "imp" ELSE "imppub"]
                      New == {x \in L : ~s.reg[x[1]].reg /\ RegOK(s, x[1], Rec(x)) /\ ~s.dsdown}
                      Of(p) == CHOOSE x \in New : x[1] = p
                      NP == TLCEval({x[1] : x \in New})
                      st == [s EXCEPT !.reg = [p \in Peers |-> IF p \in NP THEN Rec(Of(p)) ELSE @[p]],
                                      !.stored = [p \in Peers |-> IF p \in NP THEN Rec(Of(p)) ELSE @[p]],
                                      !.live = [p \in Peers |-> IF p \in NP THEN Live0 ELSE @[p]]]
                  IN Step(st, [op |-> "import", list |-> L, new |-> TLCEval(NP), res |-> "ok"])

\* print complete behaviours (simulation)
Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps

Init == s = Init0 /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ DoRegister)
        \/ (More /\ DoUpdate)
        \/ (More /\ DoSaw)
        \/ (More /\ DoRemove)
        \/ (More /\ DoRestart)
        \/ (More /\ DoAllow)
        \/ (More /\ DoPolicy)
        \/ (More /\ BadPolicy)
        \/ (More /\ DsDown)
        \/ (More /\ Wait)
        \/ (More /\ Drain)
        \/ (More /\ DiscStart)
        \/ (More /\ DiscEnd)
        \/ (More /\ Import)
Spec == Init /\ [][Next]_vars

View == s
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
\* C08: what is reported is what is stored
Durable == \A p \in Peers : s.reg[p].reg => s.reg[p] = s.stored[p]
\* C10: hidden providers stay registered, and only providers with a publisher are hidden
HiddenKept == \A p \in Peers : ~s.live[p].act => s.reg[p].reg /\ s.reg[p].pub # None
\* C19: discovery state is consistent
DiscOK == \A d \in DiscAddrs : s.disc[d].run # None => s.disc[d].age = Zero

\* C07: nothing becomes registered while it is not allowed
NewAllowed == [][\A p \in Peers : (~s.reg[p].reg /\ s'.reg[p].reg) =>
                    /\ Allowed(s, p)
                    /\ (hist'[Len(hist')].op # "restart" /\ s'.reg[p].pub \notin {None, p})
                          => Allowed(s, s'.reg[p].pub) /\ MayPublish(s, s'.reg[p].pub, p)]_vars
=============================================================================
