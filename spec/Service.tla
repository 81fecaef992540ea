------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* The front ends: signed requests of providers (register, discover, index *)
(* content) and lookups through every query interface, on top of the       *)
(* registry (Registry.tla, whose state s this module shares) and the index.*)
(* The index is abstract: <<multihash, provider, context>> entries and the *)
(* metadata of each provider context.                                      *)
(***************************************************************************)
EXTENDS Registry

CONSTANTS Ctxs, Labels, Mds,
          MaxReq,     \* length of a lookup
          Signers,    \* who may sign requests besides the provider
          Defects,    \* what may be wrong with a request
          Kinds,      \* kinds of requests
          Limit       \* units after which a sequence number is too old

VARIABLE x
svars == <<s, hist, x>>

X0 == [ idx  |-> {}, md |-> [e \in Peers \X Ctxs |-> None],
        down |-> FALSE,                    \* the value store refuses reads
        now  |-> 10,
        last |-> [p \in Peers |-> 0],      \* highest sequence number accepted
        used |-> [p \in Peers |-> 0] ]     \* highest sequence number that may count as used

SShow(st, y) == Show(st) @@ [idx |-> TLCEval({<<e[1], e[2], e[3], y.md[<<e[2], e[3]>>]>> : e \in y.idx})]
SStep(st, y, rec) == /\ s' = st /\ x' = y
                     /\ hist' = Append(hist, rec @@ [exp |-> SShow(st, y)])

(***************************************************************************)
(* Index                                                                   *)
(***************************************************************************)
PutIdx(y, p, c, m, L) == [y EXCEPT !.idx = @ \union {<<l, p, c>> : l \in L}, !.md[<<p, c>>] = m]
Put == /\ "put" \in Ops
       /\ \E z \in Choice(Peers \X Ctxs \X Mds \X (SUBSET Labels \ {{}})) :
            SStep(s, PutIdx(x, z[1], z[2], z[3], z[4]), [op |-> "put", prov |-> z[1], ctx |-> z[2], md |-> z[3], labels |-> z[4], res |-> "ok"])
Drop(y, E) == [y EXCEPT !.idx = {e \in @ : <<e[2], e[3]>> \notin E}, !.md = [e \in Peers \X Ctxs |-> IF e \in E THEN None ELSE @[e]]]
Del == /\ "del" \in Ops
       /\ \E e \in Peers \X Ctxs : x.md[e] # None /\ SStep(s, Drop(x, {e}), [op |-> "del", prov |-> e[1], ctx |-> e[2], res |-> "ok"])
IdxDown == /\ "idxdown" \in Ops
           /\ SStep(s, [x EXCEPT !.down = ~@], [op |-> "idxdown", on |-> ~x.down, res |-> None])

(***************************************************************************)
(* Lookups: the same answer through every interface.  C11, C12             *)
(***************************************************************************)
Visible(st, p) == st.reg[p].reg /\ st.live[p].act
Answer(l) == {[prov |-> e[2], ctx |-> e[3], md |-> x.md[<<e[2], e[3]>>], addr |-> s.reg[e[2]].addr] : e \in {f \in x.idx : f[1] = l /\ Visible(s, f[2])}}
Gone(q) == {<<e[2], e[3]>> : e \in {f \in x.idx : ~s.reg[f[2]].reg /\ \E i \in DOMAIN q : q[i] = f[1]}}
Queries == UNION {[1..n -> Labels \union {"unknown"}] : n \in 1..MaxReq}
Lookup == /\ "lookup" \in Ops
          /\ \E q \in Choice(Queries) :
               LET A == [i \in DOMAIN q |-> TLCEval(Answer(q[i]))] IN
               IF x.down THEN SStep(s, x, [op |-> "lookup", q |-> q, ans |-> <<>>, res |-> "err"])
               ELSE SStep(s, Drop(x, Gone(q)), [op |-> "lookup", q |-> q, ans |-> A, res |-> "ok"])
\* requests that are not well-formed are refused and change nothing
Malformed == /\ "malformed" \in Ops
             /\ \E k \in {"multihash", "cid", "batch", "provider", "message", "type", "reframe"} :
                  SStep(s, x, [op |-> "malformed", kind |-> k, res |-> "err"])

(***************************************************************************)
(* Signed requests.  C06                                                   *)
(***************************************************************************)
\* sequence numbers are times: 10 * unit + something to tell them apart
Fresh(p) == LET n == x.now * 10 IN IF x.used[p] >= n THEN x.used[p] + 1 ELSE n
SeqsOf(p) == {n \in {Fresh(p), x.last[p], x.last[p] - 1, x.now * 10 - 10 * Limit + 1, x.now * 10 - 10 * Limit - 1} :
                 n > 0 /\ n # (x.now - Limit) * 10 /\ ~(x.last[p] < n /\ n <= x.used[p])}
Recent(n) == n > (x.now - Limit) * 10
Authentic(r) == r.defect = None /\ r.signer = r.prov
Good(r) == Authentic(r) /\ Recent(r.seq) /\ r.seq > x.last[r.prov]
Vias(k) == IF k = "index" THEN {"p2p"} ELSE {"http", "p2p"}
\* problems that only some requests can have; the others are in the envelope
OnlyIndex == {"longctx", "longmd", "badaddr"}
Reqs == {r \in [kind : Kinds, prov : Peers, signer : Peers \union Signers, defect : Defects \union {None}, addr : Addrs \union {None},
                ctx : Ctxs, md : Mds, label : Labels, disc : DiscAddrs, seq : UNION {SeqsOf(p) : p \in Peers}, via : {"http", "p2p"}] :
           /\ r.seq \in SeqsOf(r.prov)
           /\ r.signer = r.prov \/ r.signer \in Signers
           /\ r.via \in Vias(r.kind)
           /\ r.defect \in OnlyIndex => r.kind = "index"}
NoEffect(r, cons) == [st |-> s, y |-> IF cons /\ r.seq > x.used[r.prov] THEN [x EXCEPT !.used[r.prov] = r.seq] ELSE x, res |-> "err"]
Accept(y, r) == [y EXCEPT !.last[r.prov] = r.seq, !.used[r.prov] = r.seq]
Effect(r) ==
   IF ~Good(r) THEN NoEffect(r, r.defect \in OnlyIndex /\ r.signer = r.prov)
   ELSE CASE r.kind = "register" -> LET z == Register(s, r.prov, r.addr, None, None) IN
                                    IF z.res = "ok" THEN [st |-> z.st, y |-> Accept(x, r), res |-> "ok"] ELSE NoEffect(r, TRUE)
          [] r.kind = "index" -> LET z == Update(s, r.prov, r.addr, None, None, None) IN
                                 IF z.res = "ok" THEN [st |-> z.st, y |-> Accept(PutIdx(x, r.prov, r.ctx, r.md, {r.label}), r), res |-> "ok"]
                                 ELSE NoEffect(r, TRUE)
          [] r.kind = "discover" ->
                LET d == r.disc
                    ok == s.disc[d].run = None /\ (s.disc[d].age = Zero \/ s.disc[d].age >= Rewait) IN
                IF ~Allowed(s, r.prov) THEN NoEffect(r, TRUE)
                ELSE [st |-> IF ok THEN [s EXCEPT !.disc[d] = [run |-> r.prov, age |-> Zero]] ELSE s, y |-> Accept(x, r), res |-> "ok"]
          [] OTHER -> NoEffect(r, TRUE)
Request == /\ "request" \in Ops
           /\ \E k \in Kinds, p \in Peers :
                \E r \in (IF Sample = 0 THEN {r \in Reqs : r.kind = k /\ r.prov = p}
                          ELSE { LET def == RandomElement(Defects \union {None}) sg == RandomElement(Signers \union {p}) IN
                                 [kind |-> k, prov |-> p,
                                  signer |-> IF i % 2 = 0 THEN p ELSE sg,
                                  defect |-> IF i % 2 = 0 \/ (def \in OnlyIndex /\ k # "index") THEN None ELSE def,
                                  addr |-> RandomElement(Addrs \union {None}), ctx |-> RandomElement(Ctxs), md |-> RandomElement(Mds),
                                  label |-> RandomElement(Labels), disc |-> RandomElement(DiscAddrs),
                                  seq |-> RandomElement(SeqsOf(p)), via |-> RandomElement(Vias(k))] : i \in 1..Sample}) :
                  LET e == Effect(r) IN
                  SStep(e.st, e.y, [op |-> "request", res |-> e.res,
                                    started |-> r.kind = "discover" /\ e.st # s] @@ r)
\* taking a provider's registration back is not offered to providers
Unregister == /\ "request" \in Ops
              /\ \E p \in Peers, v \in {"http", "p2p"} : SStep(s, x, [op |-> "unregister", prov |-> p, via |-> v, res |-> "err"])

Same(A) == A /\ x' = x
SWait == Wait /\ x' = [x EXCEPT !.now = @ + hist'[Len(hist')].d]
SRestart == DoRestart /\ x' = [x EXCEPT !.last = [p \in Peers |-> 0], !.used = [p \in Peers |-> 0], !.down = FALSE]

SFin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED svars
SInit == Init /\ x = X0
SNext == \/ SFin
         \/ (More /\ Put)
         \/ (More /\ Del)
         \/ (More /\ IdxDown)
         \/ (More /\ Lookup)
         \/ (More /\ Malformed)
         \/ (More /\ Request)
         \/ (More /\ Unregister)
         \/ (More /\ Same(DoRegister))
         \/ (More /\ Same(DoUpdate))
         \/ (More /\ Same(DoSaw))
         \/ (More /\ Same(DoRemove))
         \/ (More /\ SRestart)
         \/ (More /\ Same(DoAllow))
         \/ (More /\ SWait)
         \/ (More /\ Same(Drain))
         \/ (More /\ Same(DiscStart))
         \/ (More /\ Same(DiscEnd))
SSpec == SInit /\ [][SNext]_svars
SView == <<s, x>>

(***************************************************************************)
(* Properties of the specification                                         *)
(***************************************************************************)
\* C06: sequence numbers accepted from a provider only grow while the indexer runs, and only authentic, recent requests take effect
SeqGrow == [][(hist'[Len(hist')].op # "restart") => \A p \in Peers : x'.last[p] >= x.last[p]]_svars
Authed == [][LET r == hist'[Len(hist')] IN r.op = "request" /\ (s' # s \/ x'.idx # x.idx \/ x'.md # x.md)
               => r.signer = r.prov /\ r.defect = None /\ r.seq > x.last[r.prov] /\ Recent(r.seq)
                  /\ \A p \in Peers : p # r.prov => s'.reg[p] = s.reg[p]]_svars
\* C11: a lookup changes nothing but the content of providers that are not registered
Harmless == [][LET r == hist'[Len(hist')] IN r.op = "lookup" =>
                 s' = s /\ \A e \in x.idx : s.reg[e[2]].reg => e \in x'.idx /\ x'.md[<<e[2], e[3]>>] = x.md[<<e[2], e[3]>>]]_svars
IdxMd == \A e \in x.idx : x.md[<<e[2], e[3]>>] # None
=============================================================================
