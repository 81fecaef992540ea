--------------------------- MODULE RegistryTrace ---------------------------
(***************************************************************************)
(* Judges concurrent histories recorded from the real registry: is there   *)
(* an order of the operations, consistent with their real-time order, in   *)
(* which the sequential specification (Registry.tla) gives every operation *)
(* the result that was observed?  A history is accepted if TLC finds one.  *)
(***************************************************************************)
EXTENDS Registry

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, pend     \* trace, next event, operations begun and not returned
jvars == <<s, hist, t, l, pend>>

Ev == Traces[t].events
J0 == [Init0 EXCEPT !.allow = [def |-> TRUE, exc |-> {}], !.pubpol = [def |-> TRUE, exc |-> {}]]
Text(r) == IF ~r.reg THEN "-" ELSE r.addr \o "|" \o r.disc \o "|" \o r.pub \o "|" \o r.paddr \o "|" \o r.ad
Texts(f) == {p \o ":" \o Text(f[p]) : p \in {x \in Peers : f[x].reg}}
R(st, res) == [st |-> st, res |-> res, ph |-> 2]
SetOf(q) == {q[i] : i \in 1..Len(q)}

\* the effect of the next step of operation o: a new state, a result, and whether that was its last step
Eff(st, o) ==
   CASE o.op = "register" -> LET x == Register(st, o.prov, o.addr, o.pub, o.paddr) IN R(x.st, x.res)
     [] o.op = "update"   -> LET x == Update(st, o.prov, o.addr, o.ad, o.pub, o.paddr) IN R(x.st, x.res)
     [] o.op = "remove"   -> R([RemoveProv(st, o.prov).st EXCEPT !.chan = st.chan], "ok")
     [] o.op = "saw"      -> R(st, "ok")
     [] o.op = "info"     -> R(st, Text(st.reg[o.prov]))
     [] o.op = "isreg"    -> R(st, Bool(st.reg[o.prov].reg))
     [] o.op = "all"      -> R(st, Texts(st.reg))
     [] o.op = "stored"   -> R(st, Texts(st.stored))
     [] o.op = "allowed"  -> R(st, Bool(Allowed(st, o.peer)))
     [] o.op = "allow"    -> LET exc == IF o.on # st.allow.def THEN st.allow.exc \union {o.peer} ELSE st.allow.exc \ {o.peer} IN
                             R([st EXCEPT !.allow.exc = exc], Bool(exc # st.allow.exc))
     [] o.op = "policy"   -> R([st EXCEPT !.allow = [def |-> o.def, exc |-> SetOf(o.exc)], !.pubpol = [def |-> o.pdef, exc |-> SetOf(o.pexc)]], "ok")
     [] o.op = "discover" /\ o.ph = 0 -> IF Allowed(st, o.prov) THEN [st |-> st, res |-> None, ph |-> 1] ELSE R(st, "err")
     [] o.op = "discover" /\ o.ph = 1 -> IF st.disc[o.disc].run = None
                                         THEN [st |-> [st EXCEPT !.disc[o.disc].run = o.prov], res |-> None, ph |-> 3]
                                         ELSE R(st, "err")
     [] o.op = "discover" /\ o.ph = 3 ->
            LET x == Store([st EXCEPT !.disc[o.disc].run = None], o.prov, [NoReg EXCEPT !.reg = TRUE, !.addr = "d", !.disc = o.disc], Live0, TRUE)
            IN R(x.st, x.res)
     [] OTHER -> R(st, "unknown")

JInit == t \in 1..Len(Traces) /\ l = 1 /\ s = J0 /\ hist = <<>> /\ pend = <<>>
Match(o, res) == IF o.op \in {"all", "stored"} THEN SetOf(o.want) = res ELSE o.want = res

Call == /\ l <= Len(Ev) /\ Ev[l].e = "call"
        /\ pend' = Append(pend, Ev[l].o @@ [ph |-> 0, id |-> Ev[l].id, want |-> Ev[l].res])
        /\ l' = l + 1 /\ UNCHANGED <<s, hist, t>>
\* operations take effect no earlier than necessary: when the next event is the return of one that has not
Effect == /\ l <= Len(Ev) /\ Ev[l].e = "ret"
          /\ \E k \in 1..Len(pend) : pend[k].id = Ev[l].id /\ pend[k].ph # 2
          /\ \E k \in 1..Len(pend) : pend[k].ph # 2 /\
               LET x == Eff(s, pend[k]) IN
               /\ (x.ph = 2 => Match(pend[k], x.res))
               /\ s' = [x.st EXCEPT !.live = s.live]
               /\ pend' = [pend EXCEPT ![k].ph = x.ph]
          /\ UNCHANGED <<hist, t, l>>
Ret == /\ l <= Len(Ev) /\ Ev[l].e = "ret"
       /\ \E k \in 1..Len(pend) : /\ pend[k].id = Ev[l].id /\ pend[k].ph = 2
                                  /\ pend' = SubSeq(pend, 1, k - 1) \o SubSeq(pend, k + 1, Len(pend))
       /\ l' = l + 1 /\ UNCHANGED <<s, hist, t>>
       /\ (l' > Len(Ev)) => PrintT("ACCEPT " \o Traces[t].id)
JNext == Call \/ Effect \/ Ret
JSpec == JInit /\ [][JNext]_jvars
=============================================================================
