------------------------------- MODULE Import -------------------------------
(***************************************************************************)
(* Bulk import of CID lists and aggregator manifests through the admin     *)
(* interface.  A file is a sequence of lines; the index afterwards holds   *)
(* exactly what was there plus the valid identifiers of the file.  C20     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS Provs, Ctxs, Mds,
          Labels,     \* identifiers
          Encs,       \* ways of writing an identifier down
          Junk,       \* kinds of lines that carry no identifier
          Bulks,      \* labels that stand for many identifiers, one per line
          MaxLines, MaxSteps, Formats, Ops, Sample, EmitMod

VARIABLES idx, md, hist
vars == <<idx, md, hist>>
None == "none"

Lines == [kind : {"ok"}, label : Labels, enc : Encs]
           \union [kind : {"bulk"}, label : Bulks, enc : {"v1"}]
           \union [kind : Junk, label : {None}, enc : {None}]
\* (operators with an argument: TLC evaluates the others once, before the run)
Files(k) == UNION {[1..n -> Lines] : n \in 0..k}
Good(f) == {f[i].label : i \in {j \in DOMAIN f : f[j].kind \in {"ok", "bulk"}}}

Show(i, m) == [idx |-> TLCEval({<<e[1], e[2], e[3], m[<<e[2], e[3]>>]>> : e \in i})]
Step(i, m, rec) == /\ idx' = i /\ md' = m
                   /\ hist' = Append(hist, rec @@ [exp |-> Show(i, m)])
Pick(S) == IF Sample = 0 THEN S ELSE {RandomElement(S)}
RLine(n) == LET k == RandomElement(1..5) IN
            IF k \in {1, 3} THEN RandomElement([kind : {"ok"}, label : Labels, enc : Encs])
            ELSE IF k \in {2, 4} THEN RandomElement([kind : Junk, label : {None}, enc : {None}])
            ELSE RandomElement([kind : {"bulk"}, label : Bulks, enc : {"v1"}])
RFiles(h) == {LET n == RandomElement(0..MaxLines) IN [i \in 1..n |-> RLine(i)] : k \in 1..Sample}

Do(f, fmt, p, c, m, fault, eol, fin) ==
   LET ok == fault = None /\ Good(f) # {} IN
   Step(IF fault = None THEN idx \union {<<l, p, c>> : l \in Good(f)} ELSE idx,
        IF ok THEN [md EXCEPT ![<<p, c>>] = m] ELSE md,
        [op |-> "import", fmt |-> fmt, lines |-> f, eol |-> eol, fin |-> fin, prov |-> p, ctx |-> c, md |-> m, fault |-> fault,
         res |-> IF ok THEN "ok" ELSE "err"])

Import == /\ "import" \in Ops
          /\ \E f \in (IF Sample = 0 THEN Files(MaxLines) ELSE RFiles(Len(hist))), fmt \in Pick(Formats), eol \in Pick({"lf", "crlf"}), fin \in Pick(BOOLEAN),
                p \in Pick(Provs), c \in Pick(Ctxs), m \in Pick(Mds) :
                Do(f, fmt, p, c, m, None, eol, fin)
\* the file cannot be read, the request lacks something, the index cannot be written
Fault == /\ "fault" \in Ops
         /\ \E w \in {"nofile", "dir", "noctx", "nomd", "noname", "badprov", "badjson", "idxdown"}, fmt \in Pick(Formats), p \in Pick(Provs),
                c \in Pick(Ctxs), l \in Pick(Labels) :
                Do(<<[kind |-> "ok", label |-> l, enc |-> "v1"]>>, fmt, p, c, CHOOSE m \in Mds : TRUE, w, "lf", TRUE)

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == idx = {} /\ md = [e \in Provs \X Ctxs |-> None] /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Import)
        \/ (More /\ Fault)
Spec == Init /\ [][Next]_vars
View == <<idx, md>>
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

\* C20: nothing is lost, nothing is added that the file does not list, failures change nothing
Exact == [][LET r == hist'[Len(hist')] IN
              /\ idx \subseteq idx'
              /\ \A e \in idx' \ idx : r.res = "ok" /\ e[1] \in Good(r.lines) /\ e[2] = r.prov /\ e[3] = r.ctx
              /\ r.res = "ok" => \A l \in Good(r.lines) : <<l, r.prov, r.ctx>> \in idx']_vars
=============================================================================
