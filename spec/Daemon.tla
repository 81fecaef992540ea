------------------------------- MODULE Daemon -------------------------------
(***************************************************************************)
(* The daemon as a process: which servers a configuration and flags start, *)
(* editing and reloading the configuration, admin decisions, stopping and  *)
(* killing it, and what is still there afterwards.             C18, C21    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Peers, Labels,
          Bads,        \* ways in which a configuration can be unusable
          P2PBads,     \* ... that matter only with libp2p hosting
          Mild,        \* ... that a starting daemon only complains about
          Vias,        \* ways of asking for a reload
          FreeServers, \* may servers be turned off?
          MaxAds,      \* advertisements of the publisher
          Ops, MaxSteps, EmitMod

\* ads: how many advertisements are published, were ever asked for, are in the
\* index, and are there for good
VARIABLES file, run, prov, idx, ads, hist
vars == <<file, run, prov, idx, ads, hist>>

Servers == {"admin", "finder", "ingest", "p2p"}
None == "none"
Pick(S) == {RandomElement(S)}

Files(h) == [off : IF FreeServers THEN Pick(SUBSET Servers) \union {{}} ELSE {{}}, allow : Pick(BOOLEAN), exc : Pick(SUBSET Peers), lvl : Pick({"info", "error"}),
             intv : Pick({"fast", "slow"}), peering : Pick(BOOLEAN), bad : Pick({None} \union Bads)]
Down == [up |-> FALSE, on |-> {}, allow |-> FALSE, exc |-> {}, lvl |-> None, intv |-> None, watch |-> FALSE, peering |-> None, known |-> {}]
Allowed(r, p) == IF r.allow THEN p \notin r.exc ELSE p \in r.exc
Usable(f, on) == f.bad = None \/ (f.bad \in P2PBads /\ "p2p" \notin on)

\* Every step ends with each peer trying to register, if there is where to.
\* The owner of imported content is always allowed.
Owner == "o"
Regs(r) == IF r.up /\ "ingest" \in r.on THEN {Owner} \union {p \in Peers : Allowed(r, p)} ELSE {}
StepA(f, r, pr, ix, ad, rec) ==
   LET r2 == [r EXCEPT !.known = @ \union Regs(r)]
       pr2 == pr \union Regs(r) IN
   /\ file' = f /\ run' = r2 /\ prov' = pr2 /\ idx' = ix /\ ads' = ad
   /\ hist' = Append(hist, rec @@ [exp |-> [file |-> TLCEval(f), up |-> r2.up, on |-> TLCEval(r2.on), allowed |-> TLCEval({p \in Peers : Allowed(r2, p)}), known |-> TLCEval(r2.known),
                                            lvl |-> r2.lvl, peering |-> r2.peering, must |-> TLCEval(ix.saved \union (IF r2.up THEN ix.fresh ELSE {})), may |-> TLCEval(ix.maybe), ads |-> TLCEval(ad)]])
Step(f, r, pr, ix, rec) == StepA(f, r, pr, ix, ads, rec)
Max(a, b) == IF a > b THEN a ELSE b

\* what a configuration asks of a running daemon
Apply(r, f) == [r EXCEPT !.allow = f.allow, !.exc = f.exc, !.lvl = f.lvl, !.intv = f.intv,
                         !.peering = IF f.peering /\ "p2p" \in r.on THEN "yes" ELSE IF r.peering = "no" THEN "no" ELSE "was"]
\* a watched file is applied on its own
Watched(r, f) == IF r.up /\ r.watch /\ r.intv = "fast" /\ Usable(f, r.on) THEN Apply(r, f) ELSE r

Edit == /\ "edit" \in Ops
        /\ \E f \in Files(Len(hist)) : Step(f, Watched(run, f), prov, idx, [op |-> "edit", via |-> None, res |-> "ok", arg |-> None])
\* start with some servers turned off by flags
Start == /\ "start" \in Ops /\ ~run.up
         /\ \E noflags \in (IF FreeServers THEN Pick(SUBSET Servers) \union {{}} ELSE {{}}), w \in BOOLEAN :
            LET on == (Servers \ file.off) \ noflags
                r == Apply([Down EXCEPT !.up = TRUE, !.on = on, !.watch = w, !.peering = "no"], file)
                ok == Usable(file, on) \/ file.bad \in Mild IN
            StepA(file, IF ok THEN [r EXCEPT !.known = {p \in prov : p = Owner \/ Allowed(r, p)}] ELSE Down, prov, idx, [ads EXCEPT !.got = ads.sure],
                 [op |-> "start", via |-> None, res |-> IF ok THEN "ok" ELSE "err", arg |-> [flags |-> TLCEval(noflags), watch |-> w]])
\* what stays after the process was stopped, or killed
Kept(how) == IF how = "stop" THEN [saved |-> idx.saved \union idx.fresh, fresh |-> {}, maybe |-> idx.maybe]
             ELSE [saved |-> idx.saved, fresh |-> {}, maybe |-> (idx.maybe \union idx.fresh) \ idx.saved]
\* (the latest advertisement can be found slightly before it is there for good)
Left(a, how) == [a EXCEPT !.sure = Max(@, IF how = "stop" \/ a.got = 0 THEN a.got ELSE a.got - 1), !.got = 0]
End == \E how \in {"stop", "kill"} : /\ how \in Ops /\ run.up
           /\ StepA(file, Down, prov, Kept(how), Left(ads, how), [op |-> how, via |-> None, res |-> "ok", arg |-> None])
\* a publisher publishes, and is asked for what it published
Publish == /\ "publish" \in Ops /\ ads.n < MaxAds
           /\ \E k \in Pick(1..(MaxAds - ads.n)) : StepA(file, run, prov, idx, [ads EXCEPT !.n = @ + k], [op |-> "publish", via |-> None, res |-> "ok", arg |-> k])
CanPull(v) == /\ run.up /\ "p2p" \in run.on /\ ads.n > 0
              /\ (IF v = "announce" THEN "ingest" ELSE "admin") \in run.on
Pull == /\ "pull" \in Ops /\ "finder" \in run.on
        /\ \E v \in {"sync", "resync", "announce", "cli"} : CanPull(v) /\ (v = "resync" => ads.got = ads.n)
              /\ StepA(file, run, prov, idx, [ads EXCEPT !.got = ads.n, !.tried = ads.n, !.sure = Max(@, ads.n - 1)], [op |-> "pull", via |-> v, res |-> "ok", arg |-> None])
\* the process ends in the middle of it
Cut == /\ "pull" \in Ops
       /\ \E v \in {"sync", "announce"}, how \in {"stop", "kill"} : how \in Ops /\ CanPull(v) /\ ads.got < ads.n
              /\ StepA(file, Down, prov, Kept(how), Left([ads EXCEPT !.tried = ads.n], how), [op |-> "cut", via |-> v, res |-> "ok", arg |-> how])
\* asked to reload, once or several times at once
Reload == /\ "reload" \in Ops /\ run.up
          /\ \E v \in Vias : /\ (v \in {"admin", "both", "cli"} => "admin" \in run.on)
                             /\ IF Usable(file, run.on) THEN Step(file, Apply(run, file), prov, idx, [op |-> "reload", via |-> v, res |-> "ok", arg |-> None])
                                ELSE Step(file, run, prov, idx, [op |-> "reload", via |-> v, res |-> "err", arg |-> None])
\* an operator's decision holds until the next reload
Admit == /\ "admit" \in Ops /\ run.up /\ "admin" \in run.on
         /\ \E p \in Peers, a \in BOOLEAN :
               Step(file, [run EXCEPT !.exc = IF a = run.allow THEN @ \ {p} ELSE @ \union {p}], prov, idx,
                    [op |-> IF a THEN "allow" ELSE "block", via |-> None, res |-> "ok", arg |-> p])
\* so does a log level
SetLevel == /\ "admit" \in Ops /\ run.up /\ "admin" \in run.on
            /\ \E l \in Pick({"info", "error"}) : Step(file, [run EXCEPT !.lvl = l], prov, idx, [op |-> "setlevel", via |-> None, res |-> "ok", arg |-> l])
Import == /\ "import" \in Ops /\ run.up /\ "admin" \in run.on /\ Owner \in run.known
          /\ \E l \in Pick(Labels) : Step(file, run, prov, [saved |-> idx.saved, fresh |-> idx.fresh \union {l}, maybe |-> idx.maybe \ {l}],
                                          [op |-> "import", via |-> None, res |-> "ok", arg |-> l])
\* without libp2p hosting nothing can be fetched from publishers
Fetch == /\ "fetch" \in Ops /\ run.up
         /\ \E w \in {"announce", "sync"}, p \in Pick(Peers) :
               /\ (IF w = "sync" THEN "admin" ELSE "ingest") \in run.on
               /\ (w = "sync" => "p2p" \notin run.on)
               /\ Step(file, run, prov, idx, [op |-> w, via |-> None, arg |-> p,
                       res |-> IF w = "announce" /\ ~Allowed(run, p) THEN "refused" ELSE IF w = "announce" /\ "p2p" \in run.on THEN "ok" ELSE "err"])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
First == [off |-> {}, allow |-> TRUE, exc |-> {}, lvl |-> "info", intv |-> "slow", peering |-> FALSE, bad |-> None]
Init == file = First /\ run = Down /\ prov = {} /\ ads = [n |-> 0, tried |-> 0, got |-> 0, sure |-> 0] /\ idx = [saved |-> {}, fresh |-> {}, maybe |-> {}] /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Edit)
        \/ (More /\ Start)
        \/ (More /\ End)
        \/ (More /\ Publish)
        \/ (More /\ Pull)
        \/ (More /\ Cut)
        \/ (More /\ Reload)
        \/ (More /\ Admit)
        \/ (More /\ SetLevel)
        \/ (More /\ Import)
        \/ (More /\ Fetch)
Spec == Init /\ [][Next]_vars
View == <<file, run, prov, idx, ads>>
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

\* C18/C21: a reload applies the whole configuration or nothing; nothing durable is lost
AllOrNothing == [][LET r == hist'[Len(hist')] IN r.op = "reload" =>
                      IF r.res = "ok" THEN run'.allow = file.allow /\ run'.exc = file.exc /\ run'.lvl = file.lvl
                      ELSE run'.allow = run.allow /\ run'.exc = run.exc /\ run'.lvl = run.lvl]_vars
Lasting == [][prov \subseteq prov' /\ idx.saved \subseteq idx'.saved /\ ads.sure <= ads'.sure]_vars
AdsOK == ads.sure <= ads.tried /\ ads.got <= ads.tried /\ ads.tried <= ads.n /\ (run.up => ads.sure <= ads.got)
KnownOK == run.up => run.known \subseteq prov
=============================================================================
