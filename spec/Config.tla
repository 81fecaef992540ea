------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The configuration file: what loading, saving and upgrading do to each   *)
(* setting, for every combination of settings that are present, absent or  *)
(* zero in the file.                                                 C18   *)
(*                                                                         *)
(* A file gives every setting one of                                       *)
(*    absent   the setting is not in the file                              *)
(*    zero     it is there with its zero value (0, "", false, empty)       *)
(*    def      it is there with the default written out                    *)
(*    c1, c2   it is there with some other value                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS ZD,        \* settings for which the zero value stands for the default
          ZV,        \* settings for which zero is a value of its own
          Custom,    \* {"c1", "c2"}
          Bad,       \* ways in which a file can be unusable
          Ops, MaxSteps, Wild, EmitMod

VARIABLES file, mem, backup, hist
vars == <<file, mem, backup, hist>>

Burst == "Ingest.RateLimit.BurstSize"   \* zero: derived from the rate
Level == "Logging.Level"
Loggers == "Logging.Loggers"
Ver == "Version"
Ident == {"Identity.PeerID", "Identity.PrivKey"}
Special == {Burst, Level, Loggers, Ver}
Fields == ZD \union ZV \union Special
None == [f \in Fields |-> "none"]

States == {"absent", "zero", "def"} \union Custom

\* the value a setting has after a file has been loaded
Loaded(f, s) ==
   IF f[s] = "absent" THEN (IF s = Ver THEN "zero" ELSE "def")
   ELSE IF f[s] # "zero" THEN f[s]
   ELSE IF s \in ZD \union {Level} THEN "def"
   ELSE IF s = Burst THEN "rate"
   ELSE IF s = Loggers /\ f[Level] = "zero" THEN "def"   \* nothing was said about logging at all
   ELSE "zero"
Load(f) == [s \in Fields |-> Loaded(f, s)]
\* a file that has been written from memory: everything is in it
Saved(m) == m

Kind(f) == IF "bad" \in DOMAIN f THEN f["bad"] ELSE "ok"
Broken(w) == [bad |-> w]
Gone == Broken("missing")

Step(f, m, b, rec) == /\ file' = f /\ mem' = m /\ backup' = b
                      /\ hist' = Append(hist, rec @@ [exp |-> [file |-> TLCEval(f), mem |-> TLCEval(m), backup |-> TLCEval(b)]])

\* somebody writes a file
Put(f) == Step(f, mem, backup, [op |-> "write", res |-> "ok"])
RFile(n) == [s \in Fields |-> RandomElement(States)]
Write == "write" \in Ops /\ (Wild \/ hist = <<>>) /\ IF Wild THEN Put(TLCEval(RFile(Len(hist)))) ELSE \E f \in [Fields -> States] : Put(f)
\* ... or changes one setting in it, or makes it unusable
Edit == /\ "edit" \in Ops /\ Kind(file) = "ok"
        /\ \E s \in (IF Wild THEN {RandomElement(Fields)} ELSE Fields), v \in (IF Wild THEN {RandomElement(States)} ELSE States) :
              Step([file EXCEPT ![s] = v], mem, backup, [op |-> "write", res |-> "ok"])
Spoil == "spoil" \in Ops /\ \E w \in Bad : Step(Broken(w), mem, backup, [op |-> "spoil", res |-> w])

LoadIt == /\ "load" \in Ops
          /\ IF Kind(file) = "ok" THEN Step(file, Load(file), backup, [op |-> "load", res |-> "ok"])
             ELSE Step(file, mem, backup, [op |-> "load", res |-> Kind(file)])
\* a setting is changed in memory
Set == /\ "set" \in Ops /\ mem # None
       /\ \E s \in (IF Wild THEN {RandomElement(Fields)} ELSE Fields), v \in {"zero"} \union Custom :
             Step(file, [mem EXCEPT ![s] = v], backup, [op |-> "set", res |-> "ok"])
SaveIt == /\ "save" \in Ops /\ mem # None /\ Kind(file) # "dir"
          /\ Step(Saved(mem), mem, backup, [op |-> "save", res |-> "ok"])
\* loads the file, keeps it under another name and writes it with every setting spelled out
Upgrade == /\ "upgrade" \in Ops
           /\ IF Kind(file) = "ok"
              THEN LET m == [Load(file) EXCEPT ![Ver] = "def"] IN
                   Step(Saved(m), m, file, [op |-> "upgrade", res |-> "ok"])
              ELSE Step(file, mem, backup, [op |-> "upgrade", res |-> Kind(file)])
\* a new file with defaults, only if there is none
InitIt == /\ "init" \in Ops
          /\ IF Kind(file) = "missing"
             THEN LET m == [s \in Fields |-> IF s \in Ident THEN "gen" ELSE "def"] IN Step(Saved(m), mem, backup, [op |-> "init", res |-> "ok"])
             ELSE Step(file, mem, backup, [op |-> "init", res |-> "exists"])

Fin == EmitMod = 0 /\ Len(hist) = MaxSteps /\ PrintT("TRACE " \o ToJson(hist)) /\ UNCHANGED vars
More == Len(hist) < MaxSteps
Init == file = Gone /\ mem = None /\ backup = Gone /\ hist = <<>>
Next == \/ Fin
        \/ (More /\ Write)
        \/ (More /\ Edit)
        \/ (More /\ Spoil)
        \/ (More /\ LoadIt)
        \/ (More /\ Set)
        \/ (More /\ SaveIt)
        \/ (More /\ Upgrade)
        \/ (More /\ InitIt)
Spec == Init /\ [][Next]_vars
View == <<file, mem, backup>>
EmitEdge == (EmitMod = 1 \/ RandomElement(1..EmitMod) = 1) => PrintT("TRACE " \o ToJson(hist'))

\* C18
RoundTrip == (mem # None /\ \A s \in ZD \union Special : mem[s] # "zero") => Load(Saved(mem)) = [s \in Fields |-> mem[s]]
Keeps == [][LET r == hist'[Len(hist')] IN
              /\ (r.op \in {"load", "upgrade"} /\ r.res = "ok" =>
                    \A s \in Fields \ {Ver} : (file[s] \notin {"absent", "zero"} => mem'[s] = file[s]) /\ (file[s] = "absent" => mem'[s] = "def"))
              /\ (r.op = "upgrade" /\ r.res = "ok" => \A s \in Fields \ {Ver} : Load(file')[s] = Load(file)[s])
              /\ (r.res \notin {"ok"} /\ r.op # "spoil" => file' = file /\ mem' = mem)]_vars
=============================================================================
