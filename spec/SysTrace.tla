------------------------------ MODULE SysTrace ------------------------------
(***************************************************************************)
(* Judges recordings of large compositions of real systems: their resource *)
(* checks, and their runs as sequences of starts and ends, each of which    *)
(* must be a transition of SysRun.                                         *)
(***************************************************************************)
EXTENDS SysRun, Json, IOUtils
VARIABLES i, j, plized
vars == <<tree, res, plan, st, i, j, plized>>
Rec == ndJsonDeserialize(IOEnv.TRACE)
x == Rec[i]

SetOf(s) == {s[k] : k \in 1..Len(s)}
R == IF Len(res) = 0 THEN {} ELSE 1..Len(res[1].r)
Bad(field, tags) == [field |-> field, tags |-> tags]
Good == Bad("", {})
Also22(t) == IF plized THEN t \cup {"C22"} ELSE t
Calm == plan.fail = {} /\ plan.panic = 0

U == UnionOf(Leaves, res, R)
JudgeCheck ==
    LET ok == Check(tree, res)
    IN IF x.panic THEN Bad("panic", Also22({"C19"}))
       ELSE IF x.ok # ok THEN Bad("ok", Also22({"C19"}))
       ELSE IF ok /\ (SetOf(x.reads) # {r \in R : U[r] = 1} \/ SetOf(x.writes) # {r \in R : U[r] = 2}) THEN Bad("resources", Also22({"C19"}))
       ELSE Good
JudgeGroups ==
    IF x.panic THEN Bad("panic", {"C22"})
    ELSE LET gs == Groups(x.res)
         IN IF Len(x.groups) = Len(gs) /\ \A g \in 1..Len(gs) : SetOf(x.groups[g]) = SetOf(gs[g]) /\ Len(x.groups[g]) = Len(gs[g])
            THEN Good ELSE Bad("groups", {"C22"})

(* what holds a system back that has started too early *)
RECURSIVE Holder(_, _)
Holder(t, l) ==  \* the leaves that should have ended well
    IF t.k = "leaf" THEN {}
    ELSE LET c == CHOOSE k \in 1..Len(t.xs) : l \in t.xs[k].ls
         IN (IF IsSeq(t) THEN UNION {{m \in t.xs[k].ls : st[m] # "ok"} : k \in 1..(c - 1)} ELSE {}) \cup Holder(t.xs[c], l)
JudgeStep ==
    LET e == x.log[j]
        l == IF e > 0 THEN e ELSE -e
    IN IF l \notin Leaves THEN Bad("a system that is not there", {"C20"})
       ELSE IF e < 0 THEN IF st[l] = "run" THEN Good ELSE Bad("ends without starting", {"C20"})
       ELSE IF st[l] # "idle" THEN Bad("runs twice", {"C20"})
       ELSE IF Ready(tree, l) THEN Good
       ELSE LET h == Holder(tree, l)
            IN IF \E m \in h : st[m] = "panic" THEN Bad("runs after a panic", {"C23"})
               ELSE IF \E m \in h : st[m] = "err" THEN Bad("runs after a failure", {"C21"})
               ELSE Bad("runs before what precedes it has ended", Also22({"C20"}))
NotRun == {l \in Leaves : st[l] = "idle"}
JudgeReturn ==
    IF x.bad # <<>> THEN Bad("arguments", {"C20"})
    ELSE IF ~Quiet THEN Bad("returns before its systems have ended", {"C20"})
    ELSE IF Panicking THEN IF x.panic THEN Good ELSE Bad("swallows a panic", {"C23"})
    ELSE IF x.panic THEN Bad("panic", IF Calm THEN {"C20", "C21"} ELSE {"C21"})
    ELSE IF ~Over(tree) THEN Bad("systems do not run", IF Calm THEN Also22({"C20"}) ELSE {"C21"})
    ELSE IF x.ok # Returned.ok THEN Bad("ok", {"C21"})
    ELSE IF x.errors # Returned.errors THEN Bad("errors", {"C21"})
    ELSE Good

Judge ==
    CASE x.o = "check" -> JudgeCheck
      [] x.o = "plize" -> JudgeGroups
      [] x.o = "run" /\ j \in 1..Len(x.log) -> JudgeStep
      [] x.o = "run" /\ j > Len(x.log) -> JudgeReturn
      [] OTHER -> Good

Show(b) == [tags |-> b.tags, at |-> i, field |-> b.field,
            want |-> IF x.o = "plize" THEN ToString(Groups(x.res))
                     ELSE IF x.o = "run" THEN ToString([st |-> st, returns |-> Returned]) ELSE ToString(Check(tree, res)),
            got |-> IF x.o = "run" THEN ToString([step |-> j, event |-> IF j \in 1..Len(x.log) THEN x.log[j] ELSE 0, panic |-> x.panic, ok |-> x.ok, errors |-> x.errors])
                    ELSE x.o]

Idle == [l \in Leaves |-> "idle"]
NoPlan == [fail |-> {}, panic |-> 0]
NewTree(t, r, p) ==
    /\ tree' = Ann(t) /\ res' = r /\ plized' = p
    /\ st' = [l \in tree'.ls |-> "idle"] /\ plan' = NoPlan
RECURSIVE NextNew(_)
NextNew(k) == IF k > Len(Rec) THEN k ELSE IF Rec[k].o \in {"sys", "plize"} THEN k ELSE NextNew(k + 1)
Step ==
    CASE x.o = "sys" -> NewTree(x.tree, x.res, FALSE) /\ i' = i + 1 /\ j' = 0
      [] x.o = "plize" -> NewTree(GroupTree(Groups(x.res)), x.res, TRUE) /\ i' = i + 1 /\ j' = 0
      [] x.o = "check" -> i' = i + 1 /\ j' = 0 /\ UNCHANGED <<tree, res, plan, st, plized>>
      [] x.o = "run" /\ j = 0 ->
            /\ plan' = [fail |-> SetOf(x.fail), panic |-> x.who]
            /\ st' = Idle /\ j' = 1 /\ UNCHANGED <<tree, res, i, plized>>
      [] x.o = "run" /\ j \in 1..Len(x.log) ->
            /\ IF x.log[j] > 0 THEN Start(x.log[j]) ELSE End(-x.log[j])
            /\ j' = j + 1 /\ UNCHANGED <<tree, res, plan, i, plized>>
      [] OTHER -> i' = i + 1 /\ j' = 0 /\ UNCHANGED <<tree, res, plan, st, plized>>

TInit == /\ tree = Ann([k |-> "seqlist", xs |-> <<>>]) /\ res = <<>> /\ plan = NoPlan /\ st = <<>>
         /\ i = 1 /\ j = 0 /\ plized = FALSE
TNext ==
    /\ i <= Len(Rec)
    /\ LET b == Judge
       IN IF b.tags # {}
          THEN \* the rest is judged too
               /\ PrintT("@B " \o ToJson(Show(b)))
               /\ UNCHANGED <<tree, res, plan, st, plized>>
               /\ i' = IF x.o = "plize" THEN NextNew(i + 1) ELSE i + 1
               /\ j' = 0
          ELSE Step
TSpec == TInit /\ [][TNext]_vars
Place == <<i, j>>
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Cardinality({k \in 1..Len(Rec) : Rec[k].o = "run"})]))
=============================================================================
