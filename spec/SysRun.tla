------------------------------- MODULE SysRun -------------------------------
(***************************************************************************)
(* A run of a composition of systems, in the open: which systems have       *)
(* started and ended, in what order, and how.  A system may start when      *)
(* everything before it in the sequences around it has ended well; nothing  *)
(* else holds it back.  Systems.tla gives the replies to a run as a whole;  *)
(* this module shows that they follow, and SysTrace.tla judges recorded     *)
(* runs with these transitions.                                            *)
(*                                                                         *)
(* Trees are annotated with the set of their leaves, t.ls.                  *)
(***************************************************************************)
EXTENDS SysTree, TLC
VARIABLES tree, res, plan, st
rvars == <<tree, res, plan, st>>

RECURSIVE Ann(_)
Ann(t) == IF t.k = "leaf" THEN [k |-> "leaf", n |-> t.n, ls |-> {t.n}]
          ELSE LET xs == [i \in 1..Len(t.xs) |-> Ann(t.xs[i])]
               IN [k |-> t.k, xs |-> xs, ls |-> UNION {xs[i].ls : i \in 1..Len(xs)}]

Leaves == tree.ls
Clean(t) == \A l \in t.ls : st[l] = "ok"
(* t has returned, with or without errors *)
RECURSIVE Over(_), Ready(_, _)
Over(t) ==
    IF t.k = "leaf" THEN st[t.n] \in {"ok", "err"}
    ELSE IF IsSeq(t)
    THEN \/ Clean(t)
         \/ \E i \in 1..Len(t.xs) : /\ \A j \in 1..(i - 1) : Clean(t.xs[j])
                                    /\ Over(t.xs[i]) /\ ~Clean(t.xs[i])
    ELSE \A i \in 1..Len(t.xs) : Over(t.xs[i])
(* nothing that precedes l in a sequence within t holds it back *)
Ready(t, l) ==
    IF t.k = "leaf" THEN TRUE
    ELSE \E i \in 1..Len(t.xs) :
         /\ l \in t.xs[i].ls
         /\ IsSeq(t) => \A j \in 1..(i - 1) : Clean(t.xs[j])
         /\ Ready(t.xs[i], l)

Outcome(l) == IF l = plan.panic THEN "panic" ELSE IF l \in plan.fail THEN "err" ELSE "ok"
MayStart(l) == l \in Leaves /\ st[l] = "idle" /\ Ready(tree, l)
MayEnd(l) == l \in Leaves /\ st[l] = "run"
Start(l) == MayStart(l) /\ st' = [st EXCEPT ![l] = "run"]
End(l) == MayEnd(l) /\ st' = [st EXCEPT ![l] = Outcome(l)]
Quiet == \A l \in Leaves : st[l] # "run"
Panicking == \E l \in Leaves : st[l] = "panic"

RECURSIVE Listed(_, _)
Listed(S, l) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN <<m>> \o Listed(S \ {m}, l)
(* leaves are numbered in composition order *)
Returned == [ok |-> \A l \in Leaves : st[l] # "err", errors |-> Listed({l \in Leaves : st[l] = "err"}, 0)]

-----------------------------------------------------------------------------
(* The model: every small tree, every set of failing systems or one that    *)
(* panics, every interleaving.                                             *)
CONSTANTS NMax, NRes, Panics
RECURSIVE Trees(_, _), Splits(_, _, _)
Splits(lo, hi, p) ==
    IF p = 1 THEN {<<t>> : t \in Trees(lo, hi)}
    ELSE UNION {{<<t>> \o s : t \in Trees(lo, m), s \in Splits(m + 1, hi, p - 1)} : m \in lo..(hi - p + 1)}
(* one kind of sequence and one of parallel group will do: they run alike *)
Trees(lo, hi) ==
    IF lo = hi THEN {[k |-> "leaf", n |-> lo]}
    ELSE UNION {{[k |-> k, xs |-> s] : k \in {"seqlist", "parlist"}, s \in Splits(lo, hi, p)} : p \in 2..(hi - lo + 1)}
Empties == {[k |-> "seqlist", xs |-> <<>>], [k |-> "parlist", xs |-> <<[k |-> "seqlist", xs |-> <<>>], [k |-> "leaf", n |-> 1]>>]}
Rs == 1..NRes
Decls == {[bad |-> FALSE, r |-> f] : f \in [Rs -> 0..2]}

Init ==
    \E t \in UNION {Trees(1, n) : n \in 1..NMax} \cup Empties :
        /\ tree = Ann(t)
        /\ res \in [LeavesOf(t) -> Decls]
        /\ \/ ~Panics /\ plan \in [fail : IF NRes = 0 THEN SUBSET LeavesOf(t) ELSE {{}}, panic : {0}]
           \/ Panics /\ plan \in [fail : {{}}, panic : LeavesOf(t)]
        /\ st = [l \in LeavesOf(t) |-> "idle"]
Next == \E l \in Leaves : (Start(l) \/ End(l)) /\ UNCHANGED <<tree, res, plan>>
Spec == Init /\ [][Next]_rvars /\ WF_rvars(Next)

Running == {l \in Leaves : st[l] = "run"}
(* C20: a sequence never overlaps; only systems beside each other run at the same time *)
OnlyBeside == \A a, b \in Running : a # b => <<a, b>> \in ParPairs(tree)
(* C19: and when the check passes those do not conflict *)
NoConflict == (Running # {} /\ Check(tree, res)) => \A a, b \in Running : a # b => ~Conflict(res[a].r, res[b].r)
(* C20, C21: what has run and what is returned, whatever the interleaving *)
Final == Over(tree) => /\ {l \in Leaves : st[l] # "idle"} = Ran(tree, plan.fail)
                       /\ Returned.errors = Errors(tree, plan.fail)
                       /\ Returned.ok = ~Fails(tree, plan.fail)
                       /\ Running = {}
(* it does not stop early *)
NoStop == (~Over(tree) /\ ~Panicking) => \E l \in Leaves : MayStart(l) \/ MayEnd(l)
OverStays == [][Over(tree) => FALSE]_rvars
(* C23: what follows a panic does not start, what precedes it has ended *)
PanicStops == \A l \in Leaves : st[l] = "panic" =>
                /\ \A m \in Leaves : <<l, m>> \in SeqPairs(tree) => st[m] = "idle"
                /\ \A m \in Leaves : <<m, l>> \in SeqPairs(tree) => st[m] = "ok"
Ends == <>(Over(tree) \/ Panicking)
=============================================================================
