------------------------------- MODULE SysTree -------------------------------
(***************************************************************************)
(* Compositions of systems (src/system.rs), as trees: a leaf is a system    *)
(* of the user's, [k |-> "leaf", n |-> id]; every other node has a list of *)
(* children and runs them in sequence or in parallel:                      *)
(*    seq, par          the pairs Seq::new and Par::new                    *)
(*    seqm, parm        the macros seq! and par!                           *)
(*    seqlist, parlist  SeqList and ParList                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

IsSeq(t) == t.k \in {"seq", "seqm", "seqlist"}
IsPar(t) == t.k \in {"par", "parm", "parlist"}
RECURSIVE LeavesOf(_), ParPairs(_), SeqPairs(_), Fails(_, _), Ran(_, _), Errors(_, _), Check(_, _), CatErrors(_, _, _)

LeavesOf(t) == IF t.k = "leaf" THEN {t.n} ELSE UNION {LeavesOf(t.xs[i]) : i \in 1..Len(t.xs)}
(* pairs of leaves in different branches of a parallel group *)
ParPairs(t) ==
    IF t.k = "leaf" THEN {}
    ELSE UNION {ParPairs(t.xs[i]) : i \in 1..Len(t.xs)} \cup
         (IF IsPar(t) THEN UNION {LeavesOf(t.xs[i]) \X LeavesOf(t.xs[j]) : <<i, j>> \in {p \in (1..Len(t.xs)) \X (1..Len(t.xs)) : p[1] # p[2]}}
          ELSE {})
(* pairs of leaves of which the first precedes the second in a sequence *)
SeqPairs(t) ==
    IF t.k = "leaf" THEN {}
    ELSE UNION {SeqPairs(t.xs[i]) : i \in 1..Len(t.xs)} \cup
         (IF IsSeq(t) THEN UNION {LeavesOf(t.xs[i]) \X LeavesOf(t.xs[j]) : <<i, j>> \in {p \in (1..Len(t.xs)) \X (1..Len(t.xs)) : p[1] < p[2]}}
          ELSE {})

(* With the leaves F failing: whether t fails, which leaves run, and the    *)
(* errors in composition order.                                            *)
Fails(t, F) == Ran(t, F) \cap F # {}
FirstFail(t, F) == \* children of a sequence up to and including the first that fails
    LET bad == {i \in 1..Len(t.xs) : Fails(t.xs[i], F)}
    IN IF bad = {} THEN Len(t.xs) ELSE CHOOSE i \in bad : \A j \in bad : i <= j
Ran(t, F) ==
    IF t.k = "leaf" THEN {t.n}
    ELSE UNION {Ran(t.xs[i], F) : i \in 1..(IF IsSeq(t) THEN FirstFail(t, F) ELSE Len(t.xs))}
CatErrors(t, F, i) == IF i > (IF IsSeq(t) THEN FirstFail(t, F) ELSE Len(t.xs)) THEN <<>>
                      ELSE Errors(t.xs[i], F) \o CatErrors(t, F, i + 1)
Errors(t, F) == IF t.k = "leaf" THEN IF t.n \in F THEN <<t.n>> ELSE <<>>
                ELSE CatErrors(t, F, 1)

(* Resources: for each leaf a function from resource to 0 none, 1 read, 2   *)
(* write; `bad' marks a system in conflict with itself.                    *)
Conflict(a, b) == \E r \in DOMAIN a : a[r] > 0 /\ b[r] > 0 /\ (a[r] = 2 \/ b[r] = 2)
(* the union of a set of leaves' resources *)
UnionOf(L, res, R) == [r \in R |-> IF \E l \in L : res[l].r[r] = 2 THEN 2 ELSE IF \E l \in L : res[l].r[r] = 1 THEN 1 ELSE 0]
(* A check of t passes. *)
Check(t, x) ==
    \/ /\ t.k = "leaf" /\ ~x[t.n].bad
    \/ /\ t.k # "leaf"
       /\ \A i \in 1..Len(t.xs) : Check(t.xs[i], x)
       /\ IsPar(t) => \A i, j \in 1..Len(t.xs) : i < j =>
            \A a \in LeavesOf(t.xs[i]), b \in LeavesOf(t.xs[j]) : ~Conflict(x[a].r, x[b].r)

(***************************************************************************)
(* parallelize: the systems declaring x[1], x[2], ... in the order given    *)
(* are put into groups, each into the last group unless it conflicts with   *)
(* a system there; one in conflict with itself has a group of its own.     *)
(***************************************************************************)
RECURSIVE Greedy(_, _, _)
Greedy(x, i, gs) ==
    IF i > Len(x) THEN gs
    ELSE LET g == gs[Len(gs)]
             opens == gs = <<>> \/ x[i].bad \/ \E k \in 1..Len(g) : x[g[k]].bad \/ Conflict(x[g[k]].r, x[i].r)
         IN IF opens THEN Greedy(x, i + 1, Append(gs, <<i>>))
            ELSE Greedy(x, i + 1, [gs EXCEPT ![Len(gs)] = Append(g, i)])
Groups(x) == Greedy(x, 1, <<>>)
GroupTree(gs) == [k |-> "seqlist", xs |-> [g \in 1..Len(gs) |-> [k |-> "parlist", xs |-> [i \in 1..Len(gs[g]) |-> [k |-> "leaf", n |-> gs[g][i]]]]]]
=============================================================================
