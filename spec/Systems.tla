------------------------------- MODULE Systems -------------------------------
(***************************************************************************)
(* Checking and running compositions of systems (src/system.rs).           *)
(* Build chooses a composition and what each system declares; after that   *)
(* it is checked, and run any number of times, on pools that run the two   *)
(* sides of a join in either order or at the same time, with any set of    *)
(* systems failing or one of them panicking.                               *)
(*                                                                         *)
(* Replies to run: the systems that ran (each once, with the arguments     *)
(* given), the errors, the pairs that the pool was offered to run at once  *)
(* (a subset of `offered' is allowed) and the pairs of which the first had *)
(* not finished when the second started (a subset of `unordered' is        *)
(* allowed).  SysRun.tla has the transitions of a run in the open.         *)
(***************************************************************************)
EXTENDS SysTree, TLC, TLCExt, Json
CONSTANTS NCheck, NRun, NMacro, NR, Plize
VARIABLES tree, res, last
vars == <<tree, res, last>>
View == <<tree, res>>

R == 1..NR
Leaf(n) == [k |-> "leaf", n |-> n]
Node(k, xs) == [k |-> k, xs |-> xs]
RECURSIVE Trees(_, _), Splits(_, _, _)
(* the ways to cut the leaves lo..hi into p consecutive subtrees *)
Splits(lo, hi, p) ==
    IF p = 1 THEN {<<t>> : t \in Trees(lo, hi)}
    ELSE UNION {{<<t>> \o s : t \in Trees(lo, m), s \in Splits(m + 1, hi, p - 1)} : m \in lo..(hi - p + 1)}
Trees(lo, hi) ==
    IF lo = hi THEN {Leaf(lo)}
    ELSE {Node(k, s) : k \in {"seq", "par", "seqlist", "parlist"}, s \in Splits(lo, hi, 2)} \cup
         UNION {{Node(k, s) : k \in {"seqm", "parm", "seqlist", "parlist"}, s \in Splits(lo, hi, p)} : p \in 3..(hi - lo + 1)}
Empty(k) == Node(k, <<>>)
Lists == {"seqlist", "parlist"}
Pairs == {"seq", "par"}
Odd == {Empty(k) : k \in Lists} \cup {Node(k, <<Leaf(1)>>) : k \in Lists}
       \cup {Node(k, <<Empty(j), Leaf(1)>>) : k \in Pairs \cup Lists, j \in Lists}
       \cup {Node(k, <<Leaf(1), Empty(j)>>) : k \in Pairs \cup Lists, j \in Lists}
       \cup {Node(k, <<Empty(j), Empty(i)>>) : k \in Pairs \cup Lists, i \in Lists, j \in Lists}
       \cup {Node(k, <<Leaf(1), Empty(j), Leaf(2)>>) : k \in Lists, j \in Lists}
       \cup {Node(k, <<Node(j, <<Leaf(1)>>), Node(i, <<Leaf(2)>>)>>) : k \in Pairs \cup Lists, i \in Lists, j \in Lists}
Wide == {Node(k, [i \in 1..n |-> Leaf(i)]) : k \in {"seqm", "parm", "seqlist", "parlist"}, n \in 5..NMacro}
Small == UNION {Trees(1, n) : n \in 1..NCheck} \cup Odd
Large == UNION {Trees(1, n) : n \in (NCheck + 1)..NRun}

NoRes == [r \in R |-> 0]
Nothing == [bad |-> FALSE, r |-> NoRes]
Decl(r, m) == [bad |-> FALSE, r |-> [NoRes EXCEPT ![r] = m]]
Options == {Nothing, Decl(1, 1), [bad |-> TRUE, r |-> NoRes]} \cup {Decl(r, 2) : r \in R} \cup
           (IF NR > 1 THEN {[bad |-> FALSE, r |-> [NoRes EXCEPT ![1] = 1, ![2] = 2]]} ELSE {})
(* Two systems declare something, the others nothing. *)
Sparse(n) == UNION {{[i \in 1..n |-> IF i = a THEN x ELSE IF i = b THEN y ELSE Nothing] : x \in Options, y \in Options} : a \in 1..n, b \in 1..n}
N(t) == Cardinality(LeavesOf(t))

Pools == {"seq", "rev", "threads", "rayon"}
Reads(x) == {r \in R : x[r] = 1}
WritesOf(x) == {r \in R : x[r] = 2}

None == Node("none", <<>>)
Init ==
    /\ tree = None /\ res = <<>>
    /\ last = [op |-> "init", arg |-> [z |-> 0], ret |-> [panic |-> FALSE]]
Build(t, x) ==
    /\ tree = None
    /\ tree' = t /\ res' = x
    /\ last' = [op |-> "build", arg |-> [tree |-> t, res |-> x], ret |-> [panic |-> FALSE]]
(* The systems are handed to parallelize. *)
Parallelize(x) ==
    /\ tree = None
    /\ tree' = GroupTree(Groups(x)) /\ res' = x
    /\ last' = [op |-> "parallelize", arg |-> [res |-> x], ret |-> [panic |-> FALSE, groups |-> Groups(x)]]
CheckIt ==
    /\ tree # None
    /\ UNCHANGED <<tree, res>>
    /\ LET ok == Check(tree, res)
           u == UnionOf(LeavesOf(tree), res, R)
       IN last' = [op |-> "check", arg |-> [z |-> 0],
                   ret |-> [panic |-> FALSE, ok |-> ok, reads |-> IF ok THEN Reads(u) ELSE {}, writes |-> IF ok THEN WritesOf(u) ELSE {}]]
AllPairs(t) == {p \in LeavesOf(t) \X LeavesOf(t) : p[1] # p[2]}
Run(F, p) ==
    /\ tree # None
    /\ UNCHANGED <<tree, res>>
    /\ last' = [op |-> "run", arg |-> [fail |-> F, pool |-> p],
                ret |-> [panic |-> FALSE, ok |-> ~Fails(tree, F), ran |-> Ran(tree, F), errors |-> Errors(tree, F),
                         offered |-> ParPairs(tree), unordered |-> AllPairs(tree) \ SeqPairs(tree)]]
(* System l panics: what follows it in a sequence does not run, what        *)
(* precedes it has run; what is beside it may or may not.                  *)
RunPanic(l, p) ==
    /\ tree # None
    /\ UNCHANGED <<tree, res>>
    /\ last' = [op |-> "run_panic", arg |-> [l |-> l, pool |-> p],
                ret |-> [panic |-> TRUE, ran |-> LeavesOf(tree) \ {x \in LeavesOf(tree) : <<l, x>> \in SeqPairs(tree)},
                         missed |-> {x \in LeavesOf(tree) : x # l /\ <<x, l>> \notin SeqPairs(tree)},
                         offered |-> ParPairs(tree), unordered |-> AllPairs(tree) \ SeqPairs(tree)]]

Runnable == IF Plize THEN N(tree) <= NCheck ELSE \A i \in 1..Len(res) : res[i] = Nothing
FailSets == IF Plize THEN {{}} \cup {{l} : l \in LeavesOf(tree)} ELSE IF N(tree) <= NRun THEN SUBSET LeavesOf(tree) ELSE {F \in SUBSET LeavesOf(tree) : Cardinality(F) <= 2}
(* for parallelize: every way to declare reads and writes *)
AllOptions == {[bad |-> FALSE, r |-> f] : f \in [R -> 0..2]} \cup {[bad |-> TRUE, r |-> NoRes]}
Next ==
    \/ ~Plize /\ tree = None /\
          \/ \E t \in Small : \E x \in [1..N(t) -> Options] : Build(t, x)
          \/ \E t \in Large : Build(t, [i \in 1..N(t) |-> Nothing])
          \/ \E t \in Wide : \E x \in Sparse(N(t)) : Build(t, x)
    \/ Plize /\ tree = None /\
          \/ \E n \in 0..NRun : \E x \in [1..n -> AllOptions] : Parallelize(x)
          \/ \E n \in (NRun + 1)..NMacro : \E x \in Sparse(n) : Parallelize(x)
    \/ CheckIt
    \/ Runnable /\ \E p \in Pools : \/ \E F \in FailSets : Run(F, p)
                                    \/ \E l \in LeavesOf(tree) : RunPanic(l, p)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C19/C20: when the check passes no two systems that may run at the same   *)
(* time conflict, and when it fails without a system in conflict with       *)
(* itself, two do.                                                          *)
CheckExact ==
    tree # None =>
        (Check(tree, res) <=> /\ \A l \in LeavesOf(tree) : ~res[l].bad
                              /\ \A p \in ParPairs(tree) : ~Conflict(res[p[1]].r, res[p[2]].r))
(* Every two systems are ordered or beside each other, never both. *)
PairsPartition ==
    tree # None =>
        /\ ParPairs(tree) \cap SeqPairs(tree) = {}
        /\ \A p \in AllPairs(tree) : p \in ParPairs(tree) \/ p \in SeqPairs(tree) \/ <<p[2], p[1]>> \in SeqPairs(tree)
(* C21 *)
ErrorsExact ==
    [][last'.op = "run" => LET e == last'.ret.errors IN
         /\ {e[i] : i \in 1..Len(e)} = last'.ret.ran \cap last'.arg.fail
         /\ \A i, j \in 1..Len(e) : i < j => e[i] < e[j]
         /\ (last'.ret.ok <=> e = <<>>)
         /\ (last'.arg.fail = {} => last'.ret.ran = LeavesOf(tree))
         \* what does not run comes after something that failed
         /\ \A l \in LeavesOf(tree) \ last'.ret.ran : \E f \in last'.ret.ran \cap last'.arg.fail : <<f, l>> \in SeqPairs(tree)
         /\ \A l \in last'.ret.ran, f \in last'.ret.ran \cap last'.arg.fail : <<f, l>> \notin SeqPairs(tree)]_vars

(* C22: what Greedy is for *)
GroupsRight ==
    (Plize /\ tree # None) =>
        LET gs == [g \in 1..Len(tree.xs) |-> LeavesOf(tree.xs[g])]
            In(i) == CHOOSE g \in 1..Len(gs) : i \in gs[g]
            I == 1..Len(res)
        IN /\ UNION {gs[g] : g \in 1..Len(gs)} = I
           /\ \A i, j \in I : i < j => In(i) <= In(j)
           /\ \A i, j \in I : i < j /\ Conflict(res[i].r, res[j].r) => In(i) < In(j)
           /\ \A g \in 2..Len(gs) :
                LET first == CHOOSE i \in gs[g] : \A j \in gs[g] : i <= j
                IN res[first].bad \/ \E i \in gs[g - 1] : res[i].bad \/ Conflict(res[i].r, res[first].r)
           /\ \A i \in I : res[i].bad => gs[In(i)] = {i}
           /\ (Check(tree, res) <=> \A i \in I : ~res[i].bad)

Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> [built |-> tree # None, plize |-> Plize /\ tree # None]]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
