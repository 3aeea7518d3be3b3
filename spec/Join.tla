--------------------------------- MODULE Join ---------------------------------
(***************************************************************************)
(* Joins (src/join.rs, src/par_join.rs, and the Join implementations of    *)
(* storages, entities and masks).                                          *)
(*                                                                         *)
(* An operand is a tree (JoinShapes.tla): bit sets, storages, entities,    *)
(* boolean combinations, optional operands, tuples.  It stands for a set   *)
(* of indexes, an item for each of them, a classification (constrained or  *)
(* not), and what visiting an index writes.  A join visits the set in      *)
(* ascending order.                                                        *)
(*                                                                         *)
(* A state is a choice of the three masks m[1..3] over the indexes 0..NI-1 *)
(* (the harness maps each to one real index or to a block of them).        *)
(* Storage k holds the value 100k + i + 1 at each i in m[k]; storage 3     *)
(* tracks its changes, and where an operand joins over the modified set,   *)
(* that set starts as m[2].                                                *)
(*                                                                         *)
(* Sets containing an index of no mask are infinite in the code: of those  *)
(* the first indexes up to NI+1 are compared, and parallel joins are not   *)
(* tried.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, JoinShapes

CONSTANTS NI
VARIABLES m, ready, last
vars == <<m, ready, last>>
View == <<m, ready>>

U == 0..(NI + 1)
I == 0..(NI - 1)
Storages == {"S", "SM", "G", "R", "W", "WG"}
Modified == {"D", "DM", "WD", "WDM"}
ByMask == Storages \cup {"B", "BV", "A", "AV", "E", "N", "LIVE", "MASK"}
Tag(k, i) == 100 * k + i + 1

RECURSIVE SetOf(_), Constrained(_), Item(_, _), Writes(_, _)

SetOf(a) ==
    CASE a.k \in ByMask -> m[a.m]
      [] a.k \in {"ALL", "ALLR", "MAYBE"} -> U
      [] a.k \in Modified -> m[2]
      [] a.k = "NOT" -> U \ SetOf(a.x)
      [] a.k = "AND" -> SetOf(a.x) \cap SetOf(a.y)
      [] a.k = "OR" -> SetOf(a.x) \cup SetOf(a.y)
      [] a.k = "XOR" -> (SetOf(a.x) \ SetOf(a.y)) \cup (SetOf(a.y) \ SetOf(a.x))
      [] a.k \in {"REF", "DYN"} -> SetOf(a.x)
      [] a.k = "T" -> {i \in U : \A n \in 1..Len(a.xs) : i \in SetOf(a.xs[n])}

(* The documented rules. *)
Constrained(a) ==
    CASE a.k \in ByMask \cup Modified -> TRUE
      [] a.k \in {"ALL", "ALLR", "MAYBE"} -> FALSE
      [] a.k = "NOT" -> ~Constrained(a.x)
      [] a.k = "AND" -> Constrained(a.x) \/ Constrained(a.y)
      [] a.k \in {"OR", "XOR"} -> Constrained(a.x) /\ Constrained(a.y)
      [] a.k = "REF" -> Constrained(a.x)
      [] a.k = "T" -> \E n \in 1..Len(a.xs) : Constrained(a.xs[n])

None == -1
Item(a, i) ==
    CASE a.k \in Storages -> Tag(a.m, i)
      [] a.k \in Modified -> IF i \in m[3] THEN Tag(3, i) ELSE None
      [] a.k = "MAYBE" -> IF i \in SetOf(a.x) THEN Item(a.x, i) ELSE None
      [] a.k = "T" -> [n \in 1..Len(a.xs) |-> Item(a.xs[n], i)]
      [] OTHER -> i

(* The storages a visit of index i writes to; the harness writes through    *)
(* every mutable reference, and through a guard where the value is even.    *)
Writes(a, i) ==
    CASE a.k = "SM" -> {<<"s", a.m>>}
      [] a.k = "W" -> {<<"w", a.m>>}
      [] a.k = "G" -> IF Tag(a.m, i) % 2 = 0 THEN {<<"s", a.m>>} ELSE {}
      [] a.k = "WG" -> IF Tag(a.m, i) % 2 = 0 THEN {<<"w", a.m>>} ELSE {}
      [] a.k = "DM" -> IF i \in m[3] THEN {<<"s", 3>>} ELSE {}
      [] a.k = "WDM" -> IF i \in m[3] THEN {<<"w", 3>>} ELSE {}
      [] a.k = "MAYBE" -> IF i \in SetOf(a.x) THEN Writes(a.x, i) ELSE {}
      [] a.k = "T" -> UNION {Writes(a.xs[n], i) : n \in 1..Len(a.xs)}
      [] OTHER -> {}

RECURSIVE Asc(_)
Asc(X) == IF X = {} THEN <<>>
          ELSE LET n == CHOOSE x \in X : \A y \in X : x <= y IN <<n>> \o Asc(X \ {n})

(* Contents of the storages the operand uses, after visiting the indexes X. *)
Used(sh, w, k) == \E x \in sh.src : x = w \o ToString(k)
After(sh, X, w, k) ==
    IF ~Used(sh, w, k) THEN <<>>
    ELSE LET v == Asc(m[k]) IN
         [n \in 1..Len(v) |-> <<v[n], Tag(k, v[n]) + (IF v[n] \in X /\ <<w, k>> \in Writes(sh.a, v[n]) THEN 50 ELSE 0)>>]
Flagged(sh, X, w, d) ==
    (IF d \in sh.src THEN m[2] ELSE {}) \cup {i \in X : <<w, 3>> \in Writes(sh.a, i)}

Result(sh, X, panic) ==
    LET v == Asc(X) IN
    [panic |-> panic,
     items |-> [n \in 1..Len(v) |-> Item(sh.a, v[n])],
     s |-> [k \in 1..3 |-> After(sh, X, "s", k)],
     w |-> [k \in 1..3 |-> After(sh, X, "w", k)],
     flagged |-> <<IF Used(sh, "s", 3) THEN Flagged(sh, X, "s", "d") ELSE {},
                   IF Used(sh, "w", 3) THEN Flagged(sh, X, "w", "wd") ELSE {}>>]

Infinite(a) == NI \in SetOf(a)

Init ==
    /\ m = <<{}, {}, {}>> /\ ready = FALSE
    /\ last = [op |-> "init", arg |-> [n |-> 0], ret |-> [panic |-> FALSE]]

Setup(x, y, z) ==
    /\ ~ready
    /\ ready' = TRUE
    /\ m' = <<x, y, z>>
    /\ last' = [op |-> "setup", arg |-> [x |-> x, y |-> y, z |-> z], ret |-> [panic |-> FALSE]]

Do(op, n, X, panic) ==
    /\ UNCHANGED <<m, ready>>
    /\ last' = [op |-> op, arg |-> [n |-> n, inf |-> Infinite(Shapes[n].a)], ret |-> Result(Shapes[n], X, panic)]

(* A shape is tried only with the masks it uses; the others stay empty. *)
Applies(n) == ready /\ \A k \in 1..3 : k \in Shapes[n].ms \/ m[k] = {}

Join(n) ==
    /\ Applies(n) /\ Shapes[n].checked
    /\ IF Constrained(Shapes[n].a) THEN Do("join", n, SetOf(Shapes[n].a), FALSE) ELSE Do("join", n, {}, TRUE)
JoinU(n) == Applies(n) /\ Do("join_u", n, SetOf(Shapes[n].a), FALSE)
Par(n) ==
    /\ Applies(n) /\ Shapes[n].par /\ ~(Constrained(Shapes[n].a) /\ Infinite(Shapes[n].a))
    /\ IF Constrained(Shapes[n].a) THEN Do("par", n, SetOf(Shapes[n].a), FALSE) ELSE Do("par", n, {}, TRUE)
ParU(n) == Applies(n) /\ Shapes[n].par /\ ~Infinite(Shapes[n].a) /\ Do("par_u", n, SetOf(Shapes[n].a), FALSE)
(* Building the iterator reports the classification; nothing is visited. *)
Try(n) ==
    /\ Applies(n) /\ Shapes[n].checked
    /\ UNCHANGED <<m, ready>>
    /\ LET c == Constrained(Shapes[n].a)
       IN last' = [op |-> "try", arg |-> [n |-> n, inf |-> FALSE], ret |-> [panic |-> FALSE, ok |-> <<c, c, c>>]]

Next ==
    \/ \E x, y, z \in SUBSET I : Setup(x, y, z)
    \/ \E n \in 1..Len(Shapes) : Join(n) \/ JoinU(n) \/ Par(n) \/ ParU(n) \/ Try(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == m \in [1..3 -> SUBSET I]
(* An optional operand restricts nothing and yields its item where it has one. *)
OptionalFree ==
    \A n \in 1..Len(Shapes) : \A p \in 1..2 :
        Shapes[n].a.k = "T" /\ Len(Shapes[n].a.xs) = 2 /\ Shapes[n].a.xs[p].k = "MAYBE"
        => SetOf(Shapes[n].a) = SetOf(Shapes[n].a.xs[3 - p])
(* The documented rules are safe: of masks built from plain sets by the     *)
(* rules, a constrained one never covers all indexes.  (False for a         *)
(* complement of a symmetric difference of complements, which no shape is.) *)
ConstrainedIsFinite ==
    \A n \in 1..Len(Shapes) : Shapes[n].checked /\ Constrained(Shapes[n].a) => ~Infinite(Shapes[n].a)
Ascending == [][last'.op \in {"join", "join_u"} => Len(last'.ret.items) <= NI + 2]_vars

Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> [ready |-> ready]]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
