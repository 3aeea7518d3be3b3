-------------------------------- MODULE AnySet --------------------------------
(***************************************************************************)
(* Dynamic component sets (src/any_components.rs).                         *)
(*                                                                         *)
(* set[k][c] is the value set k holds for component type c, 0 for none.    *)
(* Sets 1 and 2 are merged into each other; with Cloning they are of the   *)
(* cloning kind and set 3 receives clones, without it they are moved.      *)
(* w[h][c] are the components of the live entities 1 and 2 of a world;     *)
(* entity 3 is dead and its index is that of entity 2.  Type NC may be     *)
(* unregistered in the world.                                              *)
(*                                                                         *)
(* In the replies, `gone' are the values that existed before and were      *)
(* destroyed, and `panic' is whether the call must panic.  A call that     *)
(* meets a panicking clone or destructor is tried only with one type in    *)
(* the set: the order in which types are visited is not specified.  Nor is *)
(* what inserting an empty set into a dead entity returns.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS NC, NV, Cloning, NLive
VARIABLES set, w, reg, last
vars == <<set, w, reg, last>>
View == <<set, w, reg>>

C == 1..NC
V == 1..NV
K == 1..2
H == 1..NLive
Target == IF Cloning THEN 1..3 ELSE K
None == [c \in C |-> 0]
Tag(c, v) == IF v = 0 THEN 0 ELSE 10 * c + v
Keys(s) == {c \in C : s[c] # 0}
Over(s, t) == [c \in C |-> IF t[c] # 0 THEN t[c] ELSE s[c]]
Hit(s, t) == Keys(s) \cap Keys(t)
RECURSIVE Asc(_)
Asc(X) == IF X = {} THEN <<>> ELSE LET n == CHOOSE x \in X : \A y \in X : x <= y IN <<n>> \o Asc(X \ {n})
Tags(s, S) == LET a == Asc(S) IN [n \in 1..Len(a) |-> Tag(a[n], s[a[n]])]

Do(op, arg, val, gone, panic) ==
    last' = [op |-> op, arg |-> arg @@ [k |-> 0, c |-> 0, v |-> 0, h |-> 0], ret |-> [val |-> val, gone |-> gone, panic |-> panic]]

Init ==
    /\ set = [k \in 1..3 |-> None] /\ w = [h \in H |-> None] /\ reg = TRUE
    /\ last = [op |-> "init", arg |-> [k |-> 0, c |-> 0, v |-> 0, h |-> 0], ret |-> [val |-> 0, gone |-> <<>>, panic |-> FALSE]]
SameW == UNCHANGED <<w, reg>>
SameS == UNCHANGED set

Insert(k, c, v) ==
    /\ SameW /\ set' = [set EXCEPT ![k][c] = v]
    /\ Do("insert", [k |-> k, c |-> c, v |-> v], Tag(c, set[k][c]), <<>>, FALSE)
Remove(k, c) ==     \* the cloning kind has no removal
    /\ (Cloning => k = 3)
    /\ SameW /\ set' = [set EXCEPT ![k][c] = 0]
    /\ Do("remove", [k |-> k, c |-> c], Tag(c, set[k][c]), <<>>, FALSE)
GetMut(k, c, v) ==
    /\ SameW /\ set' = IF set[k][c] = 0 THEN set ELSE [set EXCEPT ![k][c] = v]
    /\ Do("get_mut", [k |-> k, c |-> c, v |-> v], Tag(c, set[k][c]), <<>>, FALSE)
Drop(o, k) ==     \* also while a panic unwinds
    /\ SameW /\ set' = [set EXCEPT ![k] = None]
    /\ Do(o, [k |-> k], 0, Tags(set[k], Keys(set[k])), FALSE)

(* Set 3-k is merged on top of set k, and is used up. *)
Merged(k) == set' = [set EXCEPT ![k] = Over(set[k], set[3 - k]), ![3 - k] = None]
Hits(k) == Hit(set[k], set[3 - k])
Merge(k) ==
    /\ SameW /\ Merged(k)
    /\ Do("merge", [k |-> k], Hits(k) # {}, Tags(set[k], Hits(k)), FALSE)
MergeBomb(k, c) ==
    /\ Keys(set[3 - k]) = {c} /\ set[k][c] # 0
    /\ SameW /\ Merged(k)
    /\ Do("merge_bomb", [k |-> k, c |-> c], FALSE, Tags(set[k], {c}), TRUE)

(* Set k is put into the world for entity h. *)
Dead == 3
Registered(k) == reg \/ set[k][NC] = 0
Used(k) == IF Cloning THEN set ELSE [set EXCEPT ![k] = None]
IntoWorld(k, h) ==
    /\ Registered(k)
    /\ UNCHANGED reg
    /\ set' = Used(k)
    /\ IF h = Dead
       THEN /\ Keys(set[k]) # {} /\ UNCHANGED w
            /\ Do("into_world", [k |-> k, h |-> h], "err", IF Cloning THEN <<>> ELSE Tags(set[k], Keys(set[k])), FALSE)
       ELSE /\ w' = [w EXCEPT ![h] = Over(w[h], set[k])]
            /\ Do("into_world", [k |-> k, h |-> h], IF Hit(w[h], set[k]) # {} THEN "replaced" ELSE "new",
                  Tags(w[h], Hit(w[h], set[k])), FALSE)
IntoWorldUnregistered(k, h) ==
    /\ ~reg /\ Keys(set[k]) = {NC}
    /\ UNCHANGED <<w, reg>> /\ set' = Used(k)
    /\ Do("into_world", [k |-> k, h |-> h], "panic", IF Cloning THEN <<>> ELSE Tags(set[k], {NC}), TRUE)
IntoWorldBomb(k, h, c) ==
    /\ Registered(k) /\ h # Dead /\ Keys(set[k]) = {c} /\ w[h][c] # 0
    /\ UNCHANGED reg /\ set' = Used(k)
    /\ w' = [w EXCEPT ![h][c] = set[k][c]]
    /\ Do("into_world_bomb", [k |-> k, h |-> h, c |-> c], "panic", Tags(w[h], {c}), TRUE)
IntoWorldClonePanic(k, h, c) ==
    /\ Cloning /\ Registered(k) /\ h # Dead /\ Keys(set[k]) = {c}
    /\ UNCHANGED <<set, w, reg>>
    /\ Do("into_world_clone_panic", [k |-> k, h |-> h, c |-> c], "panic", <<>>, TRUE)

(* Set k is cloned into set 3. *)
IntoSet(k) ==
    /\ Cloning
    /\ SameW /\ set' = [set EXCEPT ![3] = Over(set[3], set[k])]
    /\ Do("into_set", [k |-> k], Hit(set[3], set[k]) # {}, Tags(set[3], Hit(set[3], set[k])), FALSE)
IntoSetClonePanic(k, c) ==
    /\ Cloning /\ Keys(set[k]) = {c}
    /\ SameW /\ SameS
    /\ Do("into_set_clone_panic", [k |-> k, c |-> c], FALSE, <<>>, TRUE)

(* The world on its own. *)
WPut(h, c, v) ==
    /\ (c = NC => reg)
    /\ SameS /\ UNCHANGED reg /\ w' = [w EXCEPT ![h][c] = v]
    /\ Do("w_put", [h |-> h, c |-> c, v |-> v], Tag(c, w[h][c]), <<>>, FALSE)
Register(b) ==
    /\ reg' = b /\ SameS
    /\ w' = [h \in H |-> [w[h] EXCEPT ![NC] = 0]]
    /\ Do("register", [v |-> IF b THEN 1 ELSE 0], 0,
          LET S == {h \in H : w[h][NC] # 0} a == Asc(S) IN [n \in 1..Len(a) |-> Tag(NC, w[a[n]][NC])], FALSE)

Next ==
    \/ \E k \in Target : \/ Drop("drop", k) \/ Drop("drop_unwinding", k)
                         \/ \E c \in C : Remove(k, c) \/ \E v \in V : Insert(k, c, v) \/ GetMut(k, c, v)
    \/ \E k \in K : Merge(k) \/ \E c \in C : MergeBomb(k, c)
    \/ \E k \in Target \ (IF Cloning THEN {3} ELSE {}) :
          \/ IntoSet(k) \/ \E c \in C : IntoSetClonePanic(k, c)
          \/ \E h \in H \cup {Dead} : \/ IntoWorld(k, h) \/ IntoWorldUnregistered(k, h)
                                      \/ \E c \in C : IntoWorldBomb(k, h, c) \/ IntoWorldClonePanic(k, h, c)
    \/ \E h \in H, c \in C, v \in 0..NV : WPut(h, c, v)
    \/ \E b \in BOOLEAN : Register(b)
Spec == Init /\ [][Next]_vars

TypeOK == set \in [1..3 -> [C -> 0..NV]] /\ w \in [H -> [C -> 0..NV]]
(* C16 *)
OnlyTheEntity ==
    [][last'.op \in {"into_world", "into_world_bomb"} =>
         \A h \in H, c \in C : (h # last'.arg.h \/ set[last'.arg.k][c] = 0) => w'[h][c] = w[h][c]]_vars
CloningKeepsSource ==
    [][Cloning /\ last'.op \in {"into_world", "into_world_bomb", "into_set", "into_world_clone_panic"} =>
         set'[last'.arg.k] = set[last'.arg.k]]_vars
DeadChangesNothing == [][last'.op = "into_world" /\ last'.arg.h = Dead => w' = w]_vars

Num(f, S) == Cardinality({c \in S : f[c] # 0})
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Held == Sum([k \in 1..3 |-> Num(set[k], C)]) + Sum([h \in 1..NLive |-> Num(w[h], C)])
Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
TagsOf(s) == [c \in C |-> Tag(c, s[c])]
Obs == [sets |-> [k \in 1..3 |-> TagsOf(set[k])],
        len |-> [k \in 1..3 |-> Cardinality(Keys(set[k]))],
        world |-> [h \in H |-> TagsOf(w[h])],
        held |-> Held, errors |-> 0]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
