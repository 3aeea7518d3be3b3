-------------------------------- MODULE RwRes --------------------------------
(***************************************************************************)
(* Read/write resource sets (src/resources.rs).  A set declares for each   *)
(* resource no access (0), reading (1) or writing (2); building, uniting   *)
(* and mapping keep the strongest access declared.  Two sets x[1], x[2]    *)
(* are built side by side, and asked at each state whether they conflict,  *)
(* in both orders and each with itself.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS NR
VARIABLES x, last
vars == <<x, last>>
View == <<x>>

R == 1..NR
K == 1..2
Sets == [R -> 0..2]
Empty == [r \in R |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [r \in R |-> Max(a[r], b[r])]
Decl(rs, ws) == [r \in R |-> IF r \in ws THEN 2 ELSE IF r \in rs THEN 1 ELSE 0]
Image(f, a) == [q \in R |-> LET P == {r \in R : f[r] = q} IN
                            IF \E r \in P : a[r] = 2 THEN 2 ELSE IF \E r \in P : a[r] = 1 THEN 1 ELSE 0]
Conflict(a, b) == \E r \in R : a[r] > 0 /\ b[r] > 0 /\ (a[r] = 2 \/ b[r] = 2)

Init == x = <<Empty, Empty>> /\ last = [op |-> "init", arg |-> [k |-> 0], ret |-> 0]
Do(op, k, arg, v) ==
    /\ x' = [x EXCEPT ![k] = v]
    /\ last' = [op |-> op, arg |-> [k |-> k] @@ arg, ret |-> 0]

Next == \E k \in K :
    \/ Do("new", k, [z |-> 0], Empty)
    \/ \E r \in R : \/ Do("add_read", k, [r |-> r], Join(x[k], Decl({r}, {})))
                    \/ Do("add_write", k, [r |-> r], Join(x[k], Decl({}, {r})))
                    \/ Do("read", k, [r |-> r], Join(x[k], Decl({r}, {})))
                    \/ Do("write", k, [r |-> r], Join(x[k], Decl({}, {r})))
    \/ \E s \in SUBSET R : \/ Do("add_reads", k, [s |-> s], Join(x[k], Decl(s, {})))
                           \/ Do("add_writes", k, [s |-> s], Join(x[k], Decl({}, s)))
    \/ \E rs, ws \in SUBSET R : Do("from_iters", k, [r |-> rs, w |-> ws], Decl(rs, ws))
    \/ Do("union", k, [z |-> 0], Join(x[k], x[3 - k]))
    \/ Do("union_self", k, [z |-> 0], x[k])
    \/ Do("clone_from", k, [z |-> 0], x[3 - k])
    \/ \E f \in [R -> R] : Do("map", k, [f |-> f], Image(f, x[k]))
Spec == Init /\ [][Next]_vars

TypeOK == x \in [K -> Sets]
Symmetric == \A a, b \in Sets : Conflict(a, b) <=> Conflict(b, a)
(* Nothing declared is lost, and a union conflicts with whatever either part conflicts with. *)
Monotone == [][\/ last'.op \in {"new", "from_iters", "clone_from", "map"}
               \/ \A k \in K, r \in R : x'[k][r] >= x[k][r]]_vars
UnionConflicts == \A c \in Sets : Conflict(Join(x[1], x[2]), c) <=> (Conflict(x[1], c) \/ Conflict(x[2], c))
MapKeepsConflicts == \A f \in [R -> R] : Conflict(x[1], x[2]) => Conflict(Image(f, x[1]), Image(f, x[2]))

Reads(a) == {r \in R : a[r] = 1}
Writes(a) == {r \in R : a[r] = 2}
Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
Obs == [reads |-> <<Reads(x[1]), Reads(x[2])>>, writes |-> <<Writes(x[1]), Writes(x[2])>>,
        conflicts |-> <<Conflict(x[1], x[2]), Conflict(x[2], x[1]), Conflict(x[1], x[1]), Conflict(x[2], x[2])>>]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
