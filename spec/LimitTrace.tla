------------------------------ MODULE LimitTrace ------------------------------
(***************************************************************************)
(* Judges recordings made at the two ends an entity allocator has: the      *)
(* last index a bit set can keep, and the last generation of an index.      *)
(*                                                                         *)
(* A recording starts with every index below some base occupied by an       *)
(* entity that is never touched, so that `room' indexes are left; indexes   *)
(* are counted from the base.  The state is that of EntityAbs, together     *)
(* with the number of lives each index has had; an index that has had       *)
(* MaxLives of them may be retired (and only then).                         *)
(* A creation is refused, by a panic, exactly when no index is left; it     *)
(* then changes nothing.                                                    *)
(***************************************************************************)
EXTENDS EntityAbs, TLC, Json, IOUtils

VARIABLES i, room, lives
MaxLives == 2147483647
Rec == ndJsonDeserialize(IOEnv.TRACE)
x == Rec[i]
Set(s) == {s[k] : k \in 1..Len(s)}
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Least(a, b) == IF a < b THEN a ELSE b
More(a, n) == IF n > MaxLives - a THEN MaxLives ELSE a + n

Lives(k) == IF k \in DOMAIN lives THEN lives[k] ELSE 0
Worn == {k \in Free : Lives(k) >= MaxLives}
Usable == Free \ Worn
Left == Cardinality(Usable) + room - used

\* n creations were tried, by one thread or by several; x.h and x.i are those that succeeded
CreateRight ==
    LET c == Len(x.h)
        I == Set(x.i) \ Worn
        m == Cardinality(I)
        fresh == m - Cardinality(I \cap Usable)
    IN [fresh |-> \A j \in 1..c : x.h[j] = Len(ents) + j,
        alive |-> x.na = 0,
        solo  |-> Cardinality(Set(x.i)) = c /\ Set(x.i) \cap Occupied = {},
        room  |-> Set(x.i) \subseteq 0..(room - 1) /\ c <= Left + Cardinality(Worn),
        refused |-> c >= Least(x.n, Left),
        reuse |-> I \subseteq Usable \/ (Usable \subseteq I /\ I \ Usable = used..(used + fresh - 1))]
Created ==
    /\ ents' = ents \o [j \in 1..Len(x.i) |-> [idx |-> x.i[j], gen |-> Len(ents) + j]]
    /\ live' = live \cup Set(x.h)
    /\ used' = LET top == {k + 1 : k \in Set(x.i)} IN CHOOSE u \in top \cup {used} : \A k \in top \cup {used} : k <= u
    /\ lives' = [k \in DOMAIN lives \cup Set(x.i) |-> IF k \in Set(x.i) THEN More(Lives(k), 1) ELSE lives[k]]
    /\ UNCHANGED pend

\* one entity after the other, created and killed: x.u are the indexes and how many times each
RECURSIVE WearFits(_, _, _, _)
WearFits(k, F, l, u) ==
    IF k > Len(x.u) THEN TRUE
    ELSE LET n == x.u[k][1]
             t == x.u[k][2]
             good == {a \in F : l[a] < MaxLives}
             had == IF n \in DOMAIN l THEN l[n] ELSE 0
         IN /\ n \in F \/ (good = {} /\ n = u /\ n < room)
            /\ k < Len(x.u) => had >= MaxLives - t
            /\ WearFits(k + 1, F \cup {n}, [a \in DOMAIN l \cup {n} |-> IF a = n THEN More(had, t) ELSE l[a]], IF n = u THEN u + 1 ELSE u)
WearRight ==
    [dup |-> x.dup = 0, dead |-> x.dead = 0, old |-> x.old = 0,
     reuse |-> WearFits(1, Free, [k \in 0..(used - 1) |-> Lives(k)], used)]
Worned ==
    /\ used' = LET top == {p[1] + 1 : p \in Set(x.u)} IN CHOOSE u \in top \cup {used} : \A k \in top \cup {used} : k <= u
    /\ lives' = [k \in DOMAIN lives \cup {p[1] : p \in Set(x.u)} |->
                   IF \E p \in Set(x.u) : p[1] = k THEN More(Lives(k), (CHOOSE p \in Set(x.u) : p[1] = k)[2]) ELSE lives[k]]
    /\ UNCHANGED <<ents, live, pend>>

Granted == {x.h[j] : j \in {j \in 1..Len(x.h) : x.ok[j] = 1}}
AskRight == [replies |-> Granted = Set(x.h) \cap live]
MergeRight == [report |-> x.rep = <<-1>> \/ (Len(x.rep) = Cardinality(pend) /\ Set(x.rep) = pend)]
Gone(H) == live' = live \ H /\ pend' = pend \ H /\ UNCHANGED <<ents, used, lives>>

SeeRight ==
    [live |-> Set(x.live) = live,
     look |-> Set(x.look) = {<<ents[h].idx, h>> : h \in live},
     panic|-> x.pan = 0,
     below|-> x.below,
     set  |-> Ascending(x.set) /\ Set(x.set) = Occupied,
     join |-> Len(x.join) = Cardinality(live) /\ Set(x.join) = live,
     max  |-> x.max = used]

Right ==
    CASE x.o = "create" -> CreateRight
      [] x.o = "wear" -> WearRight
      [] x.o \in {"kill", "req"} -> AskRight
      [] x.o = "merge" -> MergeRight
      [] x.o = "see" -> SeeRight
      [] x.o = "panic" -> [panic |-> FALSE]
      [] OTHER -> [nothing |-> TRUE]
Wrong == {f \in DOMAIN Right : ~Right[f]}

Tags(f) ==
    CASE x.o = "panic" -> IF x.in = "merge" THEN <<"C03">> ELSE IF x.in \in {"create", "wear"} THEN <<"C01", "C04">> ELSE <<"C02">>
      [] x.o = "create" -> IF f \in {"refused", "reuse"} THEN <<"C04">> ELSE IF f = "room" THEN <<"C01", "C04">> ELSE <<"C01">>
      [] x.o = "wear" -> IF f = "reuse" THEN <<"C04">> ELSE IF f = "dup" THEN <<"C01">> ELSE IF f = "old" THEN <<"C02">> ELSE <<"C01", "C02">>
      [] x.o = "merge" -> <<"C03">>
      [] x.o = "see" /\ f = "max" -> <<"C04">>
      [] OTHER -> <<"C02">>
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN {} ELSE LET f == CHOOSE f \in S : TRUE IN Set(Tags(f)) \cup Flat(S \ {f})
Show == [tags |-> Flat(Wrong), at |-> i, field |-> "limits: " \o ToString(Wrong),
         want |-> ToString([live |-> live, used |-> used, room |-> room, worn |-> Worn, left |-> Left]), got |-> ToString(x)]

RECURSIVE NextNew(_)
NextNew(k) == IF k > Len(Rec) THEN k ELSE IF k > i /\ Rec[k].o = "new" THEN k ELSE NextNew(k + 1)

Init == AbsInit /\ i = 1 /\ room = 0 /\ lives = <<>>
Step ==
    CASE x.o = "new" -> /\ ents' = <<>> /\ live' = {} /\ pend' = {} /\ used' = 0 /\ room' = x.room /\ lives' = <<>>
      [] x.o = "create" -> Created /\ UNCHANGED room
      [] x.o = "wear" -> Worned /\ UNCHANGED room
      [] x.o = "kill" -> Gone(Granted) /\ UNCHANGED room
      [] x.o = "req" -> pend' = pend \cup Granted /\ UNCHANGED <<ents, live, used, room, lives>>
      [] x.o = "merge" -> Gone(pend) /\ UNCHANGED room
      [] OTHER -> UNCHANGED <<ents, live, pend, used, room, lives>>
Next ==
    /\ i <= Len(Rec)
    /\ IF x.o # "new" /\ Wrong # {}
       THEN PrintT("@B " \o ToJson(Show)) /\ i' = NextNew(i) /\ UNCHANGED <<ents, live, pend, used, room, lives>>
       ELSE Step /\ i' = i + 1
Spec == Init /\ [][Next]_<<absvars, i, room, lives>>
View == i
Consistent == AbsTypeOK /\ OneLivePerIndex /\ IndexesLow /\ used <= room
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Cardinality({k \in 1..Len(Rec) : Rec[k].o = "new"})]))
=============================================================================
