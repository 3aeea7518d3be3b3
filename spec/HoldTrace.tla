------------------------------ MODULE HoldTrace ------------------------------
(***************************************************************************)
(* Judges recordings of several threads that attempt borrows on one         *)
(* resource set or world (property C15).  Each attempt names what it wants  *)
(* (pairs of a type and a mode: 1 shared, 2 exclusive) and carries instants *)
(* of one clock: a (invocation), d (return) and, if it got what it wanted,  *)
(* b and c between which it certainly held it.  The specification of a      *)
(* borrow cell (Borrows.tla) allows a recording only if                    *)
(*   - no two attempts that conflict ever certainly held at the same time   *)
(*   - an attempt that was refused overlapped with another that may have    *)
(*     held something in conflict: one that succeeded, or one that wanted   *)
(*     several things and may have held some before it was refused another  *)
(*   - when everything has been given back, everything can be had again.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE i
Rec == ndJsonDeserialize(IOEnv.TRACE)

Conflicting(p, q) == p[1] = q[1] /\ (p[2] = 2 \/ q[2] = 2)
Clash(x, y) == \E k \in DOMAIN x.what, l \in DOMAIN y.what : Conflicting(x.what[k], y.what[l])
Together(x, y) == x.b < y.c /\ y.b < x.c
MayMeet(x, y) == x.a < y.d /\ y.a < x.d
MayHold(y) == y.ok \/ Len(y.what) > 1

Both(C) == {p \in (DOMAIN C) \X (DOMAIN C) :
    p[1] < p[2] /\ C[p[1]].ok /\ C[p[2]].ok /\ Clash(C[p[1]], C[p[2]]) /\ Together(C[p[1]], C[p[2]])}
Refused(C) == {k \in DOMAIN C :
    /\ ~C[k].ok
    /\ ~\E l \in DOMAIN C : l # k /\ MayHold(C[l]) /\ Clash(C[k], C[l]) /\ MayMeet(C[k], C[l])}
Left(x) == \E k \in DOMAIN x.left : x.left[k] # 1

Faults(x) ==
    (IF Both(x.calls) # {} THEN {"two conflicting borrows at once"} ELSE {})
    \cup (IF Refused(x.calls) # {} THEN {"refused without a conflict"} ELSE {})
    \cup (IF Left(x) THEN {"still borrowed after everything was given back"} ELSE {})
Culprits(x) ==
    IF Both(x.calls) # {} THEN LET p == CHOOSE p \in Both(x.calls) : TRUE IN <<x.calls[p[1]], x.calls[p[2]]>>
    ELSE IF Refused(x.calls) # {} THEN LET k == CHOOSE k \in Refused(x.calls) : TRUE IN <<x.calls[k]>>
    ELSE <<>>
Show(x) ==
    [tags |-> <<"C15">>, at |-> i, field |-> "holds (" \o x.src \o ")",
     want |-> "conflicting borrows exclude each other, others succeed, and all end",
     got |-> ToString(Faults(x)) \o ": " \o ToString(Culprits(x)) \o " left " \o ToString(x.left)]

Init == i = 1
Next ==
    /\ i <= Len(Rec)
    /\ IF Faults(Rec[i]) # {} THEN PrintT("@B " \o ToJson(Show(Rec[i]))) /\ i' = Len(Rec) + 2
       ELSE i' = i + 1
Spec == Init /\ [][Next]_i
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Len(Rec)]))
=============================================================================
