------------------------------- MODULE ConcAbs -------------------------------
(***************************************************************************)
(* Entities made, marked for deletion and looked up by several threads at   *)
(* once, with no mention of how (property C05): each call takes effect at   *)
(* one instant between its invocation and its return, as one of these      *)
(* steps.  Unlike EntityAbs a creation may here take an index that was     *)
(* never used while a used one is still free, if at that instant another   *)
(* creation is about to take the free one; the number of indexes used at a  *)
(* quiet moment is what it would be without the race (QuietLow).           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

VARIABLES
    aents,    \* set of [idx, gen]: every entity ever handed out
    alive_,   \* SUBSET aents: those that are live
    apend     \* SUBSET alive_: those with a request for deletion
avars == <<aents, alive_, apend>>

At(i) == {e \in alive_ : e.idx = i}
ACreate(e) ==
    /\ e.gen > 0
    /\ e \notin aents
    /\ At(e.idx) = {}
    /\ \A f \in aents : f.idx = e.idx => f.gen < e.gen
    /\ aents' = aents \cup {e}
    /\ alive_' = alive_ \cup {e}
    /\ UNCHANGED apend
ADelete(e) == e \in alive_ /\ apend' = apend \cup {e} /\ UNCHANGED <<aents, alive_>>
ARefuse(e) == e \notin alive_ /\ UNCHANGED avars
ANext == \E i \in 0..9, g \in 1..9 : LET e == [idx |-> i, gen |-> g] IN ACreate(e) \/ ADelete(e)
ASpec(Start) == Start /\ [][ANext]_avars
Indexes == {e.idx : e \in aents}
=============================================================================
