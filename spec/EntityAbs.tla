------------------------------ MODULE EntityAbs ------------------------------
(***************************************************************************)
(* What a user of the entity allocator relies on, with no mention of how   *)
(* it is implemented.  An entity is a pair [idx, gen].  `ents' is the      *)
(* sequence of every entity ever handed out, in creation order; an entity  *)
(* is referred to below by its position in that sequence (its handle).     *)
(*                                                                         *)
(* Which free index a creation takes is left open: any index that is not   *)
(* occupied by a live entity may be chosen, but a never-used index only if *)
(* no used index is free (property C04).                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES
    ents,     \* Seq([idx : Nat, gen : Nat \ {0}]): every entity ever created
    live,     \* SUBSET 1..Len(ents): the handles that are live
    pend,     \* SUBSET live: live handles with a pending deferred deletion
    used      \* number of indexes ever used: they are 0 .. used-1

absvars == <<ents, live, pend, used>>

Handles == 1..Len(ents)
Occupied == {ents[h].idx : h \in live}
Free == (0..(used-1)) \ Occupied

IsLive(e) == \E h \in live : ents[h] = e
HandleAt(i) == IF \E h \in live : ents[h].idx = i
               THEN CHOOSE h \in live : ents[h].idx = i
               ELSE 0

AbsInit == ents = <<>> /\ live = {} /\ pend = {} /\ used = 0

(* The entities a creation may return now. *)
MayCreate(e) ==
    /\ e.gen > 0
    /\ IF Free = {} THEN e.idx = used ELSE e.idx \in Free
    /\ \A h \in Handles : ents[h] # e

Create(e) ==
    /\ MayCreate(e)
    /\ ents' = Append(ents, e)
    /\ live' = live \cup {Len(ents) + 1}
    /\ used' = IF e.idx = used THEN used + 1 ELSE used
    /\ UNCHANGED pend

KillNow(h) ==
    /\ h \in live
    /\ live' = live \ {h}
    /\ pend' = pend \ {h}
    /\ UNCHANGED <<ents, used>>

KillLater(h) ==
    /\ h \in live
    /\ pend' = pend \cup {h}
    /\ UNCHANGED <<ents, live, used>>

Merge ==
    /\ live' = live \ pend
    /\ pend' = {}
    /\ UNCHANGED <<ents, used>>

(* A refused request: the entity is dead or foreign; nothing changes. *)
Refused == UNCHANGED absvars

AbsNext ==
    \/ \E i \in 0..used, g \in 1..(Len(ents) + 1) : Create([idx |-> i, gen |-> g])
    \/ \E h \in Handles : KillNow(h) \/ KillLater(h)
    \/ Merge

AbsSpec == AbsInit /\ [][AbsNext]_absvars

-----------------------------------------------------------------------------
(* Properties *)

AbsTypeOK ==
    /\ live \subseteq Handles
    /\ pend \subseteq live
    /\ used \in Nat

(* C01 *)
Unique == \A h, k \in Handles : h # k => ents[h] # ents[k]
OneLivePerIndex == \A h, k \in live : h # k => ents[h].idx # ents[k].idx
GenPositive == \A h \in Handles : ents[h].gen > 0
CreatedIsLive == [][Len(ents') > Len(ents) => Len(ents') \in live']_absvars

(* C02: no resurrection *)
NoResurrection == [][\A h \in Handles : h \notin live => h \notin live']_absvars
NothingForgotten == [][\A h \in Handles : ents'[h] = ents[h]]_absvars

(* C03: an entity dies either by an immediate deletion (one entity, no     *)
(* other changes) or in a merge, and then exactly the pending ones do.     *)
DeathsAreRequested ==
    [][live \ live' # {} =>
         \/ Cardinality(live \ live') = 1 /\ pend' = pend \ (live \ live')
         \/ live \ live' = pend /\ pend' = {}]_absvars

(* C04 *)
IndexesLow == \A h \in Handles : ents[h].idx < used
ReuseFirst == [][used' > used => Free = {} /\ used' = used + 1]_absvars
=============================================================================
