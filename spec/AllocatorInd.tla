---------------------------- MODULE AllocatorInd ----------------------------
(***************************************************************************)
(* Allocator.tla explored from the initial state reaches histories of a    *)
(* bounded length.  Here the length is unbounded: `Ind' describes the      *)
(* states of the allocator however long its history, and TLC starts from   *)
(* EVERY state that satisfies it with at most N indexes and generations up *)
(* to G, and takes one step.  Each step must keep `Ind' (so that `Ind' is  *)
(* an invariant of every history that stays within N indexes and G         *)
(* generations, of whatever length) and must be a step of the abstract     *)
(* allocator, with the replies it promises (C01-C04).                      *)
(*                                                                         *)
(* A successor within the bounds is one of the states started from, so     *)
(* nothing is explored beyond one step.                                    *)
(***************************************************************************)
EXTENDS Allocator

CONSTANTS N, G

(* What may be true of one index: live (by allocate or after a merge), free *)
(* after a death, or raised by an atomic creation; killed or not.           *)
Kinds == [k : {"live"}, g : 1..G, del : BOOLEAN]
    \cup [k : {"free"}, g : (-G)..(-1), del : {FALSE}]
    \cup [k : {"raised"}, g : (-G)..0, del : BOOLEAN]

(* The entities handed out with index i when its generation is g. *)
Abs1(g) == IF g < 0 THEN -g ELSE g
Handed(i, g, r) == {[idx |-> i, gen |-> x] : x \in 1..(IF r THEN Raised(g) ELSE Abs1(g))}
AllHanded == UNION {Handed(i, Gen(gens, i), i \in raised) : i \in 0..(indexLen - 1)}
CurrentAt(i) == [idx |-> i, gen |-> IF i \in raised THEN Raised(Gen(gens, i)) ELSE Gen(gens, i)]

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE x \in S : TRUE IN <<e>> \o Listed(S \ {e})
Perms(S) == {s \in [1..Cardinality(S) -> S] : \A j, k \in 1..Cardinality(S) : j # k => s[j] # s[k]}

IndInit ==
    \E n \in 0..N :
    \E kind \in [0..(n - 1) -> Kinds] :
    LET idx == 0..(n - 1)
        Of(k) == {i \in idx : kind[i].k = k}
        fresh(i) == kind[i].k = "raised" /\ kind[i].g = 0
    IN
    \E m \in {m \in 0..n : \A i \in idx : i >= m => fresh(i)} :
    \E free \in Perms(Of("free")) :
    \E gone \in SUBSET {i \in Of("raised") : kind[i].g < 0} :
    \E tail \in Perms(gone) :
        /\ indexLen = n
        /\ gens = [k \in 1..m |-> kind[k - 1].g]
        /\ alive = Of("live")
        /\ raised = Of("raised")
        /\ killed = {i \in idx : kind[i].del}
        /\ cache = free \o tail
        /\ cacheLen = Len(free)
        /\ ents = Listed(AllHanded)
        /\ live = {h \in 1..Len(ents) : ents[h].idx \in alive \cup raised /\ ents[h] = CurrentAt(ents[h].idx)}
        /\ pend = {h \in live : ents[h].idx \in killed}
        /\ last = [op |-> "init", arg |-> 0, ret |-> "ok"]

Ind ==
    /\ TypeOK
    /\ Len(gens) <= indexLen
    /\ \A i \in 0..(indexLen - 1) :
        /\ i \in alive <=> Gen(gens, i) > 0
        /\ Gen(gens, i) = 0 => i \in raised
    /\ CacheExact
    (* beyond the length lies what atomic creations have taken *)
    /\ \A k \in (cacheLen + 1)..Len(cache) : cache[k] \in raised /\ Gen(gens, cache[k]) < 0
    /\ \A j, k \in 1..Len(cache) : j # k => cache[j] # cache[k]
    /\ {ents[h] : h \in 1..Len(ents)} = AllHanded
    /\ Unique
    /\ live = {h \in 1..Len(ents) : ents[h].idx \in alive \cup raised /\ ents[h] = CurrentAt(ents[h].idx)}
    /\ pend = {h \in live : ents[h].idx \in killed}

IndSpec == IndInit /\ [][Next]_vars

(* The order in which entities were created does not matter to any step. *)
IndView == <<gens, alive, raised, killed, cache, cacheLen, indexLen,
             {<<ents[h], h \in live, h \in pend>> : h \in 1..Len(ents)}>>
Within == /\ indexLen <= N
          /\ \A i \in 0..(indexLen - 1) : Gen(gens, i) \in (-G)..G

(* Every step is one of the abstract allocator or leaves it as it is. *)
StepsRefine == [][Abs!AbsNext]_<<ents, live, pend, indexLen>>
NothingForgotten == [][\A h \in 1..Len(ents) : ents'[h] = ents[h]]_vars
=============================================================================
