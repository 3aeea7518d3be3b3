------------------------------ MODULE Allocator ------------------------------
(***************************************************************************)
(* The entity allocator as src/entity.rs implements it: one action per     *)
(* public operation, each operation written in the steps the code takes.   *)
(* The atomic operations are one step here; AllocatorConc.tla splits them  *)
(* into the individual atomic accesses.                                    *)
(*                                                                         *)
(* TLC checks that every behaviour of this machine is a behaviour of the   *)
(* abstract allocator EntityAbs (refinement), and that its liveness query, *)
(* lookup, live set and join agree with the abstract state.                *)
(*                                                                         *)
(* With EmitNode / EmitEdge the complete state graph is written out; the   *)
(* harness drives the real Allocator along every edge of it.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
    MaxHandles,   \* bound: number of creations in one behaviour
    MaxUsed,      \* bound: number of indexes ever used
    WithForeign   \* whether requests with foreign entities are generated

VARIABLES
    gens,         \* generations: Seq(Int), generations[idx] is gens[idx+1]
    alive,        \* alive: set of indexes
    raised,       \* raised_atomic
    killed,       \* killed_atomic
    cache,        \* cache.cache: Seq of indexes
    cacheLen,     \* cache.len
    indexLen,     \* index_len
    \* history
    ents,         \* every entity handed out
    live, pend,   \* abstract status, see EntityAbs
    last          \* the operation just performed and its reply

impl == <<gens, alive, raised, killed, cache, cacheLen, indexLen>>
vars == <<gens, alive, raised, killed, cache, cacheLen, indexLen, ents, live, pend, last>>
View == <<gens, alive, raised, killed, cache, cacheLen, indexLen, ents, live, pend>>

Abs == INSTANCE EntityAbs WITH used <- indexLen

-----------------------------------------------------------------------------
(* Generation arithmetic: 0 and negative are dead, positive is live. *)
Raised(g) == IF g > 0 THEN g ELSE 1 - g
Killed(g) == IF g > 0 THEN -g ELSE g
Gen(gs, i) == IF i < Len(gs) THEN gs[i + 1] ELSE 0

(* update_generation_length *)
Grow(gs, n) == IF Len(gs) < n THEN gs \o [k \in 1..(n - Len(gs)) |-> 0] ELSE gs

(* EntityCache::maintain *)
Maintained == SubSeq(cache, 1, cacheLen)

(* Allocator::entity: the generation of the live entity at an index, or 0 *)
ImplGenAt(i) ==
    IF Gen(gens, i) > 0 THEN Gen(gens, i)
    ELSE IF i \in raised THEN Raised(Gen(gens, i)) ELSE 0
ImplIsAlive(e) == ImplGenAt(e.idx) = e.gen

Ok(op, arg, r) == last' = [op |-> op, arg |-> arg, ret |-> r]

-----------------------------------------------------------------------------
Init ==
    /\ gens = <<>> /\ alive = {} /\ raised = {} /\ killed = {}
    /\ cache = <<>> /\ cacheLen = 0 /\ indexLen = 0
    /\ ents = <<>> /\ live = {} /\ pend = {}
    /\ last = [op |-> "init", arg |-> 0, ret |-> "ok"]

NewEntity(e) ==
    /\ ents' = Append(ents, e)
    /\ live' = live \cup {Len(ents) + 1}

(* What a creation promises about the entity it returns (C01, C04). *)
Last(s) == s[Len(s)]
Reply(e) == [fresh |-> \A h \in 1..Len(ents) : ents[h] # e,
             alive |-> (Len(ents) + 1) \in live',
             solo  |-> \A h \in live : ents[h].idx # e.idx,
             genpos |-> e.gen > 0,
             low   |-> e.idx < indexLen']

Allocate ==
    /\ Len(ents) < MaxHandles
    /\ LET c == Maintained
           reuse == c # <<>>
           i == IF reuse THEN c[Len(c)] ELSE indexLen
           gs == IF reuse THEN gens ELSE Grow(gens, indexLen + 1)
           g == Raised(gs[i + 1])
       IN /\ reuse \/ indexLen < MaxUsed
          /\ cache' = IF reuse THEN SubSeq(c, 1, Len(c) - 1) ELSE c
          /\ cacheLen' = Len(cache')
          /\ indexLen' = IF reuse THEN indexLen ELSE indexLen + 1
          /\ alive' = alive \cup {i}
          /\ gens' = [gs EXCEPT ![i + 1] = g]
          /\ NewEntity([idx |-> i, gen |-> g])
    /\ Ok("allocate", 0, Reply(Last(ents')))
    /\ UNCHANGED <<raised, killed, pend>>

AllocateAtomic ==
    /\ Len(ents) < MaxHandles
    /\ LET reuse == cacheLen # 0
           i == IF reuse THEN cache[cacheLen] ELSE indexLen
       IN /\ reuse \/ indexLen < MaxUsed
          /\ cacheLen' = IF reuse THEN cacheLen - 1 ELSE cacheLen
          /\ indexLen' = IF reuse THEN indexLen ELSE indexLen + 1
          /\ raised' = raised \cup {i}
          /\ NewEntity([idx |-> i, gen |-> Raised(Gen(gens, i))])
    /\ Ok("allocate_atomic", 0, Reply(Last(ents')))
    /\ UNCHANGED <<gens, alive, killed, cache, pend>>

(* Kill and KillAtomic take any entity ever handed out, live or not. *)
Kill(h) ==
    LET e == ents[h]
        i == e.idx
    IN IF ~ImplIsAlive(e)
       THEN /\ Ok("kill", h, "err")
            /\ UNCHANGED <<gens, alive, raised, killed, cache, cacheLen, indexLen, ents, live, pend>>
       ELSE /\ alive' = alive \ {i}
            /\ killed' = killed \ {i}
            /\ raised' = raised \ {i}
            /\ gens' = IF i \in raised
                       THEN LET gs == Grow(gens, indexLen)
                            IN [gs EXCEPT ![i + 1] = Killed(Raised(gs[i + 1]))]
                       ELSE [gens EXCEPT ![i + 1] = Killed(gens[i + 1])]
            /\ cache' = Append(Maintained, i)
            /\ cacheLen' = Len(cache')
            /\ live' = live \ {h}
            /\ pend' = pend \ {h}
            /\ Ok("kill", h, "ok")
            /\ UNCHANGED <<indexLen, ents>>

KillAtomic(h) ==
    LET e == ents[h]
    IN IF ~ImplIsAlive(e)
       THEN /\ Ok("kill_atomic", h, "err")
            /\ UNCHANGED <<gens, alive, raised, killed, cache, cacheLen, indexLen, ents, live, pend>>
       ELSE /\ killed' = killed \cup {e.idx}
            /\ pend' = pend \cup {h}
            /\ Ok("kill_atomic", h, "ok")
            /\ UNCHANGED <<gens, alive, raised, cache, cacheLen, indexLen, ents, live>>

(* merge_atomic reports the killed entities in ascending index order. *)
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                     IN <<m>> \o Ascending(S \ {m})

MergeAtomic ==
    LET gs0 == Grow(gens, indexLen)
        gs1 == [k \in 1..Len(gs0) |-> IF (k - 1) \in raised THEN Raised(gs0[k]) ELSE gs0[k]]
        kl == Ascending(killed)
        rep == {h \in 1..Len(ents) : ents[h].idx \in killed /\ ents[h].gen = gs1[ents[h].idx + 1]}
    IN /\ gens' = [k \in 1..Len(gs1) |-> IF (k - 1) \in killed THEN Killed(gs1[k]) ELSE gs1[k]]
       /\ alive' = (alive \cup raised) \ killed
       /\ raised' = {}
       /\ killed' = {}
       /\ cache' = Maintained \o kl
       /\ cacheLen' = Len(cache')
       /\ live' = live \ pend
       /\ pend' = {}
       /\ Ok("merge", 0, rep)
       /\ UNCHANGED <<indexLen, ents>>

(* Entities this allocator never handed out. *)
Foreign(which) ==
    IF which = 1 THEN [idx |-> 0, gen |-> 90]
    ELSE IF which = 2 THEN [idx |-> Len(ents) + 70, gen |-> 1]
    ELSE IF which = 3 THEN [idx |-> indexLen, gen |-> 1]
    ELSE [idx |-> 20000000, gen |-> 1]
KillForeign(w, atomic) ==
    /\ Ok(IF atomic THEN "kill_atomic_foreign" ELSE "kill_foreign", w,
          IF ImplIsAlive(Foreign(w)) THEN "ok" ELSE "err")
    /\ UNCHANGED <<gens, alive, raised, killed, cache, cacheLen, indexLen, ents, live, pend>>

Next ==
    \/ Allocate
    \/ AllocateAtomic
    \/ \E h \in 1..Len(ents) : Kill(h) \/ KillAtomic(h)
    \/ MergeAtomic
    \/ /\ WithForeign
       /\ \E w \in 1..4, a \in BOOLEAN : KillForeign(w, a)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* Properties of the machine *)

TypeOK ==
    /\ \A k \in 1..Len(gens) : gens[k] \in Int
    /\ alive \subseteq 0..(indexLen - 1)
    /\ raised \subseteq 0..(indexLen - 1)
    /\ killed \subseteq alive \cup raised
    /\ cacheLen <= Len(cache)
    /\ alive \cap raised = {}

RepliesKept ==
    [][last'.op \in {"allocate", "allocate_atomic"} =>
         last'.ret = [fresh |-> TRUE, alive |-> TRUE, solo |-> TRUE, genpos |-> TRUE, low |-> TRUE]]_vars

(* C02: query, lookup, live set and join all show the abstract live set. *)
QueryAgrees == \A h \in 1..Len(ents) : ImplIsAlive(ents[h]) <=> h \in live
LookupAgrees == \A i \in 0..(indexLen + 1) :
    ImplGenAt(i) = LET h == Abs!HandleAt(i) IN IF h = 0 THEN 0 ELSE ents[h].gen
LiveSetAgrees == alive \cup raised = {ents[h].idx : h \in live}
JoinAgrees == \A i \in alive \cup raised :
    \E h \in live : ents[h] = [idx |-> i, gen |-> Raised(Gen(gens, i))]
ForeignDead == \A w \in 1..4 : ~ImplIsAlive(Foreign(w))

(* C03: the report of a merge is the set of entities that were pending. *)
MergeReport == [][last'.op = "merge" => last'.ret = pend]_vars
(* C03: a deferred request is invisible. *)
DeferredInvisible ==
    [][last'.op \in {"kill_atomic"} => \A h \in 1..Len(ents) : ImplIsAlive(ents[h]) <=> ImplIsAlive(ents[h])']_vars

(* C04: the free cache is exactly the free used indexes, without repetition *)
CacheExact ==
    /\ {cache[k] : k \in 1..cacheLen} = (0..(indexLen - 1)) \ (alive \cup raised)
    /\ \A j, k \in 1..cacheLen : j # k => cache[j] # cache[k]
Peak == Cardinality(live) <= indexLen

(* Every step is a step of the abstract allocator. *)
Refines == Abs!AbsSpec
Unique == Abs!Unique
OneLivePerIndex == Abs!OneLivePerIndex
GenPositive == Abs!GenPositive
IndexesLow == Abs!IndexesLow
NoResurrection == Abs!NoResurrection
DeathsAreRequested == Abs!DeathsAreRequested
ReuseFirst == Abs!ReuseFirst

-----------------------------------------------------------------------------
(* Emission of the state graph for replay into the implementation *)
Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
(* What a user can see: by the liveness query, by looking indexes up, in the *)
(* live set, in a join, and whether any foreign entity seems alive.          *)
Obs == [live |-> live, look |-> live, set |-> live, join |-> live,
        used |-> indexLen, n |-> Len(ents), foreign |-> FALSE]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
