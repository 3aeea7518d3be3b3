---------------------------- MODULE AllocatorConc ----------------------------
(***************************************************************************)
(* The concurrent operations of src/entity.rs, one action per access to     *)
(* shared memory: allocate_atomic (a compare-exchange loop on the length    *)
(* of the cache of free indexes, or else on the number of indexes, then     *)
(* the bit in raised_atomic), kill_atomic, is_alive / entity.               *)
(*                                                                         *)
(* Threads start from any state that some history of creations, deletions  *)
(* and merges can leave behind (Setups) and each performs up to NOps calls. *)
(* Every call takes effect in one instant, as a step of ConcAbs: TLC checks *)
(* this refinement over all interleavings, and that at every quiet moment   *)
(* nothing has been lost or used up by the race.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, NOps, Weak   \* Weak: compare_exchange_weak may fail with the expected value there
VARIABLES
    gens, alive, raised, killed, cache, cacheLen, indexLen,   \* as in Allocator.tla; all but raised, killed and the
                                                              \* two lengths are constant while shared
    pc, prev, idx, arg, ret, todo,                            \* per thread
    aents, apend, start                                       \* what was handed out and requested; the start state
shared == <<gens, alive, cache>>
impl == <<gens, alive, raised, killed, cache, cacheLen, indexLen>>
local == <<pc, prev, idx, arg, ret, todo>>
ghost == <<aents, apend>>
vars == <<impl, local, ghost, start>>

Raised(g) == IF g > 0 THEN g ELSE 1 - g
Gen(i) == IF i < Len(gens) THEN gens[i + 1] ELSE 0
E(i, g) == [idx |-> i, gen |-> g]
LiveNow == {E(i, Gen(i)) : i \in alive} \cup {E(i, Raised(Gen(i))) : i \in raised}

Abs == INSTANCE ConcAbs WITH alive_ <- LiveNow

(* Index 0.. of each setup: a generation (positive live, negative or zero   *)
(* dead), whether raised; the cache holds the dead unraised ones, in either *)
(* order.  Entries past Len(gens) are raised since the last merge.         *)
Setups ==
    LET S(g, r, k, c, n) == [gens |-> g, raised |-> r, killed |-> k, cache |-> c, indexLen |-> n]
    IN {S(<<>>, {}, {}, <<>>, 0),
        S(<<1>>, {}, {}, <<>>, 1),
        S(<<-1>>, {}, {}, <<0>>, 1),
        S(<<1, -2>>, {}, {}, <<1>>, 2),
        S(<<-1, -1>>, {}, {}, <<1, 0>>, 2),
        S(<<-1, -3, 1>>, {}, {2}, <<0, 1>>, 3),
        S(<<-2, 1>>, {0}, {}, <<>>, 2),
        S(<<-2, 1>>, {0, 2}, {0}, <<>>, 3),
        S(<<-1, -1, 2>>, {1}, {1}, <<0>>, 3)}

Init ==
    /\ start \in Setups
    /\ gens = start.gens /\ raised = start.raised /\ killed = start.killed
    /\ alive = {i \in 0..(Len(gens) - 1) : gens[i + 1] > 0}
    /\ cache = start.cache /\ cacheLen = Len(cache) /\ indexLen = start.indexLen
    /\ pc = [p \in Procs |-> "idle"] /\ todo = [p \in Procs |-> NOps]
    /\ prev = [p \in Procs |-> 0] /\ idx = [p \in Procs |-> 0]
    /\ arg = [p \in Procs |-> E(0, 1)] /\ ret = [p \in Procs |-> [op |-> "none", e |-> E(0, 1)]]
    /\ aents = {E(i, Gen(i)) : i \in alive} \cup {E(i, Raised(Gen(i))) : i \in raised} \cup
               UNION {{E(i, g) : g \in 1..(IF Gen(i) < 0 THEN -Gen(i) ELSE Gen(i))} : i \in 0..(Len(gens) - 1)}
    /\ apend = {e \in {E(i, Gen(i)) : i \in alive} \cup {E(i, Raised(Gen(i))) : i \in raised} : e.idx \in killed}

Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Done(p, op, e) == /\ Go(p, "idle") /\ ret' = [ret EXCEPT ![p] = [op |-> op, e |-> e]]
Call(p) ==
    /\ pc[p] = "idle" /\ todo[p] > 0
    /\ todo' = [todo EXCEPT ![p] = @ - 1]
    /\ \/ Go(p, "c_load") /\ UNCHANGED arg
       \/ \E e \in aents : arg' = [arg EXCEPT ![p] = e] /\ (Go(p, "k_gen") \/ Go(p, "q_gen"))
    /\ UNCHANGED <<impl, ghost, start, prev, idx, ret>>

(* allocate_atomic *)
CLoad(p) == /\ pc[p] = "c_load" /\ prev' = [prev EXCEPT ![p] = cacheLen]
            /\ Go(p, IF cacheLen = 0 THEN "i_load" ELSE "c_cas")
            /\ UNCHANGED <<impl, ghost, start, idx, arg, ret, todo>>
CCas(p) ==
    /\ pc[p] = "c_cas"
    /\ \/ /\ cacheLen = prev[p]
          /\ cacheLen' = prev[p] - 1
          /\ idx' = [idx EXCEPT ![p] = cache[prev[p]]]
          /\ Go(p, "raise") /\ UNCHANGED prev
       \/ /\ cacheLen # prev[p] \/ Weak
          /\ prev' = [prev EXCEPT ![p] = cacheLen]
          /\ Go(p, IF cacheLen = 0 THEN "i_load" ELSE "c_cas") /\ UNCHANGED <<cacheLen, idx>>
    /\ UNCHANGED <<gens, alive, raised, killed, cache, indexLen, ghost, start, arg, ret, todo>>
ILoad(p) == /\ pc[p] = "i_load" /\ prev' = [prev EXCEPT ![p] = indexLen] /\ Go(p, "i_cas")
            /\ UNCHANGED <<impl, ghost, start, idx, arg, ret, todo>>
ICas(p) ==
    /\ pc[p] = "i_cas"
    /\ \/ /\ indexLen = prev[p]
          /\ indexLen' = prev[p] + 1
          /\ idx' = [idx EXCEPT ![p] = prev[p]]
          /\ Go(p, "raise") /\ UNCHANGED prev
       \/ /\ indexLen # prev[p] \/ Weak
          /\ prev' = [prev EXCEPT ![p] = indexLen]
          /\ UNCHANGED <<indexLen, idx, pc>>
    /\ UNCHANGED <<gens, alive, raised, killed, cache, cacheLen, ghost, start, arg, ret, todo>>
Raise(p) ==
    /\ pc[p] = "raise"
    /\ LET e == E(idx[p], Raised(Gen(idx[p])))
       IN /\ raised' = raised \cup {idx[p]} /\ aents' = aents \cup {e}
          /\ Done(p, "create", e)
    /\ UNCHANGED <<gens, alive, killed, cache, cacheLen, indexLen, apend, start, prev, idx, arg, todo>>

(* is_alive: the generation; if it is dead, whether the index was ever used  *)
(* and the bit in raised_atomic                                             *)
Answer(p, is) ==
    IF pc[p] \in {"q_gen", "q_len", "q_bit"}
    THEN Done(p, IF is THEN "yes" ELSE "no", arg[p]) /\ UNCHANGED <<killed, apend>>
    ELSE IF is THEN Go(p, "kill") /\ UNCHANGED <<killed, apend, ret>>
    ELSE Done(p, "err", arg[p]) /\ UNCHANGED <<killed, apend>>
AGen(p) ==
    /\ pc[p] \in {"k_gen", "q_gen"}
    /\ IF Gen(arg[p].idx) > 0 THEN Answer(p, Gen(arg[p].idx) = arg[p].gen)
       ELSE Go(p, IF pc[p] = "k_gen" THEN "k_len" ELSE "q_len") /\ UNCHANGED <<killed, apend, ret>>
    /\ UNCHANGED <<gens, alive, raised, cache, cacheLen, indexLen, aents, start, prev, idx, arg, todo>>
ALen(p) ==
    /\ pc[p] \in {"k_len", "q_len"}
    /\ IF arg[p].idx >= indexLen THEN Answer(p, FALSE)
       ELSE Go(p, IF pc[p] = "k_len" THEN "k_bit" ELSE "q_bit") /\ UNCHANGED <<killed, apend, ret>>
    /\ UNCHANGED <<gens, alive, raised, cache, cacheLen, indexLen, aents, start, prev, idx, arg, todo>>
ABit(p) ==
    /\ pc[p] \in {"k_bit", "q_bit"}
    /\ Answer(p, arg[p].idx \in raised /\ Raised(Gen(arg[p].idx)) = arg[p].gen)
    /\ UNCHANGED <<gens, alive, raised, cache, cacheLen, indexLen, aents, start, prev, idx, arg, todo>>
KillBit(p) ==
    /\ pc[p] = "kill"
    /\ killed' = killed \cup {arg[p].idx} /\ apend' = apend \cup {arg[p]}
    /\ Done(p, "ok", arg[p])
    /\ UNCHANGED <<gens, alive, raised, cache, cacheLen, indexLen, aents, start, prev, idx, arg, todo>>

Step(p) == CLoad(p) \/ CCas(p) \/ ILoad(p) \/ ICas(p) \/ Raise(p) \/ AGen(p) \/ ALen(p) \/ ABit(p) \/ KillBit(p)
Next == \E p \in Procs : Call(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Procs : WF_vars(Step(p))

-----------------------------------------------------------------------------
(* Each call is one step of the abstract machine, with the right reply. *)
Refines == [][Abs!ANext]_(Abs!avars)
Replies ==
    [][\A p \in Procs : (pc[p] # "idle" /\ pc'[p] = "idle") =>
         LET e == ret'[p].e
         IN CASE ret'[p].op = "create" -> Abs!ACreate(e)
              [] ret'[p].op = "ok"  -> Abs!ADelete(e)
              [] ret'[p].op = "err" -> Abs!ARefuse(e)
              [] ret'[p].op = "yes" -> e \in LiveNow
              [] ret'[p].op = "no"  -> e \notin LiveNow]_vars
(* At a quiet moment: the free indexes are those in the cache, each once,   *)
(* fresh indexes were taken only for want of free ones, and what will be    *)
(* deleted is what was asked for.                                          *)
Quiet == \A p \in Procs : pc[p] = "idle"
QuietLow ==
    Quiet =>
        /\ {cache[k] : k \in 1..cacheLen} = (0..(indexLen - 1)) \ {e.idx : e \in LiveNow}
        /\ \A j, k \in 1..cacheLen : j # k => cache[j] # cache[k]
        /\ indexLen = LET n == Cardinality(LiveNow) IN IF n > start.indexLen THEN n ELSE start.indexLen
        /\ killed = {e.idx : e \in apend}
        /\ apend \subseteq LiveNow
        /\ alive \cap raised = {}
(* A thread that keeps taking steps finishes, whatever the others do.       *)
Progress == \A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle"
Symm == Permutations(Procs)
=============================================================================
