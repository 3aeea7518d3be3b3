------------------------------- MODULE Storage -------------------------------
(***************************************************************************)
(* A component storage: MaskedStorage over any of the provided raw         *)
(* storages (src/masked.rs, src/storage.rs, src/tracked.rs).               *)
(*                                                                         *)
(* `val' is what the user relies on: the map from index to value (0: no    *)
(* value).  `slots' is the dense layout: a sequence of [idx, v] with       *)
(* removal by swapping in the last slot.  `tracking' and `modified' are    *)
(* the change tracking of Flagged; they stay FALSE / {} if Tracked is      *)
(* FALSE, and then the module describes the plain storages.                *)
(*                                                                         *)
(* Every reply also says which values the storage must have destroyed      *)
(* during the operation (`gone', a bag written as a sorted sequence) and   *)
(* whether the call must panic; the harness counts destructions with       *)
(* instrumented values.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
    NI,         \* indexes are 1..NI (the harness maps them monotonically to real indexes)
    NV,         \* values are 1..NV
    Tracked     \* TRUE: change tracking

VARIABLES val, slots, tracking, modified, last

Idx == 1..NI
Values == 1..NV
vars == <<val, slots, tracking, modified, last>>
View == <<val, slots, tracking, modified>>

Mask == {i \in Idx : val[i] # 0}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>>
          ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Prefix(s, k) == SubSeq(s, 1, IF k < Len(s) THEN k ELSE Len(s))
Range(s) == {s[k] : k \in 1..Len(s)}

(* The values at the indexes S, as a bag: a sequence sorted by index. *)
Bag(S) == [k \in 1..Cardinality(S) |-> val[Asc(S)[k]]]
Items(S) == [k \in 1..Cardinality(S) |-> <<Asc(S)[k], val[Asc(S)[k]]>>]

(* Flagging: what a mutable access to the indexes S adds to the modified set. *)
Flag(S) == IF tracking THEN modified \cup S ELSE modified

R(v) == [val |-> v, gone |-> <<>>, panic |-> FALSE]
Do(op, a, v, ret) == last' = [op |-> op, arg |-> [i |-> a, v |-> v], ret |-> ret]
Same == UNCHANGED <<val, slots, tracking, modified>>

(* Dense layout *)
SlotOf(i) == CHOOSE k \in 1..Len(slots) : slots[k].idx = i
SlotsInsert(i, v) == Append(slots, [idx |-> i, v |-> v])
SlotsRemove(i) ==
    LET k == SlotOf(i)
        n == Len(slots)
    IN SubSeq([slots EXCEPT ![k] = slots[n]], 1, n - 1)
SlotsWrite(S, v) == [k \in 1..Len(slots) |-> IF slots[k].idx \in S THEN [slots[k] EXCEPT !.v = v] ELSE slots[k]]
Write(S, v) == /\ val' = [i \in Idx |-> IF i \in S THEN v ELSE val[i]]
               /\ slots' = SlotsWrite(S, v)

Init ==
    /\ val = [i \in Idx |-> 0] /\ slots = <<>>
    /\ tracking = FALSE /\ modified = {}
    /\ last = [op |-> "init", arg |-> [i |-> 0, v |-> 0], ret |-> R(0)]

-----------------------------------------------------------------------------
Insert(i, v) ==
    /\ IF val[i] # 0 THEN Write({i}, v)
       ELSE val' = [val EXCEPT ![i] = v] /\ slots' = SlotsInsert(i, v)
    /\ modified' = Flag({i})
    /\ Do("insert", i, v, R(val[i]))
    /\ UNCHANGED tracking

Remove(i) ==
    /\ IF val[i] = 0 THEN Same
       ELSE /\ val' = [val EXCEPT ![i] = 0] /\ slots' = SlotsRemove(i)
            /\ modified' = Flag({i})
            /\ UNCHANGED tracking
    /\ Do("remove", i, 0, R(val[i]))

Get(i) == Same /\ Do("get", i, 0, R(val[i]))

(* get_mut: v = 0 looks only, otherwise v is written.  The reply is the value found. *)
GetMut(i, v) ==
    /\ IF val[i] = 0 THEN Same
       ELSE /\ IF v = 0 THEN UNCHANGED <<val, slots>> ELSE Write({i}, v)
            /\ modified' = Flag({i})
            /\ UNCHANGED tracking
    /\ Do("get_mut", i, v, R(val[i]))

(* get_guard: only the guard's mutable access counts as a modification. *)
GuardPeek(i) == Same /\ Do("guard_peek", i, 0, R(val[i] # 0))
GuardRead(i) == Same /\ Do("guard_read", i, 0, R(val[i]))
GuardWrite(i, v) ==
    /\ IF val[i] = 0 THEN Same
       ELSE Write({i}, v) /\ modified' = Flag({i}) /\ UNCHANGED tracking
    /\ Do("guard_write", i, v, R(val[i]))
GuardMark(i) ==
    /\ Tracked
    /\ modified' = IF val[i] # 0 THEN modified \cup {i} ELSE modified
    /\ UNCHANGED <<val, slots, tracking>>
    /\ Do("guard_mark", i, 0, R(val[i] # 0))

(* get_or_insert_with: replies with the value then at the index, and whether *)
(* the closure was called.                                                   *)
GetOrInsert(i, v) ==
    /\ IF val[i] # 0 THEN UNCHANGED <<val, slots>>
       ELSE val' = [val EXCEPT ![i] = v] /\ slots' = SlotsInsert(i, v)
    /\ modified' = Flag({i})
    /\ UNCHANGED tracking
    /\ Do("goi", i, v, R(<<val'[i], val[i] = 0>>))
(* The closure panics: nothing may have changed. *)
GetOrInsertPanic(i) ==
    /\ IF val[i] # 0 THEN modified' = Flag({i}) /\ UNCHANGED <<val, slots, tracking>> ELSE Same
    /\ Do("goi_panic", i, 0, [val |-> val[i], gone |-> <<>>, panic |-> val[i] = 0])

-----------------------------------------------------------------------------
(* Joins over the storage.  k items are taken. *)
JoinRead(par) ==
    /\ Same
    /\ Do(IF par THEN "par_join" ELSE "join", 0, 0, R(Items(Mask)))
JoinMut(k, v) ==
    LET S == Range(Prefix(Asc(Mask), k))
    IN /\ Write(S, v)
       /\ modified' = Flag(S)
       /\ UNCHANGED tracking
       /\ Do("join_mut", k, v, R(Items(S)))
(* The join's body panics at the k-th item, after writing to it. *)
JoinMutPanic(k, v) ==
    LET S == Range(Prefix(Asc(Mask), k))
    IN /\ k <= Cardinality(Mask)
       /\ Write(S, v)
       /\ modified' = Flag(S)
       /\ UNCHANGED tracking
       /\ Do("join_mut_panic", k, v, [val |-> Items(S), gone |-> <<>>, panic |-> TRUE])
ParJoinMut(v) ==
    /\ Write(Mask, v)
    /\ modified' = Flag(Mask)
    /\ UNCHANGED tracking
    /\ Do("par_join_mut", 0, v, R(Items(Mask)))
(* A guarded join reads every item and writes to those holding the value w. *)
GuardJoin(par, w, v) ==
    LET S == {i \in Mask : val[i] = w}
    IN /\ Write(S, v)
       /\ modified' = Flag(S)
       /\ UNCHANGED tracking
       /\ Do(IF par THEN "par_guard_join" ELSE "guard_join", w, v, R(Items(Mask)))

-----------------------------------------------------------------------------
(* The slice view of dense storages: every value once. *)
SliceSet(i, v) ==
    /\ ~Tracked
    /\ val[i] # 0
    /\ Write({i}, v)
    /\ UNCHANGED <<tracking, modified>>
    /\ Do("slice_set", i, v, R(val[i]))
(* Swapping two elements of the slice swaps the values of their indexes. *)
SliceSwap(i, j) ==
    /\ ~Tracked
    /\ i < j /\ val[i] # 0 /\ val[j] # 0
    /\ val' = [val EXCEPT ![i] = val[j], ![j] = val[i]]
    /\ slots' = [k \in 1..Len(slots) |->
                   IF slots[k].idx = i THEN [slots[k] EXCEPT !.v = val[j]]
                   ELSE IF slots[k].idx = j THEN [slots[k] EXCEPT !.v = val[i]] ELSE slots[k]]
    /\ UNCHANGED <<tracking, modified>>
    /\ Do("slice_swap", i, j, R(0))

-----------------------------------------------------------------------------
(* Change tracking *)
SetTrack(b) ==
    /\ Tracked
    /\ tracking' = b
    /\ UNCHANGED <<val, slots, modified>>
    /\ Do("set_track", IF b THEN 1 ELSE 0, 0, R(0))
ClearModified ==
    /\ Tracked
    /\ modified' = {}
    /\ UNCHANGED <<val, slots, tracking>>
    /\ Do("clear_modified", 0, 0, R(0))
Mark(i) ==
    /\ Tracked
    /\ modified' = modified \cup {i}
    /\ UNCHANGED <<val, slots, tracking>>
    /\ Do("mark", i, 0, R(0))
ModJoin(par) ==
    /\ Tracked
    /\ Same
    /\ Do(IF par THEN "par_mod_join" ELSE "mod_join", 0, 0, R(Items(modified)))
ModJoinMut(par, v) ==
    /\ Tracked
    /\ Write(Mask \cap modified, v)
    /\ modified' = Flag(modified)
    /\ UNCHANGED tracking
    /\ Do(IF par THEN "par_mod_join_mut" ELSE "mod_join_mut", 0, v, R(Items(modified)))

-----------------------------------------------------------------------------
(* The storage is dropped (and a fresh one put in its place): every value is *)
(* destroyed, also if the destructor of the value at i panics.               *)
Fresh == /\ val' = [i \in Idx |-> 0] /\ slots' = <<>>
         /\ tracking' = FALSE /\ modified' = {}
DropAll(o) ==     \* also while a panic unwinds
    /\ Fresh
    /\ Do(o, 0, 0, [val |-> 0, gone |-> Bag(Mask), panic |-> FALSE])
DropPanic(i) ==
    /\ val[i] # 0
    /\ Fresh
    /\ Do("drop_panic", i, 0, [val |-> 0, gone |-> Bag(Mask), panic |-> TRUE])

Next ==
    \/ \E i \in Idx :
        \/ Remove(i) \/ Get(i) \/ GuardPeek(i) \/ GuardRead(i) \/ GuardMark(i)
        \/ GetOrInsertPanic(i) \/ Mark(i) \/ DropPanic(i)
        \/ \E v \in Values : Insert(i, v) \/ GetOrInsert(i, v) \/ SliceSet(i, v) \/ GuardWrite(i, v)
        \/ \E v \in 0..NV : GetMut(i, v)
        \/ \E j \in Idx : SliceSwap(i, j)
    \/ \E v \in Values :
        \/ \E k \in 0..NI : JoinMut(k, v)
        \/ \E k \in 1..NI : JoinMutPanic(k, v)
        \/ ParJoinMut(v)
        \/ \E w \in Values, p \in BOOLEAN : w # v /\ GuardJoin(p, w, v)
        \/ \E p \in BOOLEAN : ModJoinMut(p, v)
    \/ \E p \in BOOLEAN : JoinRead(p) \/ ModJoin(p)
    \/ \E b \in BOOLEAN : SetTrack(b)
    \/ ClearModified
    \/ \E o \in {"drop", "drop_unwinding"} : DropAll(o)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ val \in [Idx -> 0..NV]
    /\ tracking \in BOOLEAN
    /\ modified \subseteq Idx

(* C08: the dense layout holds exactly the present values, each once. *)
SlotsAgree ==
    /\ Len(slots) = Cardinality(Mask)
    /\ \A k \in 1..Len(slots) : val[slots[k].idx] = slots[k].v
    /\ \A j, k \in 1..Len(slots) : j # k => slots[j].idx # slots[k].idx

(* C06: an operation on index i affects no other index. *)
PointOps == {"insert", "remove", "get", "get_mut", "guard_peek", "guard_read", "guard_write",
             "guard_mark", "goi", "goi_panic", "slice_set", "mark"}
OthersUntouched ==
    [][last'.op \in PointOps => \A i \in Idx : i # last'.arg.i => val'[i] = val[i]]_vars
(* C06: insert replies with the previous value and stores the new one. *)
InsertStores == [][last'.op = "insert" => val'[last'.arg.i] = last'.arg.v /\ last'.ret.val = val[last'.arg.i]]_vars
(* C09: the modified set shrinks only by an explicit clear (or a drop). *)
ModifiedGrows ==
    [][modified \subseteq modified' \/ last'.op \in {"clear_modified", "drop", "drop_unwinding", "drop_panic"}]_vars
OffAddsNothing ==
    [][~tracking /\ last'.op \notin {"mark", "guard_mark"} => modified' \subseteq modified]_vars
ReadsAddNothing ==
    [][last'.op \in {"get", "guard_peek", "guard_read", "join", "par_join", "mod_join", "par_mod_join", "set_track"}
         => modified' = modified]_vars
(* C09: every index whose value changed while tracking is in the modified set. *)
ChangesAreTracked ==
    [][tracking /\ last'.op \notin {"drop", "drop_unwinding", "drop_panic"}
         => \A i \in Idx : val'[i] # val[i] => i \in modified']_vars
(* C07: only dropping the storage destroys values. *)
NothingElseDestroys == [][Len(last'.ret.gone) > 0 => last'.op \in {"drop", "drop_unwinding", "drop_panic"}]_vars
AllDestroyed == [][last'.op \in {"drop", "drop_unwinding", "drop_panic"} => Len(last'.ret.gone) = Cardinality(Mask)]_vars

-----------------------------------------------------------------------------
Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
(* What a user can see. *)
Obs == [map |-> val, mask |-> Mask, contains |-> Mask, items |-> Items(Mask),
        tracking |-> tracking, modified |-> modified,
        slice |-> Bag(Mask), held |-> Cardinality(Mask), errors |-> 0]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
