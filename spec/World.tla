-------------------------------- MODULE World --------------------------------
(***************************************************************************)
(* Entities and their components in a world (src/world.rs): component      *)
(* storages are registered and removed, entities are created and die at    *)
(* once or at a merge, indexes are reused, and components are reached       *)
(* through handles that may be dead.                                       *)
(*                                                                         *)
(* What the user relies on is `comp': the component values of each entity. *)
(* A dead entity has none, and a new one starts with none whichever index  *)
(* it got.  Indexes are modelled (last freed first reused) so that every   *)
(* pattern of reuse is a state of its own and gets replayed.               *)
(*                                                                         *)
(* Values carry a tag 100h + 10c + v naming the entity and type they were  *)
(* given to, so a value that turns up elsewhere is recognised.  Replies    *)
(* list the values the world must have destroyed (`gone') and whether the  *)
(* call must panic.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
    MaxH,     \* entities created in one behaviour
    NC,       \* component types 1..NC
    NV,       \* values 1..NV
    Tracked   \* whether type NC tracks its changes

VARIABLES
    hidx,     \* Seq(Nat): index of each entity ever created
    st,       \* Seq({"live", "pend", "dead"})
    raised,   \* entities created through a shared reference since the last merge
    free,     \* Seq(Nat): free indexes, the last is reused first
    comp,     \* [1..NC -> Seq(0..NV)]: value of each entity, 0 for none
    reg,      \* registered types
    tracking, modified,   \* change tracking of type NC: modified is a set of indexes
    last

vars == <<hidx, st, raised, free, comp, reg, tracking, modified, last>>
View == <<hidx, st, raised, free, comp, reg, tracking, modified>>

H == 1..Len(hidx)
C == 1..NC
V == 1..NV
Live == {h \in H : st[h] # "dead"}
Pend == {h \in H : st[h] = "pend"}
NIdx == Cardinality({hidx[h] : h \in H})
Tag(h, c, v) == 100 * h + 10 * c + v

RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>>
          ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
(* tags of the components of the entities S in the types T *)
TagsOf(S, T) == {Tag(h, c, comp[c][h]) : h \in {x \in S : TRUE}, c \in T}
Held(S, T) == Asc({t \in TagsOf(S, T) : t % 10 # 0})

R(v) == [val |-> v, gone |-> <<>>, panic |-> FALSE]
RG(v, g) == [val |-> v, gone |-> g, panic |-> FALSE]
Do(op, h, c, v, ret) == last' = [op |-> op, arg |-> [h |-> h, c |-> c, v |-> v], ret |-> ret]
(* recorded with a deletion: how many types are not registered *)
Missing == Cardinality(C \ reg)
Same == UNCHANGED <<hidx, st, raised, free, comp, reg, tracking, modified>>
SameEnts == UNCHANGED <<hidx, st, raised, free>>
Flag(c, S) == IF c = NC /\ tracking THEN modified \cup {hidx[h] : h \in S} ELSE modified

Init ==
    /\ hidx = <<>> /\ st = <<>> /\ raised = {} /\ free = <<>>
    /\ comp = [c \in C |-> <<>>]
    /\ reg = C
    /\ tracking = FALSE /\ modified = {}
    /\ last = [op |-> "init", arg |-> [h |-> 0, c |-> 0, v |-> 0], ret |-> R(0)]

-----------------------------------------------------------------------------
(* Entities *)
Create(atomic) ==
    /\ Len(hidx) < MaxH
    /\ LET i == IF free # <<>> THEN free[Len(free)] ELSE NIdx
       IN /\ hidx' = Append(hidx, i)
          /\ free' = IF free # <<>> THEN SubSeq(free, 1, Len(free) - 1) ELSE free
          /\ st' = Append(st, "live")
          /\ raised' = IF atomic THEN raised \cup {Len(hidx) + 1} ELSE raised
          /\ comp' = [c \in C |-> Append(comp[c], 0)]
          \* the index is told to the harness only so that it can name modified indexes
          /\ Do(IF atomic THEN "create_atomic" ELSE "create", i, 0, 0, R(0))
    /\ UNCHANGED <<reg, tracking, modified>>

Without(S) == [c \in C |-> [h \in H |-> IF h \in S THEN 0 ELSE comp[c][h]]]
Holders(c) == {h \in H : comp[c][h] # 0}

(* The entities S die; their components are removed (and count as removals *)
(* for the change tracking).                                               *)
Die(S, all) ==
    /\ raised' = IF all THEN {} ELSE raised \ S
    /\ st' = [h \in H |-> IF h \in S THEN "dead" ELSE st[h]]
    /\ comp' = Without(S)
    /\ modified' = Flag(NC, S \cap Holders(NC))
    /\ UNCHANGED <<hidx, reg, tracking>>

Delete(h) ==
    IF h \notin Live THEN Same /\ Do("delete", h, 0, 0, R("err"))
    ELSE /\ Die({h}, FALSE)
         /\ free' = Append(free, hidx[h])
         /\ Do("delete", h, 0, Missing, RG("ok", Held({h}, reg)))
(* The destructor of the component of type c panics. *)
DeletePanic(h, c) ==
    /\ h \in Live /\ comp[c][h] # 0
    /\ Die({h}, FALSE)
    /\ free' = Append(free, hidx[h])
    /\ Do("delete_panic", h, c, 0, [val |-> "panic", gone |-> Held({h}, reg), panic |-> TRUE])
DeleteLater(h) ==
    /\ st' = IF h \in Live THEN [st EXCEPT ![h] = "pend"] ELSE st
    /\ UNCHANGED <<hidx, raised, free, comp, reg, tracking, modified>>
    /\ Do("delete_later", h, 0, 0, R(IF h \in Live THEN "ok" ELSE "err"))
Merge ==
    /\ Die(Pend, TRUE)
    /\ free' = free \o Asc({hidx[h] : h \in Pend})
    /\ Do("merge", 0, 0, Missing, RG("ok", Held(Pend, reg)))
MergePanic(h, c) ==
    /\ h \in Pend /\ comp[c][h] # 0
    /\ Die(Pend, TRUE)
    /\ free' = free \o Asc({hidx[k] : k \in Pend})
    /\ Do("merge_panic", h, c, 0, [val |-> "panic", gone |-> Held(Pend, reg), panic |-> TRUE])

-----------------------------------------------------------------------------
(* Components, through a handle.  Dead handles are refused. *)
Put(h, c, v) == comp' = [comp EXCEPT ![c][h] = v]
Keep == UNCHANGED <<hidx, st, raised, free, reg, tracking>>
OldTag(h, c) == IF comp[c][h] = 0 THEN 0 ELSE Tag(h, c, comp[c][h])

Insert(h, c, v) ==
    /\ c \in reg
    /\ IF h \in Live
       THEN /\ Put(h, c, v) /\ modified' = Flag(c, {h}) /\ Keep
            /\ Do("insert", h, c, v, R(OldTag(h, c)))
       ELSE Same /\ Do("insert", h, c, v, RG("err", <<Tag(h, c, v)>>))
Remove(h, c) ==
    /\ c \in reg
    /\ IF h \in Live
       THEN /\ Put(h, c, 0) /\ modified' = (IF comp[c][h] # 0 THEN Flag(c, {h}) ELSE modified) /\ Keep
            /\ Do("remove", h, c, 0, R(OldTag(h, c)))
       ELSE Same /\ Do("remove", h, c, 0, R("err"))
GetMut(h, c, v) ==
    /\ c \in reg
    /\ IF comp[c][h] # 0
       THEN /\ Put(h, c, v) /\ modified' = Flag(c, {h}) /\ Keep
       ELSE Same
    /\ Do("get_mut", h, c, v, R(OldTag(h, c)))
GuardRead(h, c) ==
    /\ c \in reg
    /\ Same
    /\ Do("guard_read", h, c, 0, R(OldTag(h, c)))
GuardWrite(h, c, v) ==
    /\ c \in reg
    /\ IF comp[c][h] # 0
       THEN /\ Put(h, c, v) /\ modified' = Flag(c, {h}) /\ Keep
       ELSE Same
    /\ Do("guard_write", h, c, v, R(OldTag(h, c)))
GetOrInsert(h, c, v) ==
    /\ c \in reg
    /\ IF h \in Live
       THEN /\ IF comp[c][h] = 0 THEN Put(h, c, v) ELSE comp' = comp
            /\ modified' = Flag(c, {h}) /\ Keep
            /\ Do("goi", h, c, v, R(Tag(h, c, comp'[c][h])))
       ELSE Same /\ Do("goi", h, c, v, R("err"))
GetOrInsertPanic(h, c) ==
    /\ c \in reg
    /\ h \in Live
    /\ IF comp[c][h] # 0 THEN modified' = Flag(c, {h}) /\ UNCHANGED <<comp>> /\ Keep ELSE Same
    /\ Do("goi_panic", h, c, 0, [val |-> OldTag(h, c), gone |-> <<>>, panic |-> comp[c][h] = 0])
MarkModified(h) ==
    /\ Tracked /\ NC \in reg
    /\ modified' = IF h \in Live THEN modified \cup {hidx[h]} ELSE modified
    /\ UNCHANGED comp /\ Keep
    /\ Do("mark", h, NC, 0, R(IF h \in Live THEN "ok" ELSE "err"))
SetTrack(b) ==
    /\ Tracked /\ NC \in reg
    /\ tracking' = b
    /\ SameEnts /\ UNCHANGED <<comp, reg, modified>>
    /\ Do("set_track", 0, NC, IF b THEN 1 ELSE 0, R("ok"))
ClearModified ==
    /\ Tracked /\ NC \in reg
    /\ modified' = {}
    /\ SameEnts /\ UNCHANGED <<comp, reg, tracking>>
    /\ Do("clear", 0, NC, 0, R("ok"))

-----------------------------------------------------------------------------
(* Registration.  The storage replaced or removed is handed back with all   *)
(* its values; the harness reads them and drops it.                         *)
Emptied(c) == comp' = [comp EXCEPT ![c] = [h \in H |-> 0]]
Register(c) ==
    /\ reg' = reg \cup {c}
    /\ Emptied(c)
    /\ IF c = NC THEN tracking' = FALSE /\ modified' = {} ELSE UNCHANGED <<tracking, modified>>
    /\ SameEnts
    /\ Do("register", 0, c, 0, RG(c \in reg, Held(H, {c})))
Unregister(c) ==
    /\ reg' = reg \ {c}
    /\ Emptied(c)
    /\ IF c = NC THEN tracking' = FALSE /\ modified' = {} ELSE UNCHANGED <<tracking, modified>>
    /\ SameEnts
    /\ Do("unregister", 0, c, 0, RG(c \in reg, Held(H, {c})))
(* Access to a type that is not registered panics. *)
AccessUnregistered(c) ==
    /\ c \notin reg
    /\ Same
    /\ Do("access_unregistered", 0, c, 0, [val |-> <<"panic", "panic", "panic">>, gone |-> <<>>, panic |-> FALSE])

(* The world is dropped, maybe while a panic unwinds: every component is destroyed. *)
DropWorld(o) ==
    /\ hidx' = <<>> /\ st' = <<>> /\ raised' = {} /\ free' = <<>>
    /\ comp' = [c \in C |-> <<>>] /\ reg' = C
    /\ tracking' = FALSE /\ modified' = {}
    /\ Do(o, 0, 0, 0, RG("ok", Held(H, reg)))

Next ==
    \/ \E a \in BOOLEAN : Create(a)
    \/ \E h \in H : \/ Delete(h) \/ DeleteLater(h) \/ MarkModified(h)
                    \/ \E c \in C : \/ DeletePanic(h, c) \/ MergePanic(h, c)
                                    \/ Remove(h, c) \/ GuardRead(h, c) \/ GetOrInsertPanic(h, c)
                                    \/ \E v \in V : Insert(h, c, v) \/ GetMut(h, c, v) \/ GetOrInsert(h, c, v) \/ GuardWrite(h, c, v)
    \/ Merge
    \/ \E c \in C : Register(c) \/ Unregister(c) \/ AccessUnregistered(c)
    \/ \E b \in BOOLEAN : SetTrack(b)
    \/ ClearModified
    \/ \E o \in {"drop_world", "drop_unwinding"} : DropWorld(o)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK ==
    /\ Len(st) = Len(hidx)
    /\ \A c \in C : Len(comp[c]) = Len(hidx)
    /\ reg \subseteq C
OneLivePerIndex == \A h, k \in Live : h # k => hidx[h] # hidx[k]
FreeExact == {free[k] : k \in 1..Len(free)} = {hidx[h] : h \in H} \ {hidx[h] : h \in Live}
(* C13 *)
DeadHaveNothing == \A c \in C, h \in H : st[h] = "dead" => comp[c][h] = 0
UnregisteredHaveNothing == \A c \in C \ reg, h \in H : comp[c][h] = 0
NewHaveNothing == [][Len(hidx') = Len(hidx) + 1 => \A c \in C : comp'[c][Len(hidx')] = 0]_vars
DeathTouchesNoOther ==
    [][last'.op \in {"delete", "delete_panic", "merge", "merge_panic"} =>
         \A h \in H : st'[h] # "dead" => \A c \in C : comp'[c][h] = comp[c][h]]_vars
AccessTouchesNoOther ==
    [][last'.op \in {"insert", "remove", "get_mut", "goi", "goi_panic", "guard_write"} =>
         \A h \in H, c \in C : <<h, c>> # <<last'.arg.h, last'.arg.c>> => comp'[c][h] = comp[c][h]]_vars
RefusedChangesNothing ==
    [][last'.op \in {"delete", "delete_later", "insert", "remove", "get_mut", "goi", "goi_panic", "guard_read",
                     "guard_write", "mark"} /\ last'.arg.h \notin Live
         => UNCHANGED View]_vars
(* C07: what was held before is held after, handed back, or destroyed. *)
Conserved ==
    [][last'.op \in {"delete", "delete_panic", "merge", "merge_panic", "register", "unregister"} =>
         LET T == {t \in TagsOf(H, C) : t % 10 # 0}
             T2 == {Tag(h, c, comp'[c][h]) : h \in H, c \in C}
         IN T = {t \in T2 : t % 10 # 0} \cup {last'.ret.gone[k] : k \in 1..Len(last'.ret.gone)}]_vars

-----------------------------------------------------------------------------
Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
Obs == [live |-> Live,
        comp |-> [c \in C |-> IF c \in reg THEN [h \in H |-> OldTag(h, c)] ELSE <<>>],
        mask |-> [c \in C |-> Holders(c)],
        join |-> [c \in C |-> {<<h, OldTag(h, c)>> : h \in Holders(c)}],
        reg |-> reg,
        tracking |-> tracking,
        modified |-> modified,
        held |-> Cardinality({t \in TagsOf(H, C) : t % 10 # 0}), errors |-> 0]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
