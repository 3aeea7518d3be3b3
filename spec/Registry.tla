------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* Resources and component storages by type, and run-time borrows of them  *)
(* (src/resource_set.rs, src/fetch_resources.rs, src/world.rs).            *)
(*                                                                         *)
(* val[t] is what is registered for type t: 0 nothing, or a value.  A slot *)
(* is something borrowed that is being held: the access to each type, 0    *)
(* none, 1 reading, 2 writing.  Slots are filled by single borrows or by   *)
(* fetching a shape of FetchShapes (one item or a tuple of items), and are *)
(* held by different threads in some of the harness's variants.            *)
(*                                                                         *)
(* World: types 1 and 3 are resources and 2 is a component whose Rust type *)
(* is that of type 1; `E' is the list of entities, identified as 0.  A     *)
(* component's storage is empty (1) or holds one value (2).                *)
(* Not World (a resource set): all three are resources; E is as good as    *)
(* nothing.  Type 3 is not Sync and so only ever written.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, FetchShapes
CONSTANTS World, NV, NSlots
VARIABLES val, slot, last
vars == <<val, slot, last>>
View == <<val, slot>>

T == 1..3
Mode(t) == IF t = 3 THEN {2} ELSE {1, 2}
Slots == 1..NSlots
Free == [t \in T |-> 0]
Idle == \A s \in Slots : slot[s] = Free
IsComp(t) == World /\ t = 2
Vals(t) == IF t = 3 THEN {1} ELSE 1..NV
Fresh(t) == IF IsComp(t) THEN {1} ELSE Vals(t)
Tag(t, v) == IF v = 0 THEN 0 ELSE 10 * t + v

RECURSIVE Leaves(_)
Leaves(a) ==
    IF a.k = "T" THEN LET RECURSIVE Cat(_)
                          Cat(n) == IF n > Len(a.xs) THEN <<>> ELSE Leaves(a.xs[n]) \o Cat(n + 1)
                      IN Cat(1)
    ELSE <<a>>
(* What a shape borrows, in order: pairs of type and mode. *)
RECURSIVE Borrows(_)
Borrows(ls) ==
    IF ls = <<>> THEN <<>>
    ELSE LET a == Head(ls) IN
         (IF a.k = "R" THEN <<<<a.t, 1>>>> ELSE IF a.k = "W" THEN <<<<a.t, 2>>>> ELSE <<>>) \o Borrows(Tail(ls))
N == 1..Len(Shapes)
AllB == [n \in N |-> Borrows(Leaves(Shapes[n]))]   \* evaluated once
B(n) == AllB[n]
Clash(b, c) == b[1] = c[1] /\ (b[2] = 2 \/ c[2] = 2)
(* Two members of the shape conflict. *)
SelfConflict(bs) == \E i, j \in 1..Len(bs) : i # j /\ Clash(bs[i], bs[j])
AllSelf == [n \in N |-> SelfConflict(AllB[n])]
HeldBy(bs) == [t \in T |-> IF \E i \in 1..Len(bs) : bs[i] = <<t, 2>> THEN 2
                           ELSE IF \E i \in 1..Len(bs) : bs[i] = <<t, 1>> THEN 1 ELSE 0]
UsesEntities(ls) == World /\ \E i \in 1..Len(ls) : ls[i].k = "E" \/ (ls[i].k \in {"R", "W"} /\ IsComp(ls[i].t))
Declared(n) ==
    LET bs == B(n)
        ls == Leaves(Shapes[n])
        h == HeldBy(bs)
    IN IF SelfConflict(bs) THEN [ok |-> FALSE, reads |-> {}, writes |-> {}]
       ELSE [ok |-> TRUE, reads |-> {t \in T : h[t] = 1} \cup (IF UsesEntities(ls) THEN {0} ELSE {}),
             writes |-> {t \in T : h[t] = 2}]
AllH == [n \in N |-> HeldBy(AllB[n])]
AllD == [n \in N |-> Declared(n)]
(* A borrow is permitted: the type is there, and nobody else is in the way. *)
Permitted(t, md) == val[t] # 0 /\ \A s \in Slots : ~Clash(<<t, md>>, <<t, slot[s][t]>>) \/ slot[s][t] = 0
CanFetch(n) == ~AllSelf[n] /\ \A t \in T : AllH[n][t] # 0 => Permitted(t, AllH[n][t])

Do(op, arg, ret) == last' = [op |-> op, arg |-> arg, ret |-> ret]
Same == UNCHANGED <<val, slot>>
(* what the holder of h sees: the values of the types it holds *)
Seen(h) == [t \in T |-> IF h[t] = 0 THEN 0 ELSE Tag(t, val[t])]

Init ==
    /\ val = [t \in T |-> 0] /\ slot = [s \in Slots |-> Free]
    /\ last = [op |-> "init", arg |-> [t |-> 0], ret |-> 0]

(* Through exclusive access. *)
Insert(t, v) ==
    /\ Idle /\ v \in Fresh(t)
    /\ val' = [val EXCEPT ![t] = v] /\ UNCHANGED slot
    /\ Do("insert", [t |-> t, v |-> v], Tag(t, val[t]))
Remove(t) ==
    /\ Idle
    /\ val' = [val EXCEPT ![t] = 0] /\ UNCHANGED slot
    /\ Do("remove", [t |-> t], Tag(t, val[t]))
GetMut(t, v) ==
    /\ Idle /\ v \in Vals(t)
    /\ val' = IF val[t] = 0 THEN val ELSE [val EXCEPT ![t] = v]
    /\ UNCHANGED slot
    /\ Do("get_mut", [t |-> t, v |-> v], IF val[t] = 0 THEN "panic" ELSE "ok")
DropAll(o) ==     \* also while a panic unwinds
    /\ Idle
    /\ val' = [t \in T |-> 0] /\ UNCHANGED slot
    /\ Do(o, [t |-> 0], 0)

(* Through shared access. *)
Borrow(s, t, md) ==
    /\ slot[s] = Free /\ md \in Mode(t)
    /\ UNCHANGED val
    /\ slot' = IF Permitted(t, md) THEN [slot EXCEPT ![s][t] = md] ELSE slot
    /\ Do(IF md = 1 THEN "borrow" ELSE "borrow_mut", [s |-> s, t |-> t], IF Permitted(t, md) THEN "ok" ELSE "panic")
Fetch(s, n) ==
    /\ slot[s] = Free
    /\ UNCHANGED val
    /\ slot' = IF CanFetch(n) THEN [slot EXCEPT ![s] = AllH[n]] ELSE slot
    /\ Do("fetch", [s |-> s, n |-> n], IF CanFetch(n) THEN "ok" ELSE "panic")
(* Code holding what it fetched panics: everything is released. *)
FetchPanic(s, n) ==
    /\ slot[s] = Free /\ CanFetch(n)
    /\ Same
    /\ Do("fetch_panic", [s |-> s, n |-> n], "panic")
Release(s) ==
    /\ slot[s] # Free
    /\ slot' = [slot EXCEPT ![s] = Free] /\ UNCHANGED val
    /\ Do("release", [s |-> s], 0)
Store(s, t, v) ==
    /\ slot[s][t] = 2 /\ v \in Vals(t)
    /\ val' = [val EXCEPT ![t] = v] /\ UNCHANGED slot
    /\ Do("store", [s |-> s, t |-> t, v |-> v], 0)
Check(n) ==
    /\ Idle /\ val = [t \in T |-> 0]
    /\ Same
    /\ Do("check", [n |-> n], AllD[n])

Next ==
    \/ \E t \in T : Remove(t) \/ \E v \in 1..NV : Insert(t, v) \/ GetMut(t, v)
    \/ \E o \in {"drop", "drop_unwinding"} : DropAll(o)
    \/ \E s \in Slots : \/ Release(s)
                        \/ \E t \in T : \/ \E md \in 1..2 : Borrow(s, t, md)
                                        \/ \E v \in 1..NV : Store(s, t, v)
                        \/ \E n \in 1..Len(Shapes) : Fetch(s, n) \/ FetchPanic(s, n)
    \/ \E n \in 1..Len(Shapes) : Check(n)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == slot \in [Slots -> [T -> 0..2]]
(* C15 *)
ManyReadersOrOneWriter ==
    \A t \in T : \A s, r \in Slots : s # r => ~(slot[s][t] = 2 /\ slot[r][t] # 0)
OnlyPresentBorrowed == \A t \in T, s \in Slots : slot[s][t] # 0 => val[t] # 0
FailedLeavesNothing ==
    [][last'.op \in {"borrow", "borrow_mut", "fetch", "fetch_panic", "get_mut"} /\ last'.ret = "panic" => UNCHANGED View]_vars
(* C18: the declaration is what is borrowed, a shape that passes its check   *)
(* can be fetched, and two that declare no conflict can be held together.    *)
DeclaredIsBorrowed ==
    [][last'.op = "fetch" /\ last'.ret = "ok" =>
         LET d == AllD[last'.arg.n] IN
         d.ok /\ \A t \in T : /\ (t \in d.reads <=> slot'[last'.arg.s][t] = 1)
                              /\ (t \in d.writes <=> slot'[last'.arg.s][t] = 2)]_vars
DeclConflict(h, d) == \E t \in T : h[t] # 0 /\ (t \in d.writes \/ (t \in d.reads /\ h[t] = 2))
CheckedIsFetchable ==
    \A n \in 1..Len(Shapes) :
        LET d == AllD[n] IN
        d.ok /\ (\A t \in T : val[t] # 0) /\ (\A s \in Slots : ~DeclConflict(slot[s], d)) => CanFetch(n)

Key == <<TLCFP(View), TLCFP(<<View, 7>>)>>
(* A probe per type: what is registered; can it be read, can it be written. *)
Obs == [has |-> [t \in T |-> val[t] # 0],
        can |-> [t \in T |-> [md \in 1..2 |-> IF md \in Mode(t) THEN Permitted(t, md) ELSE Permitted(t, 2)]],
        val |-> [t \in T |-> IF Permitted(t, 1) /\ (t # 3 \/ Permitted(t, 2)) THEN Tag(t, val[t]) ELSE -1],
        seen |-> [s \in Slots |-> Seen(slot[s])],
        held |-> Cardinality({t \in T : IF IsComp(t) THEN val[t] = 2 ELSE val[t] # 0}),
        errors |-> 0]
EmitNode == PrintT("@N " \o ToJson([k |-> Key, x |-> Obs]))
EmitEdge == PrintT("@E " \o ToJson([f |-> Key, o |-> last', t |-> Key']))
=============================================================================
