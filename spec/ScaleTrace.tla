------------------------------ MODULE ScaleTrace ------------------------------
(***************************************************************************)
(* Judges recordings of long and large histories of the real code: entity  *)
(* allocators and worlds with tens of thousands of entities, indexes       *)
(* reused tens of thousands of times, storages over the whole range of     *)
(* indexes, joins over sets that span every layer of a bit set.            *)
(*                                                                         *)
(* The state is the abstract one (EntityAbs for entities; a map from index *)
(* to value, the tracking flag and the modified set for each storage), and *)
(* every event is a step of it.  Most events are bulk: the same call for   *)
(* many distinct entities or indexes in one event.                         *)
(*                                                                         *)
(* Entities appear as handles: the recorder numbers the different entities *)
(* it is given, 1, 2, 3, ..., so a repeated entity shows up as a handle     *)
(* that is not fresh; 0 is an entity that was never handed out.  A "raw"   *)
(* recording has no entities; indexes stand where handles do otherwise.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i, raw, at, live, hs, used, pend, comp, trk, mod, since

vars == <<i, raw, at, live, hs, used, pend, comp, trk, mod, since>>
Rec == ndJsonDeserialize(IOEnv.TRACE)
x == Rec[i]

\* forces a set to be sorted, so that membership in it is quick to decide
N(S) == IF Cardinality(S) >= 0 THEN S ELSE S
\* the union of two large sets is quick only when both are sorted
Cup(S, R) == N(N(S) \cup N(R))
Set(s) == N({s[k] : k \in 1..Len(s)})
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] < s[k + 1]
Dom(c) == N({p[1] : p \in c})          \* indexes of a map given as a set of pairs
Vals(c) == N({p[2] : p \in c})
Without(c, I) == N({p \in c : p[1] \notin I})
Only(c, I) == N({p \in c : p[1] \in I})
Over(c, new) == Cup(Without(c, Dom(new)), new)

\* where a handle is, and the handles that are live (raw: every index is)
At(h) == IF raw THEN h ELSE IF h \in 1..Len(at) THEN at[h] ELSE -1
LiveH == hs                            \* live is a set of <<index, handle>>; hs is its handles
Here(h, L) == raw \/ h \in L
Free == N((0..(used - 1)) \ Dom(live))

Types == 1..Len(comp)
Bad(f, tags) == [field |-> f, tags |-> tags]
\* the fields of a record of checks that fail
Fails(r) == {f \in DOMAIN r : ~r[f]}

-----------------------------------------------------------------------------
(* Entities *)

Least(a, b) == IF a < b THEN a ELSE b
CreateRight ==
    LET n == Len(x.h)
        F == Free
        m == Least(Cardinality(F), n)
    IN [fresh |-> \A j \in 1..n : x.h[j] = Len(at) + j,
        alive |-> x.na = 0,
        gen   |-> x.z = 0,
        solo  |-> LET I == Set(x.i) IN Cardinality(I) = n /\ \A k \in Dom(live) : k \notin I,
        reuse |-> (\A j \in 1..m : x.i[j] \in F) /\ (\A j \in (m + 1)..n : x.i[j] = used + j - m - 1)]
Created ==
    /\ at' = at \o x.i
    /\ hs' = Cup(hs, Set(x.h))
    /\ live' = Cup(live, {<<x.i[j], x.h[j]>> : j \in 1..Len(x.h)})
    /\ used' = LET k == Len(x.h) - Cardinality(Free) IN used + (IF k > 0 THEN k ELSE 0)

\* the same index created and killed many times
ChurnRight ==
    LET F == Free
    IN [fresh |-> x.fresh = x.n,
        gen   |-> x.z = 0,
        old   |-> x.old = 0,
        reuse |-> IF F = {} THEN x.i = <<used>> ELSE Set(x.i) \subseteq F,
        report|-> x.rep = 0]
Churned ==
    /\ at' = at \o [k \in 1..x.n |-> x.i[1]]
    /\ used' = IF Free = {} THEN used + 1 ELSE used

\* the components that go when the handles in H die
Dead(H) == N({At(h) : h \in H})
Died(H) ==
    LET I == Dead(H)
    IN /\ live' = N({p \in live : p[2] \notin H})
       /\ hs' = N(hs \ H)
       /\ pend' = N(pend \ H)
       /\ comp' = [t \in Types |-> Without(comp[t], I)]
       /\ mod' = [t \in Types |-> IF trk[t] THEN Cup(mod[t], Dom(comp[t]) \cap I) ELSE mod[t]]
RECURSIVE ValsIn(_, _)
ValsIn(m, t) == IF t = 0 THEN {} ELSE Cup(Vals(m[t]), ValsIn(m, t - 1))
DiedVals(H) == LET I == Dead(H)
                   gone == [t \in Types |-> Only(comp[t], I)]
               IN ValsIn(gone, Len(comp))

Granted == N({x.h[j] : j \in {j \in 1..Len(x.h) : x.ok[j] = 1}})
AskRight == [replies |-> Granted = N(Set(x.h) \cap LiveH)]

MergeRight == [report |-> x.rep = <<-1>> \/ (Len(x.rep) = Cardinality(pend) /\ Set(x.rep) = pend)]

SeeRight ==
    [live |-> Len(x.live) = Cardinality(LiveH) /\ Set(x.live) = LiveH,
     look |-> Len(x.look) = Cardinality(LiveH) /\ Set(x.look) = LiveH,
     set  |-> Ascending(x.set) /\ Set(x.set) = Dom(live),
     join |-> Len(x.join) = Cardinality(live) /\ Set(x.join) = LiveH,
     order|-> \A k \in 1..Len(x.join) : x.join[k] # 0 /\ (k > 1 => At(x.join[k]) > At(x.join[k - 1])),
     max  |-> x.max = used,
     foreign |-> ~x.foreign]

-----------------------------------------------------------------------------
(* Components.  For the call on the j-th handle, Live(j), and Cur: the map *)
(* restricted to the places the calls are about.                            *)

cm == comp[x.t]
Places(L) == N({At(x.h[j]) : j \in {j \in 1..Len(x.h) : Here(x.h[j], L)}})
\* the replies that are values, as a map
Said == N({<<At(x.h[j]), x.r[j]>> : j \in {j \in 1..Len(x.r) : x.r[j] > 0}})
SaidNone == N({At(x.h[j]) : j \in {j \in 1..Len(x.r) : x.r[j] = 0}})
SaidErr == N({x.h[j] : j \in {j \in 1..Len(x.r) : x.r[j] = -1}})
NotHere(L) == N({x.h[j] : j \in {j \in 1..Len(x.h) : ~Here(x.h[j], L)}})
New(J) == N({<<At(x.h[j]), x.v[j]>> : j \in J})
Changed(I) == mod' = [mod EXCEPT ![x.t] = IF trk[x.t] THEN Cup(@, I) ELSE @]
Same == UNCHANGED <<comp, trk, mod>>

\* replies: the value where there is one, none elsewhere, error (or none) for the dead
Replies(L, refuses) ==
    [reply |-> Said = Only(cm, Places(L)),
     none  |-> IF refuses THEN SaidErr = NotHere(L) /\ SaidNone = N(Places(L) \ Dom(cm))
               ELSE SaidErr = {}]

OpRight ==
    LET L == LiveH
        D == Dom(cm)
    IN CASE x.o \in {"put", "take"} -> Replies(L, TRUE)
         [] x.o = "goi" -> [reply |-> Said = Cup(Only(cm, Places(L)),
                                     {<<At(x.h[j]), x.v[j]>> : j \in {j \in 1..Len(x.h) : Here(x.h[j], L) /\ At(x.h[j]) \notin D}}),
                            none |-> SaidErr = NotHere(L) /\ SaidNone = {}]
         [] x.o \in {"mut", "gmut", "get", "gread"} -> Replies(L, FALSE)
OpDone ==
    LET L == LiveH
        P == Places(L)
        Jl == {j \in 1..Len(x.h) : Here(x.h[j], L)}
        D == Dom(cm)
    IN CASE x.o = "put" -> comp' = [comp EXCEPT ![x.t] = Over(cm, New(Jl))] /\ Changed(P) /\ UNCHANGED trk
         [] x.o = "take" -> comp' = [comp EXCEPT ![x.t] = Without(cm, P)] /\ Changed(D \cap P) /\ UNCHANGED trk
         [] x.o = "goi" -> /\ comp' = [comp EXCEPT ![x.t] = Cup(cm, New({j \in Jl : At(x.h[j]) \notin D}))]
                           /\ Changed(P) /\ UNCHANGED trk
         [] x.o \in {"mut", "gmut"} -> /\ comp' = [comp EXCEPT ![x.t] = Over(cm, New({j \in Jl : At(x.h[j]) \in D}))]
                                       /\ Changed(D \cap P) /\ UNCHANGED trk
         [] OTHER -> Same
\* a refused insertion drops the value
OpDrops == LET L == LiveH IN {x.v[j] : j \in {j \in 1..Len(x.h) : ~Here(x.h[j], L)}}

\* everything a storage shows; for a world also what all handles see, live or dead
Pairs(s) == N({<<At(s[k][1]), s[k][2]>> : k \in 1..Len(s)})
Firsts(s) == N({s[k][1] : k \in 1..Len(s)})
ScanRight ==
    [mask |-> Ascending(x.mask) /\ Set(x.mask) = Dom(cm),
     get  |-> Len(x.get) = Cardinality(cm) /\ Pairs(x.get) = cm,
     owner|-> raw \/ Firsts(x.get) \subseteq LiveH,
     has  |-> Len(x.has) = Cardinality(cm) /\ N({At(x.has[k]) : k \in 1..Len(x.has)}) = Dom(cm),
     mods |-> x.mods = <<-1>> \/ (Ascending(x.mods) /\ Set(x.mods) = mod[x.t]),
     tracking |-> x.mods = <<-1>> \/ x.trk = trk[x.t],
     slice |-> x.slice = <<-1>> \/ (Len(x.slice) = Cardinality(cm) /\ Set(x.slice) = Vals(cm))]

\* the mutable slice: x.by added to every value; x.s lists what they were
SliceRight == [slice |-> Len(x.s) = Cardinality(cm) /\ Set(x.s) = Vals(cm)]
SliceDone == comp' = [comp EXCEPT ![x.t] = N({<<p[1], p[2] + x.by>> : p \in cm})]

MarkRight ==
    LET L == LiveH IN [replies |-> raw \/ Granted = N(Set(x.h) \cap L)]
MarkDone == LET L == LiveH IN mod' = [mod EXCEPT ![x.t] = Cup(@, Places(L))]

-----------------------------------------------------------------------------
(* Joins.  x.g lists what was visited; the first column is the handle (or  *)
(* index, raw) and the others are what the operands yielded.               *)

Ids == [k \in 1..Len(x.g) |-> At(x.g[k][1])]
Visited == N({At(x.g[k][1]) : k \in 1..Len(x.g)})
Col(n) == N({<<At(x.g[k][1]), x.g[k][n]>> : k \in 1..Len(x.g)})
ColSome(n) == N({<<At(x.g[k][1]), x.g[k][n]>> : k \in {k \in 1..Len(x.g) : x.g[k][n] # 0}})
A == comp[x.a]
B == comp[x.b]
C == comp[x.c]
\* which indexes the masks of the operands have in common
Common ==
    CASE x.k = "maybe" -> Dom(A)
      [] x.k = "mut" -> Dom(A) \cap Dom(B)
      [] x.k = "not" -> Dom(A) \ Dom(B)
      [] x.k = "guard" -> Dom(A)
      [] x.k = "or" -> Cup(Dom(A), Dom(B)) \cap Dom(C)
      [] x.k = "xor" -> Cup(Dom(A) \ Dom(B), Dom(B) \ Dom(A))
      [] x.k = "three" -> Dom(A) \cap Dom(B) \cap Dom(C)
      [] x.k = "bits" -> Dom(A) \cap Set(x.bits)
      [] x.k = "nor" -> Dom(C) \ Cup(Dom(A), Dom(B))
      [] x.k \in {"modified", "modified_mut"} -> mod[x.a]
\* A join is an iterator, whichever way it is used: x.w.n is the number of items, and sequentially
\* x.w.last the last one, x.w.step every third from the second on, x.w.nth every third.
Every(from) == [m \in 1..((Len(x.g) + 3 - from) \div 3) |-> x.g[from + 3 * (m - 1)]]
Ways ==
    \/ x.w.n = -1
    \/ /\ x.w.n = Len(x.g)
       /\ x.w.hint
       /\ x.p = 0 =>
            /\ x.w.last = (IF Len(x.g) = 0 THEN <<>> ELSE <<x.g[Len(x.g)]>>)
            /\ x.w.step = (IF Len(x.g) < 2 THEN <<>> ELSE Every(2))
            /\ x.w.nth = (IF Len(x.g) < 3 THEN <<>> ELSE Every(3))
JoinRight ==
    LET I == N(Common)
    IN [visited |-> Visited = I,
        once |-> Len(x.g) = Cardinality(I),
        ways |-> Ways,
        order |-> x.p # 0 \/ \A k \in 1..(Len(x.g) - 1) : At(x.g[k][1]) < At(x.g[k + 1][1]),
        entity |-> raw \/ x.k \in {"modified", "modified_mut"} \/ \A k \in 1..Len(x.g) : x.g[k][1] # 0 /\ <<At(x.g[k][1]), x.g[k][1]>> \in live,
        items |-> CASE x.k = "maybe" -> Col(2) = A /\ ColSome(3) = Only(B, Dom(A))
                    [] x.k = "mut" -> Col(2) = Only(A, I) /\ Col(4) = Only(B, I)
                    [] x.k = "not" -> Col(2) = Only(A, I)
                    [] x.k = "guard" -> Col(2) = A
                    [] x.k \in {"or", "nor"} -> Col(2) = Only(C, I)
                    [] x.k = "xor" -> TRUE
                    [] x.k = "bits" -> Col(2) = Only(A, I)
                    [] x.k = "three" -> Col(2) = Only(A, I) /\ Col(3) = Only(B, I) /\ Col(4) = Only(C, I)
                    [] x.k = "modified" -> ColSome(2) = Only(A, I)
                    [] x.k = "modified_mut" -> ColSome(2) = Only(A, I)]
JoinDone ==
    IF x.k \in {"mut", "guard", "modified_mut"}
    THEN LET W == ColSome(3)
         IN /\ comp' = [comp EXCEPT ![x.a] = Over(A, W)]
            /\ mod' = [mod EXCEPT ![x.a] = IF trk[x.a] THEN Cup(@, Dom(W)) ELSE @]
            /\ UNCHANGED trk
    ELSE Same

\* A join whose body panics at the x.n-th item, after changing it: sequentially the first x.n items
\* have been changed, in parallel at least x.n of them; with fewer there is no panic.
JoinPanicRight ==
    LET I == N(Common)
        V == Visited
    IN [visited |-> V \subseteq I /\ Cardinality(V) >= Least(x.n, Cardinality(I)),
        once |-> Len(x.g) = Cardinality(V),
        order |-> x.p = 0 =>
                     /\ Len(x.g) <= x.n
                     /\ \A k \in 1..(Len(x.g) - 1) : At(x.g[k][1]) < At(x.g[k + 1][1])
                     /\ Len(x.g) > 0 => LET m == At(x.g[Len(x.g)][1]) IN \A k \in I : k <= m => k \in V,
        items |-> Col(2) = Only(A, V) /\ Col(4) = Only(B, V),
        panic |-> x.pan = (Cardinality(I) >= x.n)]

-----------------------------------------------------------------------------
(* Judgement of one event *)

Boomed == x.o \in {"kill", "merge", "end", "rereg", "jpan"} /\ x.pan

Drops ==
    CASE x.o = "kill" -> DiedVals(Granted)
      [] x.o = "merge" -> DiedVals(pend)
      [] x.o = "put" -> OpDrops
      [] x.o = "end" -> ValsIn(comp, Len(comp))
      [] x.o = "rereg" -> Vals(cm)
      [] OTHER -> {}
DropsRight == LET D == N(Drops) IN [boom |-> x.o \in {"kill", "merge", "end", "rereg"} => x.pan = (x.bomb # 0 /\ x.bomb \in D),
                                    drops |-> Len(x.d) = Cardinality(D) /\ Set(x.d) = D, ledger |-> x.e = 0]

(* A join over the multiples of a and of b below a size, only counted.      *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Upto(k) == (x.size - 1) \div k + 1
ManyRight ==
    LET all == Upto((x.a \div Gcd(x.a, x.b)) * x.b)
    IN [visited |-> x.visited = all, once |-> x.twice = 0, right |-> x.wrong = 0, sorted |-> x.unsorted = 0, kept |-> x.kept = all,
        written |-> x.changed = (IF x.write THEN all ELSE 0) /\ x.intact = Upto(x.a) - x.changed]

Right ==
    CASE x.o = "many" -> ManyRight
      [] x.o = "create" -> CreateRight
      [] x.o = "churn" -> ChurnRight
      [] x.o \in {"kill", "req"} -> AskRight
      [] x.o = "merge" -> MergeRight
      [] x.o = "see" -> SeeRight
      [] x.o \in {"put", "take", "goi", "mut", "gmut", "get", "gread"} -> OpRight
      [] x.o = "scan" -> ScanRight
      [] x.o = "slice" -> SliceRight
      [] x.o = "mark" -> MarkRight
      [] x.o = "join" -> JoinRight
      [] x.o = "jpan" -> JoinPanicRight
      [] x.o = "rereg" -> [had |-> x.had]
      [] x.o = "panic" -> [panic |-> FALSE]
      [] OTHER -> [nothing |-> TRUE]
Wrong == (IF x.o = "new" THEN {} ELSE Fails(Right)) \cup (IF x.o \in {"new", "panic"} THEN {} ELSE Fails(DropsRight))

EntityOps == {"create", "churn", "kill", "req", "merge", "see"}
Tags(f) ==
    IF f = "boom" THEN <<"C23">>
    ELSE IF x.o = "jpan" THEN IF f = "panic" THEN <<"C23">> ELSE <<"C23", IF x.p # 0 THEN "C11" ELSE "C10">>
    ELSE IF f = "panic" THEN
        IF x.in \in {"create", "churn"} THEN <<"C01">>
        ELSE IF x.in \in {"kill", "req", "see"} THEN <<"C02">>
        ELSE IF x.in = "merge" THEN <<"C03">>
        ELSE IF x.in \in {"joinp"} THEN <<"C11">>
        ELSE IF x.in \in {"join"} THEN <<"C10">>
        ELSE IF x.in = "end" THEN <<"C07">>
        ELSE IF x.in = "rereg" THEN <<"C14">>
        ELSE IF raw THEN <<"C06">> ELSE <<"C13">>
    ELSE IF f \in {"drops", "ledger"} THEN IF x.o \in {"kill", "merge"} THEN <<"C07", "C13">> ELSE <<"C07">>
    ELSE IF x.o = "rereg" THEN <<"C14">>
    ELSE IF x.o = "join" THEN
        IF x.k \in {"modified", "modified_mut"} THEN <<"C09">>
        ELSE IF x.p # 0 THEN <<"C11">> ELSE <<"C10">>
    ELSE IF x.o = "many" THEN IF x.p # 0 /\ f # "kept" THEN <<"C11">> ELSE <<"C10">>
    ELSE IF x.o \in {"create", "churn"} THEN
        IF f = "reuse" THEN <<"C04">> ELSE IF f = "old" THEN <<"C02">> ELSE IF f = "report" THEN <<"C03">> ELSE <<"C01">>
    ELSE IF x.o = "kill" THEN <<"C02">>
    ELSE IF x.o = "req" THEN <<"C02">>
    ELSE IF x.o = "merge" THEN <<"C03">>
    ELSE IF x.o = "see" THEN
        IF f = "max" THEN <<"C04">>
        ELSE IF f = "order" THEN <<"C10">>
        ELSE IF f = "join" THEN <<"C02", "C10">>
        ELSE IF f # "foreign" /\ since \cap {"req", "merge"} # {} THEN <<"C02", "C03">> ELSE <<"C02">>
    ELSE IF f \in {"mods", "tracking"} THEN <<"C09">>
    ELSE IF f = "slice" THEN <<"C08">>
    ELSE IF x.o = "mark" THEN IF raw THEN <<"C09">> ELSE <<"C13">>
    ELSE IF raw THEN <<"C06">>
    ELSE IF x.o = "scan" THEN IF f = "owner" \/ since \cap {"create", "kill", "merge"} # {} THEN <<"C13">> ELSE <<"C06", "C13">>
    ELSE <<"C13">>
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN {} ELSE LET f == CHOOSE f \in S : TRUE
                                      t == Tags(f)
                                  IN {t[k] : k \in 1..Len(t)} \cup Flat(S \ {f})
\* what is wrong in the event of a panic, or when next looked at, concerns C23 as well
After == IF Boomed \/ "boom" \in since THEN {"C23"} ELSE {}
Fresh14 == IF "rereg" \in since /\ x.o = "scan" THEN {"C14"} ELSE {}

Short(s) == IF Len(s) <= 8 THEN ToString(s) ELSE ToString(SubSeq(s, 1, 8)) \o "..."
Got ==
    IF x.o = "panic" THEN "panic in " \o x.in \o ": " \o x.msg
    ELSE IF x.o = "see" THEN [live |-> Short(x.live), look |-> Short(x.look), set |-> Short(x.set), join |-> Short(x.join), max |-> x.max]
    ELSE IF x.o = "join" THEN [k |-> x.k, pool |-> x.p, a |-> x.a, b |-> x.b, c |-> x.c, g |-> Short(x.g), n |-> Len(x.g)]
    ELSE [o |-> x.o, dropped |-> Short(x.d)]
Want ==
    IF x.o = "see" THEN [live |-> ToString(Cardinality(live)) \o " entities", used |-> used]
    ELSE IF x.o = "join" THEN [n |-> Cardinality(Common)]
    ELSE "what the abstract state says"
Show == [tags |-> Flat(Wrong) \cup After \cup Fresh14, at |-> i, field |-> ToString(Wrong), want |-> ToString(Want), got |-> ToString(Got)]

RECURSIVE NextNew(_)
NextNew(k) == IF k > Len(Rec) THEN k ELSE IF k > i /\ Rec[k].o = "new" THEN k ELSE NextNew(k + 1)

Fresh ==
    /\ raw' = x.raw
    /\ at' = <<>> /\ live' = {} /\ hs' = {} /\ used' = 0 /\ pend' = {}
    /\ comp' = [t \in 1..x.types |-> {}]
    /\ trk' = [t \in 1..x.types |-> FALSE]
    /\ mod' = [t \in 1..x.types |-> {}]

Step ==
    CASE x.o = "new" -> Fresh
      [] x.o = "create" -> Created /\ UNCHANGED <<raw, pend, comp, trk, mod>>
      [] x.o = "churn" -> Churned /\ UNCHANGED <<raw, live, hs, pend, comp, trk, mod>>
      [] x.o = "kill" -> Died(Granted) /\ UNCHANGED <<raw, at, used, trk>>
      [] x.o = "req" -> pend' = Cup(pend, Granted) /\ UNCHANGED <<raw, at, live, hs, used, comp, trk, mod>>
      [] x.o = "merge" -> Died(pend) /\ UNCHANGED <<raw, at, used, trk>>
      [] x.o \in {"put", "take", "goi", "mut", "gmut", "get", "gread"} -> OpDone /\ UNCHANGED <<raw, at, live, hs, used, pend>>
      [] x.o = "slice" -> SliceDone /\ UNCHANGED <<raw, at, live, hs, used, pend, trk, mod>>
      [] x.o = "mark" -> MarkDone /\ UNCHANGED <<raw, at, live, hs, used, pend, comp, trk>>
      [] x.o = "track" -> trk' = [trk EXCEPT ![x.t] = x.b] /\ UNCHANGED <<raw, at, live, hs, used, pend, comp, mod>>
      [] x.o = "clear" -> mod' = [mod EXCEPT ![x.t] = {}] /\ UNCHANGED <<raw, at, live, hs, used, pend, comp, trk>>
      [] x.o = "rereg" -> /\ comp' = [comp EXCEPT ![x.t] = {}] /\ trk' = [trk EXCEPT ![x.t] = FALSE] /\ mod' = [mod EXCEPT ![x.t] = {}]
                          /\ UNCHANGED <<raw, at, live, hs, used, pend>>
      [] x.o \in {"join", "jpan"} -> JoinDone /\ UNCHANGED <<raw, at, live, hs, used, pend>>
      [] OTHER -> UNCHANGED <<raw, at, live, hs, used, pend, comp, trk, mod>>

Init ==
    /\ i = 1 /\ raw = FALSE /\ at = <<>> /\ live = {} /\ hs = {} /\ used = 0 /\ pend = {}
    /\ comp = <<>> /\ trk = <<>> /\ mod = <<>> /\ since = {}
Next ==
    /\ i <= Len(Rec)
    /\ IF Wrong # {}
       THEN /\ PrintT("@B " \o ToJson(Show))
            /\ i' = NextNew(i)            \* the other histories are still judged
            /\ UNCHANGED <<raw, at, live, hs, used, pend, comp, trk, mod, since>>
       ELSE /\ Step
            /\ i' = i + 1
            /\ since' = IF x.o \in {"see", "new"} THEN {} ELSE since \cup {x.o} \cup (IF Boomed THEN {"boom"} ELSE {})
Spec == Init /\ [][Next]_vars
View == i
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Cardinality({k \in 1..Len(Rec) : Rec[k].o = "new"})]))
=============================================================================
