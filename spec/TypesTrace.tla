------------------------------ MODULE TypesTrace ------------------------------
(***************************************************************************)
(* Judges recordings of worlds with dozens of component types and resource  *)
(* types, and of dynamic sets with dozens of members, where the other       *)
(* modules have a few of each.  An event is an operation on many types, one *)
(* after the other, and its replies (-1 nothing was there, -2 the entity is *)
(* dead, -3 a panic); after each comes an observation of everything.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES i, n, live, pend, reg, comps, sets, res
vars == <<n, live, pend, reg, comps, sets, res>>
Rec == ndJsonDeserialize(IOEnv.TRACE)
x == Rec[i]
Nothing == -1
Dead == -2
Panics == -3
NSets == 6              \* 0-2 can be put into a world once, 3-5 any number of times
Set(s) == {s[k] : k \in 1..Len(s)}

\* comps is a set of <<type, entity, value>>, a set and res are sets of <<type, value>>
At(C, t, h) == LET S == {c \in C : c[1] = t /\ c[2] = h} IN IF S = {} THEN Nothing ELSE (CHOOSE c \in S : TRUE)[3]
In(S, t) == LET M == {c \in S : c[1] = t} IN IF M = {} THEN Nothing ELSE (CHOOSE c \in M : TRUE)[2]
Types(S) == {c[1] : c \in S}
Over(S, T) == {c \in S : c[1] \notin Types(T)} \cup T
Ts == Set(x.ts)
TV == Set(x.tv)
Kill(H) == {c \in comps : c[2] \notin H}
OfType(C, t) == {c[3] : c \in {c \in C : c[1] = t}}

Put(t) == IF t \notin reg THEN Panics ELSE IF x.h \notin live THEN Dead ELSE At(comps, t, x.h)
Given == {<<p[1], p[2]>> : p \in TV}

RECURSIVE Borrows(_, _, _)
\* how the requests from the k-th on are answered while R and W are what is read and written
Borrows(k, R, W) ==
    IF k > Len(x.q) THEN <<>>
    ELSE LET q == x.q[k]
             what == <<q[1], q[3]>>
             there == IF q[3] = 1 THEN q[1] \in Types(res) ELSE q[1] \in reg
             ok == there /\ what \notin W /\ (q[2] = 0 \/ what \notin R)
         IN <<IF ok THEN 1 ELSE 0>> \o Borrows(k + 1, IF ok /\ q[2] = 0 THEN R \cup {what} ELSE R, IF ok /\ q[2] = 1 THEN W \cup {what} ELSE W)

Back == \A k \in 1..Len(x.ts) : LET t == x.ts[k] IN
          IF t \notin reg THEN x.b[k] = <<Nothing>>
          ELSE /\ Set(x.b[k]) = OfType(comps, t)
               /\ Len(x.b[k]) = Cardinality({c \in comps : c[1] = t})
Replies(F(_)) == Len(x.b) = Len(x.tv) /\ \A k \in 1..Len(x.tv) : x.b[k] = F(x.tv[k][1])
InSet(t) == In(sets[x.h], t)
InRes(t) == In(res, t)
Held == Cardinality(comps) + Cardinality(res) + Cardinality(sets[0]) + Cardinality(sets[1]) + Cardinality(sets[2])
        + Cardinality(sets[3]) + Cardinality(sets[4]) + Cardinality(sets[5])

SeeRight ==
    [live |-> Set(x.live) = live,
     reg |-> Set(x.reg) = reg,
     comps |-> Len(x.comps) = Cardinality(comps) /\ Set(x.comps) = comps,
     slices |-> \A k \in 1..Len(x.slices) : /\ Set(x.slices[k][2]) = OfType(comps, x.slices[k][1])
                                            /\ Len(x.slices[k][2]) = Cardinality({c \in comps : c[1] = x.slices[k][1]}),
     sets |-> \A s \in 0..(NSets - 1) : Len(x.sets[s + 1]) = Cardinality(sets[s]) /\ Set(x.sets[s + 1]) = sets[s],
     lens |-> \A s \in 0..(NSets - 1) : x.lens[s + 1] = Cardinality(sets[s]),
     res |-> Len(x.res) = Cardinality(res) /\ Set(x.res) = res,
     held |-> x.held = Held]
Overwrites(t) == At(comps, t, x.h) # Nothing
Right ==
    CASE x.o \in {"reg", "unreg"} -> [b |-> Back]
      [] x.o \in {"put", "take"} -> [b |-> Replies(Put)]
      [] x.o \in {"sput", "smut", "stake"} -> [b |-> Replies(InSet)]
      [] x.o \in {"rput", "rtake"} -> [b |-> Replies(InRes)]
      [] x.o = "born" -> [fresh |-> x.fresh]
      [] x.o = "die" -> [ok |-> x.ok = IF x.h \notin live THEN Dead + 2 ELSE IF x.bomb # Nothing THEN Panics ELSE 1]
      [] x.o = "ask" -> [ok |-> x.ok = IF x.h \in live THEN 1 ELSE 0]
      [] x.o = "merge" -> [ok |-> x.ok = IF x.bomb # Nothing THEN Panics ELSE 1]
      [] x.o = "iworld" -> [ok |-> x.ok = IF x.h \notin live THEN Dead ELSE IF \E t \in Types(sets[x.s]) : Overwrites(t) THEN 1 ELSE 0]
      [] x.o = "iset" -> [ok |-> x.ok = IF Types(sets[x.a]) \cap Types(sets[x.s]) # {} THEN 1 ELSE 0]
      [] x.o = "hold" -> [b |-> x.b = Borrows(1, {}, {})]
      [] x.o = "see" -> SeeRight
      [] x.o = "end" -> [held |-> x.held = 0]
      [] x.o = "panic" -> [panic |-> FALSE]
      [] OTHER -> [nothing |-> TRUE]
Wrong == LET r == Right IN {f \in DOMAIN r : ~r[f]}

OfOp(o) ==
    CASE o \in {"reg", "unreg"} -> <<"C14">>
      [] o \in {"sput", "smut", "stake", "iworld", "iset"} -> <<"C16">>
      [] o \in {"rput", "rtake", "res"} -> <<"C14">>
      [] o = "hold" -> <<"C15">>
      [] o \in {"put", "take"} -> <<"C06", "C13">>
      [] o \in {"born", "die", "ask", "merge"} -> <<"C13">>
      [] OTHER -> <<"C13", "C14">>
Tags(f) ==
    CASE x.o = "see" -> IF f = "live" THEN <<"C13">> ELSE IF f = "held" THEN <<"C07">>
                        ELSE IF f = "slices" THEN <<"C08">>
                        ELSE IF f \in {"sets", "lens"} THEN <<"C16">>
                        ELSE IF f \in {"reg", "res"} THEN <<"C14">>
                        ELSE OfOp(x.after) \o IF x.bomb THEN <<"C23">> ELSE <<>>
      [] x.o = "end" -> <<"C07">>
      [] x.o = "panic" -> OfOp(x.in)
      [] x.o \in {"die", "merge"} /\ x.bomb # Nothing -> <<"C23">>
      [] OTHER -> OfOp(x.o)
RECURSIVE Flat(_)
Flat(S) == IF S = {} THEN {} ELSE LET f == CHOOSE f \in S : TRUE IN Set(Tags(f)) \cup Flat(S \ {f})
Show == [tags |-> Flat(Wrong), at |-> i, field |-> "types: " \o x.o \o " " \o ToString(Wrong),
         want |-> ToString(CASE x.o = "see" -> [live |-> live, reg |-> reg, comps |-> comps, sets |-> sets, res |-> res, held |-> Held]
                             [] x.o = "hold" -> Borrows(1, {}, {})
                             [] OTHER -> [live |-> live, reg |-> reg, sets |-> sets]),
         got |-> ToString(x)]
RECURSIVE NextNew(_)
NextNew(k) == IF k > Len(Rec) THEN k ELSE IF k > i /\ Rec[k].o = "new" THEN k ELSE NextNew(k + 1)

Empty == [s \in 0..(NSets - 1) |-> {}]
Init == i = 1 /\ n = 0 /\ live = {} /\ pend = {} /\ reg = {} /\ comps = {} /\ sets = Empty /\ res = {}
Dies(H) == live' = live \ H /\ pend' = pend \ H /\ comps' = Kill(H) /\ UNCHANGED <<n, reg, sets, res>>
SetTo(s, S) == sets' = [sets EXCEPT ![s] = S] /\ UNCHANGED <<n, live, pend, reg, comps, res>>
Step ==
    CASE x.o = "new" -> n' = 0 /\ live' = {} /\ pend' = {} /\ reg' = {} /\ comps' = {} /\ sets' = Empty /\ res' = {}
      [] x.o = "reg" -> /\ reg' = reg \cup Ts
                        /\ comps' = {c \in comps : c[1] \notin Ts}
                        /\ UNCHANGED <<n, live, pend, sets, res>>
      [] x.o = "unreg" -> /\ reg' = reg \ Ts
                          /\ comps' = {c \in comps : c[1] \notin Ts}
                          /\ UNCHANGED <<n, live, pend, sets, res>>
      [] x.o = "put" -> /\ comps' = (IF x.h \notin live THEN comps
                                     ELSE {c \in comps : c[2] # x.h \/ c[1] \notin Types(TV) \cap reg}
                                          \cup {<<p[1], x.h, p[2]>> : p \in {p \in TV : p[1] \in reg}})
                        /\ UNCHANGED <<n, live, pend, reg, sets, res>>
      [] x.o = "take" -> /\ comps' = (IF x.h \notin live THEN comps ELSE {c \in comps : c[2] # x.h \/ c[1] \notin Types(TV)})
                         /\ UNCHANGED <<n, live, pend, reg, sets, res>>
      [] x.o = "sput" -> SetTo(x.h, Over(sets[x.h], Given))
      [] x.o = "smut" -> SetTo(x.h, Over(sets[x.h], {p \in Given : p[1] \in Types(sets[x.h])}))
      [] x.o = "stake" -> SetTo(x.h, {c \in sets[x.h] : c[1] \notin Types(TV)})
      [] x.o = "rput" -> res' = Over(res, Given) /\ UNCHANGED <<n, live, pend, reg, comps, sets>>
      [] x.o = "rtake" -> res' = {c \in res : c[1] \notin Types(TV)} /\ UNCHANGED <<n, live, pend, reg, comps, sets>>
      [] x.o = "born" -> n' = n + 1 /\ live' = live \cup {x.h} /\ UNCHANGED <<pend, reg, comps, sets, res>>
      [] x.o = "die" -> Dies({x.h})
      [] x.o = "ask" -> pend' = (IF x.h \in live THEN pend \cup {x.h} ELSE pend) /\ UNCHANGED <<n, live, reg, comps, sets, res>>
      [] x.o = "merge" -> Dies(pend)
      [] x.o = "iworld" -> LET S == sets[x.s] IN
                           /\ comps' = (IF x.h \notin live THEN comps
                                        ELSE {c \in comps : c[2] # x.h \/ c[1] \notin Types(S)} \cup {<<p[1], x.h, p[2]>> : p \in S})
                           /\ sets' = [sets EXCEPT ![x.s] = IF x.s < 3 THEN {} ELSE @]
                           /\ UNCHANGED <<n, live, pend, reg, res>>
      [] x.o = "iset" -> /\ sets' = [sets EXCEPT ![x.a] = Over(@, sets[x.s]), ![x.s] = IF x.keep THEN @ ELSE {}]
                         /\ UNCHANGED <<n, live, pend, reg, comps, res>>
      [] OTHER -> UNCHANGED vars
Next ==
    /\ i <= Len(Rec)
    /\ IF x.o # "new" /\ Wrong # {}
       THEN PrintT("@B " \o ToJson(Show)) /\ i' = NextNew(i) /\ UNCHANGED vars
       ELSE Step /\ i' = i + 1
Spec == Init /\ [][Next]_<<vars, i>>
View == i
\* What must hold of the specification's own states.
Consistent ==
    /\ live \subseteq 1..n /\ pend \subseteq live
    /\ \A c \in comps : c[1] \in reg /\ c[2] \in live
    /\ Cardinality({<<c[1], c[2]>> : c \in comps}) = Cardinality(comps)
    /\ \A s \in DOMAIN sets : Cardinality(Types(sets[s])) = Cardinality(sets[s])
    /\ Cardinality(Types(res)) = Cardinality(res)
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Cardinality({k \in 1..Len(Rec) : Rec[k].o = "new"})]))
=============================================================================
