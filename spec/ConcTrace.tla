------------------------------ MODULE ConcTrace ------------------------------
(***************************************************************************)
(* Judges recordings of the real allocator used from several threads        *)
(* (property C05).  A recording ("hist") is a set of calls, each with the   *)
(* instants of its invocation (a) and its return (b) on one clock and what  *)
(* it returned; it is accepted if the calls can be put in an order that     *)
(* respects those instants and in which every reply is right, where the     *)
(* steps are those of ConcAbs, plus the calls a single owner makes before   *)
(* and after (immediate creation and deletion, merge), which are those of   *)
(* EntityAbs.  A recording of many more calls ("bulk") is judged by what    *)
(* every such order implies.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLE i
Rec == ndJsonDeserialize(IOEnv.TRACE)

En(p) == [idx |-> p[1], gen |-> p[2]]
Ens(s) == {En(s[k]) : k \in 1..Len(s)}
Hi(a, b) == IF a > b THEN a ELSE b
Idx(S) == {e.idx : e \in S}

Start0 == [ents |-> {}, live |-> {}, pend |-> {}, peak |-> 0]
Used(S) == Idx(S.ents)
Free(S) == Used(S) \ Idx(S.live)

Creates == {"create", "create_now"}
Overlap(C, c) == {d \in DOMAIN C : d # c /\ C[d].a < C[c].b /\ C[c].a < C[d].b}
OCreates(C, c) == {d \in Overlap(C, c) : C[d].o \in Creates}

(* Is the reply to call c right in state S? *)
Right(C, c, S) ==
    LET x == C[c]  e == En(x.e)  re == En(x.re)
        oc == OCreates(C, c)
        oe == {En(C[d].re) : d \in oc}
    IN CASE x.o \in Creates ->
              /\ re.gen > 0 /\ re \notin S.ents /\ re.idx \notin Idx(S.live)
              /\ oc = {} => (IF Free(S) = {} THEN re.idx = Cardinality(Used(S)) ELSE re.idx \in Free(S))
         [] x.o \in {"delete", "kill_now"} -> x.r = (IF e \in S.live THEN "ok" ELSE "err")
         [] x.o = "alive" -> x.r = (IF e \in S.live THEN "yes" ELSE "no")
         [] x.o = "entity" -> IF x.r = "none" THEN x.n \notin Idx(S.live) ELSE re.idx = x.n /\ re \in S.live
         [] x.o = "max" -> IF oc = {} THEN x.n = Cardinality(Used(S)) /\ x.n = S.peak
                           ELSE x.n >= Cardinality(Used(S) \ Idx(oe)) /\ x.n <= Cardinality(Used(S) \cup Idx(oe)) + Cardinality(oc)
         [] x.o = "set" -> Ens(x.rs) \ oe = S.live \ oe /\ Cardinality(Ens(x.rs)) = Len(x.rs)
         [] x.o = "merge" -> Ens(x.rs) = S.pend /\ Cardinality(S.pend) = Len(x.rs)
After(C, c, S) ==
    LET x == C[c]  e == En(x.e)  re == En(x.re)
    IN CASE x.o \in Creates ->
              LET l == S.live \cup {re}
              IN [S EXCEPT !.ents = @ \cup {re}, !.live = l, !.peak = Hi(@, Cardinality(l))]
         [] x.o = "delete" -> IF x.r = "ok" THEN [S EXCEPT !.pend = @ \cup {e}] ELSE S
         [] x.o = "kill_now" -> IF x.r = "ok" THEN [S EXCEPT !.live = @ \ {e}, !.pend = @ \ {e}] ELSE S
         [] x.o = "merge" -> [S EXCEPT !.live = @ \ S.pend, !.pend = {}]
         [] OTHER -> S

RECURSIVE Lin(_, _, _)
Lin(C, R, S) ==
    \/ R = {}
    \/ LET first == CHOOSE m \in {C[d].b : d \in R} : \A d \in R : m <= C[d].b
       IN \E c \in {d \in R : C[d].a < first \/ C[d].b = first} : Right(C, c, S) /\ Lin(C, R \ {c}, After(C, c, S))
Linearizable(C) == Lin(C, DOMAIN C, Start0)

(* Many calls at once: who was live before, what was made and requested, and *)
(* what was seen afterwards.                                                *)
BulkRight(x) ==
    LET before == Ens(x.before)  made == Ens(x.made)  asked == Ens(x.asked)
        l == before \cup made
    IN [unique |-> Cardinality(made) = Len(x.made) /\ made \cap Ens(x.ever) = {} /\ \A e \in made : e.gen > 0,
        index  |-> Cardinality(Idx(l)) = Cardinality(l),
        live   |-> Ens(x.live) = l /\ Cardinality(l) = Len(x.live),
        max    |-> x.max = Hi(x.used, Cardinality(l)) /\ \A e \in l : e.idx < x.max,
        replies|-> x.refused = 0,
        merged |-> Ens(x.merged) = asked /\ Cardinality(asked) = Len(x.merged),
        left   |-> Ens(x.left) = l \ asked,
        again  |-> Idx(Ens(x.again)) = (0..(x.max - 1)) \ Idx(l \ asked) /\ Len(x.again) = Cardinality(Ens(x.again)),
        max2   |-> x.max2 = x.max]
(* Only creations, counted: as many as asked for, on free indexes as long as *)
(* there are any, and then on the next ones.                                *)
RaceRight(x) ==
    LET total == Hi(x.used, x.kept + x.asked)
    IN [made |-> x.made = x.asked, unique |-> x.indexes = x.made /\ x.again = 0, taken |-> x.taken = 0,
        alive |-> x.dead = 0, live |-> x.live = x.kept + x.asked, max |-> x.max = total /\ x.top <= total]
(* Only requests for deletion, counted.                                     *)
RushRight(x) ==
    [replies |-> x.refused = 0, live |-> x.live = x.n, merged |-> x.merged = x.asked, which |-> x.wrong = 0,
     left |-> x.left = x.n - x.asked, max |-> x.max = x.n]
RaceBad(x) == LET r == IF x.kind = "rush" THEN RushRight(x) ELSE RaceRight(x) IN {f \in DOMAIN r : ~r[f]}
BulkBad(x) == LET r == BulkRight(x) IN {f \in DOMAIN r : ~r[f]}

Bad(x) == IF x.kind = "hang" THEN TRUE ELSE IF x.kind = "hist" THEN ~Linearizable(x.calls) ELSE IF x.kind \in {"race", "rush"} THEN RaceBad(x) # {} ELSE BulkBad(x) # {}
Show(x) ==
    [tags |-> <<"C05">>, at |-> i,
     field |-> IF x.kind = "hang" THEN "hang" ELSE IF x.kind = "hist" THEN "linearizable" ELSE IF x.kind \in {"race", "rush"} THEN ToString(RaceBad(x)) ELSE ToString(BulkBad(x)),
     want |-> IF x.kind = "hist" THEN "some sequential order of the calls explains the replies" ELSE "what every sequential order implies",
     got |-> IF x.kind = "hang" THEN "a thread never finished" ELSE IF x.kind = "hist" THEN ToString(x.calls) ELSE IF x.kind \in {"race", "rush"} THEN ToString(x) ELSE "see the recording"]

Init == i = 1
Next ==
    /\ i <= Len(Rec)
    /\ IF Bad(Rec[i]) THEN PrintT("@B " \o ToJson(Show(Rec[i]))) /\ i' = Len(Rec) + 2
       ELSE i' = i + 1
Spec == Init /\ [][Next]_i
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Len(Rec)]))
=============================================================================
