------------------------------ MODULE AppTrace ------------------------------
(***************************************************************************)
(* Judges recordings of whole applications: a world with entities, four     *)
(* component types and three resources, and a composition of systems (or    *)
(* one that parallelize made) that fetch what they use and run on a pool.    *)
(* Everything the other modules say of the parts must hold of the whole:     *)
(* what systems declare, when they run, what they see and change through     *)
(* joins, what they create and ask to delete while others run, and what is  *)
(* left afterwards.                                                         *)
(*                                                                         *)
(* A run is a sequence of begins and ends.  A system has fetched everything  *)
(* when it begins and releases it after it ends, and its begin carries all   *)
(* it did; since nothing that conflicts with it may run meanwhile, it may    *)
(* be taken to act at that instant.  Creation, which anyone may do at any    *)
(* time, is taken to happen somewhere between the begin and the end.        *)
(*                                                                         *)
(* What can be declared: 1 the entity list, 2..4 resources, 5..8 components. *)
(***************************************************************************)
EXTENDS SysRun, Json, IOUtils
VARIABLES i, j, plized, declared, live, ever, pend, comp, rv, done, before, parw, since
vars == <<tree, res, plan, st, i, j, plized, declared, live, ever, pend, comp, rv, done, before, parw, since>>
world == <<live, ever, pend, comp, rv>>
Rec == ndJsonDeserialize(IOEnv.TRACE)
x == Rec[i]

Things == 1..8
Comps == 5..8
Ress == 2..4
Big == 1000003
SetOf(s) == {s[k] : k \in 1..Len(s)}
Bad(field, tags, want, got) == [field |-> field, tags |-> tags, want |-> ToString(want), got |-> ToString(got)]
Good == Bad("", {}, "", "")
Also22(t) == IF plized THEN t \cup {"C22"} ELSE t
Id(m) == <<m[1], m[2]>>
Ids(s) == {Id(s[k]) : k \in 1..Len(s)}
Idx(S) == {m[1] : m \in S}
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k][1] < s[k + 1][1]

(* Declarations: members are [thing, 1 read or 2 write]; a component is     *)
(* used together with the entity list.                                     *)
Strongest(S) == IF 2 \in S THEN 2 ELSE IF 1 \in S THEN 1 ELSE 0
Uses(items, t) == {items[k][2] : k \in {k \in 1..Len(items) : items[k][1] = t}} \cup
                  (IF t = 1 /\ \E k \in 1..Len(items) : items[k][1] \in Comps THEN {1} ELSE {})
Decl(items) ==
    [bad |-> \E a, b \in 1..Len(items) : a < b /\ items[a][1] = items[b][1] /\ (items[a][2] = 2 \/ items[b][2] = 2),
     r |-> [t \in Things |-> Strongest(Uses(items, t))]]
Says(y, r) == SetOf(y.reads) = {t \in Things : r[t] = 1} /\ SetOf(y.writes) = {t \in Things : r[t] = 2}
              /\ Len(y.reads) + Len(y.writes) = Cardinality({t \in Things : r[t] > 0})
JudgeLeaf(y) ==
    LET d == Decl(y.items)
    IN IF y.panic THEN Bad("check panics", {"C18"}, d, y)
       ELSE IF y.ok # ~d.bad THEN Bad("conflict", {"C18"}, ~d.bad, y)
       ELSE IF y.ok /\ ~Says(y, d.r) THEN Bad("declared", {"C18"}, d.r, y)
       ELSE Good
RECURSIVE JudgeLeaves(_, _)
JudgeLeaves(ys, k) == IF k > Len(ys) THEN Good
                      ELSE LET b == JudgeLeaf(ys[k]) IN IF b.tags # {} THEN b ELSE JudgeLeaves(ys, k + 1)
Decls_(ys) == [k \in 1..Len(ys) |-> Decl(ys[k].items)]
JudgeNew ==
    LET b == JudgeLeaves(x.leaves, 1)
    IN IF b.tags # {} THEN b
       ELSE IF x.o = "plize" /\ (LET g == Groups(Decls_(x.leaves))
                                 IN Len(x.groups) # Len(g) \/ \E k \in 1..Len(g) : SetOf(x.groups[k]) # SetOf(g[k]) \/ Len(x.groups[k]) # Len(g[k]))
       THEN Bad("groups", {"C22"}, Groups(Decls_(x.leaves)), x.groups)
       ELSE Good

JudgeCheck ==
    LET ok == Check(tree, res)
        u == UnionOf(Leaves, res, Things)
    IN IF x.panic THEN Bad("check panics", Also22({"C19"}), ok, "panic")
       ELSE IF x.ok # ok THEN Bad("check", Also22({"C19"}), ok, x.ok)
       ELSE IF ok /\ ~Says(x, u) THEN Bad("resources", Also22({"C19"}), u, x)
       ELSE Good

-----------------------------------------------------------------------------
(* What a system does, member by member.  s is the world it finds, with     *)
(* the entities it has made itself.                                        *)

JoinTags(it) == IF it.par \/ it.t \in parw THEN {"C11"} ELSE {"C10"}
JudgeItem(s, it, others) ==
    CASE it.k = "E" ->
           LET made == Ids(it.made)
           IN IF Cardinality(made) # Len(it.made) \/ made \cap s.ever # {} \/ Cardinality(Idx(made)) # Len(it.made)
                 \/ Idx(made) \cap Idx(s.live) # {} \/ \E m \in made : m[2] <= 0
              THEN Bad("created", {"C01", "C05"}, s.live, it.made)
              ELSE IF \E k \in 1..Len(it.asked) : it.asked[k][3] # (IF Id(it.asked[k]) \in before \cup done THEN 1 ELSE 0)
              THEN Bad("delete request", {"C02", "C05"}, before, it.asked)
              ELSE IF \E k \in 1..Len(it.asked) : it.asked[k][4] # it.asked[k][3]
              THEN Bad("alive after the request", {"C03", "C05"}, before, it.asked)
              ELSE IF Cardinality(Ids(it.seen)) # Len(it.seen) \/ ~(before \cup done \cup s.made \cup made \subseteq Ids(it.seen))
                      \/ ~(Ids(it.seen) \subseteq s.live \cup made \cup others)
              THEN Bad("entities seen", {"C05"} \cup (IF it.par THEN {"C11"} ELSE {"C10"}), before \cup done \cup s.made \cup made, it.seen)
              ELSE IF ~it.par /\ ~Ascending(it.seen) THEN Bad("order", {"C10"}, "ascending", it.seen)
              ELSE Good
      [] it.k = "C" ->
           IF SetOf(it.rows) # s.comp[it.t] \/ Len(it.rows) # Cardinality(s.comp[it.t]) THEN Bad("rows", JoinTags(it), s.comp[it.t], it.rows)
           ELSE IF ~it.par /\ ~Ascending(it.rows) THEN Bad("order", {"C10"}, "ascending", it.rows)
           ELSE IF it.w /\ (Ids(it.put) # s.made \/ \E k \in 1..Len(it.put) : it.put[k][3] # 0) THEN Bad("insert", {"C13"}, s.made, it.put)
           ELSE Good
      [] it.k = "R" -> IF it.v # s.rv[it.t] THEN Bad("resource", {"C14"}, s.rv[it.t], it.v) ELSE Good
DoItem(s, it, n) ==
    CASE it.k = "E" ->
           [s EXCEPT !.live = @ \cup Ids(it.made), !.ever = @ \cup Ids(it.made), !.made = @ \cup Ids(it.made),
                     !.pend = @ \cup {Id(it.asked[k]) : k \in {k \in 1..Len(it.asked) : it.asked[k][3] = 1}}]
      [] it.k = "C" /\ it.w ->
           [s EXCEPT !.comp[it.t] = {<<c[1], c[2], (3 * c[3] + n) % Big>> : c \in @} \cup {<<m[1], m[2], 10 * n>> : m \in s.made}]
      [] it.k = "R" /\ it.w -> [s EXCEPT !.rv[it.t] = (3 * @ + n) % Big]
      [] OTHER -> s
\* the first bad member, or the world afterwards
RECURSIVE Do(_, _, _, _, _)
Do(s, items, k, n, others) ==
    IF k > Len(items) THEN [b |-> Good, s |-> s]
    ELSE LET b == JudgeItem(s, items[k], others)
         IN IF b.tags # {} THEN [b |-> b, s |-> s] ELSE Do(DoItem(s, items[k], n), items, k + 1, n, others)

MadeBy(e) == UNION {IF e.items[k].k = "E" THEN Ids(e.items[k].made) ELSE {} : k \in 1..Len(e.items)}
\* all that is made in this run
AllMade == UNION {MadeBy(x.ev[k]) : k \in 1..Len(x.ev)}
Here == [live |-> live, ever |-> ever, pend |-> pend, comp |-> comp, rv |-> rv, made |-> {}]
Act == Do(Here, x.ev[j].items, 1, x.ev[j].n, AllMade)
BeginOf(n) == CHOOSE k \in 1..j : x.ev[k].n = n
\* the components a run has written in parallel
ParW(e) == {e.items[k].t : k \in {k \in 1..Len(e.items) : e.items[k].k = "C" /\ e.items[k].w /\ e.items[k].par}}

JudgeEvent ==
    LET e == x.ev[j]
        l == IF e.n > 0 THEN e.n ELSE -e.n
    IN IF l \notin Leaves THEN Bad("a system that is not there", {"C20"}, Leaves, l)
       ELSE IF e.n < 0 THEN IF st[l] = "run" THEN Good ELSE Bad("ends without starting", {"C20"}, st, l)
       ELSE IF st[l] # "idle" THEN Bad("runs twice", {"C20"}, st, l)
       ELSE IF \E m \in Leaves : st[m] = "run" /\ Conflict(res[m].r, res[l].r) THEN
            \* a borrow was given that conflicts with one that is held
            Bad("conflicting borrow", {"C15"} \cup (IF Ready(tree, l) THEN {} ELSE Also22({"C20"})), st, l)
       ELSE IF ~Ready(tree, l) THEN Bad("runs before what precedes it has ended", Also22({"C20"}), st, l)
       ELSE Act.b

RECURSIVE Has(_, _, _)
Has(s, t, k) == IF k + Len(t) - 1 > Len(s) THEN FALSE ELSE SubSeq(s, k, k + Len(t) - 1) = t \/ Has(s, t, k + 1)
JudgeRun ==
    IF j = 0 THEN
        IF x.panic
        THEN Bad("panic", IF Has(x.msg, "borrowed", 1) THEN {"C15", "C18"}
                          ELSE IF Has(x.msg, "no such resource", 1) THEN {"C14", "C18"} ELSE {"C20"}, "the run succeeds", x.msg)
        ELSE Good
    ELSE IF j <= Len(x.ev) THEN JudgeEvent
    ELSE IF ~Quiet THEN Bad("returns before its systems have ended", {"C20"}, st, "returned")
    ELSE IF ~Over(tree) THEN Bad("systems do not run", Also22({"C20"}), st, "returned")
    ELSE Good

New(k) == Id(x.new[k])
JudgeEdit ==
    LET new == Ids(x.new)
        now == live \cup new
        asked == x.killed
        dead(k) == {Id(asked[m]) : m \in 1..(k - 1)}
    IN IF Cardinality(new) # Len(x.new) \/ new \cap ever # {} \/ Cardinality(Idx(now)) # Cardinality(now) \/ \E m \in new : m[2] <= 0
       THEN Bad("created", {"C01"}, live, x.new)
       ELSE IF \E k \in 1..Len(asked) : asked[k][3] # (IF Id(asked[k]) \in now \ dead(k) THEN 1 ELSE 0)
       THEN Bad("deleted", {"C02"}, now, asked)
       ELSE Good

JudgeSee ==
    IF Ids(x.live) # live \/ Len(x.live) # Cardinality(live)
    THEN Bad("live", IF "merge" \in since THEN {"C03"} ELSE IF "run" \in since THEN {"C05"} ELSE {"C02"}, live, x.live)
    ELSE IF ~Ascending(x.live) THEN Bad("order", {"C10"}, "ascending", x.live)
    ELSE IF \E t \in Comps : SetOf(x.comps[t - 4]) # comp[t] \/ Len(x.comps[t - 4]) # Cardinality(comp[t])
    THEN LET t == CHOOSE t \in Comps : SetOf(x.comps[t - 4]) # comp[t] \/ Len(x.comps[t - 4]) # Cardinality(comp[t])
         IN Bad("components", IF t \in parw THEN {"C11"} ELSE IF "run" \in since /\ "merge" \notin since THEN {"C10"} ELSE {"C13"}, comp[t], x.comps[t - 4])
    ELSE IF \E t \in Ress : x.res[t - 1] # rv[t] THEN Bad("resources", {"C14"}, rv, x.res)
    ELSE Good

Judge ==
    CASE x.o \in {"app", "plize"} -> JudgeNew
      [] x.o = "check" -> JudgeCheck
      [] x.o = "edit" -> JudgeEdit
      [] x.o = "run" -> JudgeRun
      [] x.o = "see" -> JudgeSee
      [] OTHER -> Good

-----------------------------------------------------------------------------
NoPlan == [fail |-> {}, panic |-> 0]
StartApp ==
    /\ res' = Decls_(x.leaves)
    /\ tree' = Ann(IF x.o = "plize" THEN GroupTree(Groups(Decls_(x.leaves))) ELSE x.tree)
    /\ plized' = (x.o = "plize")
    /\ st' = [l \in tree'.ls |-> "idle"] /\ plan' = NoPlan
    /\ live' = {} /\ ever' = {} /\ pend' = {} /\ done' = {} /\ before' = {} /\ parw' = {} /\ since' = {}
    /\ comp' = [t \in Comps |-> {}]
    /\ rv' = [t \in Ress |-> t - 1]
    /\ declared' = TRUE
Settled == UNCHANGED <<tree, res, plan, plized, declared>>
Go(k) == i' = i + 1 /\ j' = 0
Step ==
    CASE x.o \in {"app", "plize"} -> StartApp /\ Go(1)
      [] x.o = "check" -> Go(1) /\ Settled /\ UNCHANGED <<st, world, done, before, parw, since>>
      [] x.o = "edit" ->
            LET gone == {Id(x.killed[k]) : k \in {k \in 1..Len(x.killed) : x.killed[k][3] = 1}}
                here == (live \cup Ids(x.new)) \ gone
            IN /\ live' = here /\ ever' = ever \cup Ids(x.new) /\ pend' = pend \ gone
               /\ comp' = [t \in Comps |-> {c \in comp[t] \cup {<<x.new[k][1], x.new[k][2], x.new[k][t - 2]>> : k \in {k \in 1..Len(x.new) : x.new[k][t - 2] # 0}} : Id(c) \in here}]
               /\ since' = since \cup {"edit"}
               /\ Go(1) /\ Settled /\ UNCHANGED <<st, rv, done, before, parw>>
      [] x.o = "merge" ->
            /\ live' = live \ pend /\ pend' = {}
            /\ comp' = [t \in Comps |-> {c \in comp[t] : Id(c) \notin pend}]
            /\ since' = since \cup {"merge"}
            /\ Go(1) /\ Settled /\ UNCHANGED <<st, ever, rv, done, before, parw>>
      [] x.o = "see" -> Go(1) /\ Settled /\ parw' = {} /\ since' = {} /\ UNCHANGED <<st, world, done, before>>
      [] x.o = "run" /\ j = 0 ->
            /\ st' = [l \in Leaves |-> "idle"] /\ before' = live /\ done' = {}
            /\ j' = 1 /\ since' = since \cup {"run"} /\ UNCHANGED <<i, world, parw>> /\ Settled
      [] x.o = "run" /\ j \in 1..Len(x.ev) ->
            LET e == x.ev[j] IN
            IF e.n > 0
            THEN LET s == Act.s
                 IN /\ Start(e.n)
                    /\ live' = s.live /\ ever' = s.ever /\ pend' = s.pend /\ comp' = s.comp /\ rv' = s.rv
                    /\ parw' = parw \cup ParW(e)
                    /\ j' = j + 1 /\ UNCHANGED <<i, done, before, since>> /\ Settled
            ELSE /\ End(-e.n)
                 /\ done' = done \cup MadeBy(x.ev[BeginOf(-e.n)])
                 /\ j' = j + 1 /\ UNCHANGED <<i, world, before, parw, since>> /\ Settled
      [] OTHER -> Go(1) /\ Settled /\ UNCHANGED <<st, world, done, before, parw, since>>

RECURSIVE NextNew(_)
NextNew(k) == IF k > Len(Rec) THEN k ELSE IF Rec[k].o \in {"app", "plize"} THEN k ELSE NextNew(k + 1)
Show(b) == [tags |-> b.tags, at |-> i, field |-> b.field, want |-> b.want,
            got |-> b.got \o (IF x.o = "run" THEN " (" \o x.pool \o ", event " \o ToString(j) \o ")" ELSE "")]

TInit == /\ tree = Ann([k |-> "seqlist", xs |-> <<>>]) /\ res = <<>> /\ plan = NoPlan /\ st = <<>>
         /\ i = 1 /\ j = 0 /\ plized = FALSE /\ declared = FALSE
         /\ live = {} /\ ever = {} /\ pend = {} /\ comp = [t \in Comps |-> {}] /\ rv = [t \in Ress |-> 0]
         /\ done = {} /\ before = {} /\ parw = {} /\ since = {}
TNext ==
    /\ i <= Len(Rec)
    /\ LET b == Judge
       IN IF b.tags # {}
          THEN /\ PrintT("@B " \o ToJson(Show(b)))
               /\ i' = NextNew(i + 1) /\ j' = 0
               /\ UNCHANGED <<tree, res, plan, st, plized, declared, world, done, before, parw, since>>
          ELSE Step
TSpec == TInit /\ [][TNext]_vars
Place == <<i, j>>
AtEnd == i = Len(Rec) + 1 => PrintT("@D " \o ToJson([events |-> Len(Rec), traces |-> Cardinality({k \in 1..Len(Rec) : Rec[k].o = "run"})]))
=============================================================================
