-------------------------------- MODULE Borrows --------------------------------
(* What safe code may do with the references the library hands out.

   Memory is a few places (two components of one storage, the storage's mask and its flags, a
   resource, the list of entities, a value in a dynamic set).
   Every place has a stack of permissions, as in Rust's stacked-borrows model: taking a shared
   reference through the owner removes the exclusive ones above the owner, taking an exclusive one
   removes everything above the owner, and an operation that may move or destroy the value removes
   everything.  Using a reference whose permission is gone is what must never happen.

   A behaviour is a program: it derives handles (iterators, guards, borrows, references) from a
   root object, step by step, and finally uses a reference.  This module only knows which
   references and which destructive effects each public method provides; it knows no lifetimes and
   no run-time borrow flags.  The library has to make every behaviour that ends in `bad`
   unreachable: the compiler refuses the program, or the program panics before the use.  So every
   program of this module is generated as Rust source; those the compiler accepts are run. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Roots,      \* the root objects explored
          MaxChain,   \* longest chain of derivations before the first reference is reached
          MaxSecond,  \* the same for the second reference
          Brief       \* the second chain uses one representative of each way to reach a reference

R(on, m, to, refs) == [on |-> on, m |-> m, to |-> to, refs |-> refs]
S(p) == <<[p |-> p, u |-> FALSE]>>
U(p) == <<[p |-> p, u |-> TRUE]>>
None == <<>>

(* Places "i" and "both" are resolved when the reference is taken: "i" is the place the handle is
   at, "both" are both components. *)
Stores == {"st", "sts", "stm"}
StoresM == {"st", "stm"}
Comps == {"RC", "WC", "CA"}
CompsM == {"WC", "CA"}

Rows ==
  \* storages, and a world's component access, which offers the same
     { R(o, m, "ref", S("i")) : o \in Stores \cup Comps, m \in {"get", "maybe", "triple"} }
  \cup { R(o, m, "ref", S("both")) : o \in Stores \cup Comps, m \in {"as_slice", "par"} }
  \cup { R(o, "join", "IS", None) : o \in Stores \cup Comps }
  \cup { R(o, "modified", "IO", None) : o \in Stores \cup Comps }
  \cup { R(o, "mask", "ref", S("m")) : o \in Stores \cup Comps }
  \cup { R(o, "modified_indexes", "ref", S("f")) : o \in Stores \cup Comps }
  \cup { R(o, m, "ref", U("i")) : o \in StoresM \cup CompsM, m \in {"get_mut", "goi", "maybe_mut"} }
  \cup { R(o, "god", "ref", U("i")) : o \in CompsM }
  \cup { R(o, m, "ref", U("both")) : o \in StoresM \cup CompsM, m \in {"as_mut_slice", "par_mut", "par_modified_mut"} }
  \cup { R(o, "par_guard", "G", None) : o \in StoresM \cup CompsM }
  \cup { R(o, "join_mut", "IM", None) : o \in StoresM \cup CompsM }
  \cup { R(o, "modified_mut", "IM", None) : o \in StoresM \cup CompsM }
  \cup { R(o, "guard", "GJ", None) : o \in StoresM \cup CompsM }
  \cup { R(o, "get_guard", "G", None) : o \in StoresM \cup CompsM }
  \* two operands over one storage in one join
  \cup { R(o, "both_" \o a \o b, "pair", <<[p |-> "i", u |-> a # "s"], [p |-> "i", u |-> b # "s"]>>) :
           o \in StoresM \cup CompsM, a, b \in {"s", "m", "g", "o"} }
  \* raw storage, storage of a component access
  \cup { R(o, "raw", "rw", None) : o \in Stores }
  \cup { R(o, "raw_mut", "rwm", None) : o \in StoresM }
  \cup { R(o, "as_slice", "ref", S("both")) : o \in {"rw", "rwm"} }
  \cup { R("rwm", "as_mut_slice", "ref", U("both")) }
  \cup { R(o, "storage", "sts", None) : o \in Comps }
  \cup { R(o, "storage_mut", "stm", None) : o \in CompsM }
  \* iterators, guards; copies of them
  \cup { R(o, "next", "ref", S("i")) : o \in {"IS", "IO"} }
  \cup { R("IM", "next", "ref", U("i")), R("IG", "next", "G", None), R("GJ", "join", "IG", None),
         R("G", "get", "ref", S("i")), R("G", "get_mut", "ref", U("i")) }
  \cup { R(o, m, o, None) : o \in {"IM", "IG", "GJ", "G", "WC", "CA", "WR", "rbm", "WD"}, m \in {"copy", "clone"} }
  \* world
  \cup { R("w", m, "RC", None) : m \in {"read_component", "fetch_rc"} }
  \cup { R("w", m, "EN", None) : m \in {"entities", "fetch_en"} }
  \cup { R("EN", m, "ref", S("e")) : m \in {"live_bitset", "join_e"} }
  \cup { R("w", m, "WC", None) : m \in {"write_component", "fetch_wc"} }
  \cup { R("w", "get_component_mut", "CA", None), R("w", "get_resource_mut", "ref", U("r")) }
  \cup { R("w", m, "RR", None) : m \in {"read_resource", "fetch_rr"} }
  \cup { R("w", m, "WR", None) : m \in {"write_resource", "fetch_wr"} }
  \* resource sets, dynamic component sets
  \cup { R("rs", "borrow", "rb", None), R("rs", "borrow_mut", "rbm", None),
         R("rs", "fetch_r", "RD", None), R("rs", "fetch_w", "WD", None), R("rs", "get_mut", "ref", U("r")) }
  \cup { R(o, "deref", "ref", S("r")) : o \in {"RR", "WR", "rb", "rbm", "RD", "WD"} }
  \cup { R(o, "deref_mut", "ref", U("r")) : o \in {"WR", "rbm", "WD"} }
  \cup { R(o, "get", "ref", S("a")) : o \in {"set", "cset", "ms"} }
  \cup { R(o, "get_mut", "ref", U("a")) : o \in {"set", "cset", "ms"} }

(* What a handle that only shares must not offer at all. *)
Shared == {"sts", "RC"}
Attempts ==
     { R(o, m, "ref", U("i")) : o \in Shared, m \in {"get_mut", "goi", "maybe_mut"} }
  \cup { R(o, m, "ref", U("both")) : o \in Shared, m \in {"as_mut_slice", "par_mut", "par_modified_mut"} }
  \cup { R(o, m, "IM", None) : o \in Shared, m \in {"join_mut", "modified_mut"} }
  \cup { R(o, "guard", "GJ", None) : o \in Shared } \cup { R(o, "get_guard", "G", None) : o \in Shared }
  \cup { R("rw", "as_mut_slice", "ref", U("both")), R("RC", "storage_mut", "stm", None), R("RC", "god", "ref", U("i")) }
  \cup { R(o, "deref_mut", "ref", U("r")) : o \in {"RR", "rb", "RD"} }

(* Operations that may move or destroy the value at `p` (all of them, where it says "all"). *)
O(on, m, p) == [on |-> on, m |-> m, p |-> p]
Ops ==
     { O(o, m, "all") : o \in StoresM, m \in {"insert", "insert_far", "remove", "goi_far", "take", "raw_take"} }
  \cup { O(o, m, "all") : o \in CompsM, m \in {"insert", "remove"} }
  \cup { O("st", "drop", "all"), O("stm", "raw_replace", "all"), O("st", "raw_replace", "all") }
  \cup { O("w", m, "all") : m \in {"delete_entity", "merge", "insert_component", "remove_component", "drop", "into_world"} }
  \cup { O("w", "create_entity", "e") }
  \cup { O("w", m, "r") : m \in {"insert_resource", "remove_resource"} }
  \cup { O("rs", m, "r") : m \in {"insert", "remove", "drop"} }
  \cup { O("set", m, "a") : m \in {"insert", "remove", "merge", "merged", "into_world", "drop"} }
  \cup { O("cset", m, "a") : m \in {"insert", "merge", "merged", "drop"} }
  \cup { O("ms", m, "a") : m \in {"into_inner", "drop"} }

(* Operations that leave the mask of the storage as it is but take the values away.  The next
   access by index would produce a reference to a value that is not there. *)
Hollow == {"raw_take", "raw_replace"}
ByIndex == {"get", "get_mut", "next", "maybe", "maybe_mut", "triple", "goi", "god"}

(* Where the second chain is brief, it takes these steps, and only the last ones after a run-time
   borrow: what matters then is which borrow it takes. *)
Shortest == {"get", "get_mut", "deref", "deref_mut"}
Short == Shortest \cup
    {"read_component", "write_component", "get_component_mut", "read_resource", "write_resource", "get_resource_mut",
     "next", "join", "join_mut", "guard", "get_guard", "modified", "modified_mut", "as_slice", "as_mut_slice",
     "borrow", "borrow_mut", "storage", "storage_mut", "entities", "live_bitset"}

(* Handles that hold a run-time borrow: dropping them gives it back. *)
Locks == {"RC", "WC", "RR", "WR", "rb", "rbm", "RD", "WD"}

Places == {"c0", "c1", "m", "f", "r", "e", "a"}
(* What an operation on a handle of type t may destroy or move. *)
Reach(t, p) == IF p # "all" THEN {p} ELSE IF t = "w" THEN Places ELSE {"c0", "c1", "m", "f"}

VARIABLES prog,    \* the program so far: sequence of steps
          hs,      \* its handles: [t: type, at: next component an iterator or guard is at, on: usable]
          stack,   \* per place: the references whose permission is still there, oldest first
          full,    \* the values are in the storage
          phase,   \* 1: first chain, 2: after the first reference, 3: second chain, 4: ready to use, 5: done
          len,     \* derivations in the current chain
          bad      \* "": fine, otherwise what went wrong

vars == <<prog, hs, stack, full, phase, len, bad>>

Init == \E root \in Roots :
    /\ prog = <<[k |-> "root", m |-> root, h |-> 0, to |-> root]>>
    /\ hs = <<[t |-> root, at |-> 0, ps |-> {}]>>
    /\ stack = [p \in Places |-> <<>>]
    /\ full = TRUE
    /\ phase = 1
    /\ len = 0
    /\ bad = ""

At(h) == IF h.at = 1 THEN "c1" ELSE "c0"
Resolve(h, ref) == IF ref.p = "i" THEN {At(h)} ELSE IF ref.p = "both" THEN {"c0", "c1"} ELSE {ref.p}

Keep(s, P(_)) == SelectSeq(s, P)
(* Take references of the given kind to a place: entries are [id, u]. *)
Take(s, id, u) == Append(Keep(s, LAMBDA e : ~u /\ ~e.u), [id |-> id, u |-> u])

RECURSIVE TakeAll(_, _, _, _)
TakeAll(st, h, refs, id) ==
    IF refs = <<>> THEN st
    ELSE LET ps == Resolve(h, Head(refs))
         IN TakeAll([p \in Places |-> IF p \in ps THEN Take(st[p], id, Head(refs).u) ELSE st[p]],
                    h, Tail(refs), id + 1)

(* The k-th handle is the k-th element of hs; references are handles too. *)
Derive(i, r) ==
    /\ phase \in {1, 3}
    /\ len < IF phase = 1 THEN MaxChain ELSE MaxSecond
    /\ hs[i].t = r.on
    /\ phase = 3 /\ Brief => r.m \in IF hs[i].t \in Locks /\ len > 0 THEN Shortest ELSE Short
    /\ r.m \in {"copy", "clone"} => phase = 1
    /\ LET id == Len(hs) + 1
           h == hs[i]
           new == IF r.to = "pair" THEN [k \in 1..2 |-> [t |-> "ref", at |-> 0, ps |-> Resolve(h, r.refs[k])]]
                  ELSE <<[t |-> r.to, at |-> IF r.to = r.on \/ r.on = "IG" THEN h.at ELSE 0,
                          ps |-> IF r.to = "ref" THEN Resolve(h, r.refs[1]) ELSE {}]>>
           moved == IF r.m = "next" THEN [hs EXCEPT ![i].at = @ + 1] ELSE hs
       IN /\ r.m = "next" => h.at < 2
          /\ hs' = moved \o new
          /\ stack' = TakeAll(stack, h, r.refs, id)
          /\ prog' = Append(prog, [k |-> "derive", m |-> r.m, h |-> i, to |-> r.to])
          /\ bad' = IF ~full /\ (r.m \in ByIndex) THEN "hollow" ELSE bad
          /\ phase' = IF phase = 1 THEN (IF r.to = "ref" THEN 2 ELSE IF r.to = "pair" THEN 4 ELSE 1)
                      ELSE (IF r.to \in {"ref", "pair"} THEN 4 ELSE 3)
          /\ len' = len + 1
    /\ UNCHANGED full

(* A derivation continues the current chain: from the newest handle, or, at the start of the
   second chain, from any handle. *)
Chain(i) == IF len = 0 THEN hs[i].t # "ref" ELSE i = Len(hs)

Op(i, o) ==
    /\ phase = 3
    /\ len < MaxSecond
    /\ Brief => len = 0
    /\ hs[i].t = o.on
    /\ stack' = [p \in Places |-> IF p \in Reach(o.on, o.p) THEN <<>> ELSE stack[p]]
    /\ prog' = Append(prog, [k |-> "op", m |-> o.m, h |-> i, to |-> ""])
    /\ full' = (full /\ o.m \notin Hollow)
    /\ phase' = 4
    /\ UNCHANGED <<hs, bad, len>>

(* Take the values away first, then reach for them. *)
HollowOp(i, o) ==
    /\ phase = 1 /\ full
    /\ hs[i].t = o.on /\ o.m \in Hollow
    /\ i = Len(hs)
    /\ prog' = Append(prog, [k |-> "op", m |-> o.m, h |-> i, to |-> ""])
    /\ full' = FALSE
    /\ UNCHANGED <<hs, stack, phase, len, bad>>

Release(i) ==
    /\ phase = 3 /\ len = 0
    /\ hs[i].t \in Locks
    /\ ~\E j \in DOMAIN prog : prog[j].k = "release"
    /\ prog' = Append(prog, [k |-> "release", m |-> "drop", h |-> i, to |-> ""])
    /\ hs' = [hs EXCEPT ![i].t = "gone"]
    /\ UNCHANGED <<stack, full, phase, len, bad>>

Second == phase = 2 /\ full /\ phase' = 3 /\ len' = 0 /\ UNCHANGED <<prog, hs, stack, full, bad>>

First == CHOOSE i \in DOMAIN hs : hs[i].t = "ref" /\ \A j \in 1..(i - 1) : hs[j].t # "ref"

(* A reference to several places is lost as soon as one of them is. *)
Holds(id) == \A p \in hs[id].ps : \E i \in DOMAIN stack[p] : stack[p][i].id = id

Use ==
    /\ phase \in {2, 4}
    /\ phase = 4 \/ bad # "" \/ full
    /\ prog' = Append(prog, [k |-> "use", m |-> "use", h |-> First, to |-> ToString(hs[First].ps)])
    /\ bad' = IF bad # "" THEN bad ELSE IF Holds(First) THEN "" ELSE "alias"
    /\ phase' = 5
    /\ UNCHANGED <<hs, stack, full, len>>

Next ==
    \/ \E i \in DOMAIN hs : Chain(i) /\ \E r \in IF phase = 1 THEN Rows \cup Attempts ELSE Rows : Derive(i, r)
    \/ \E i \in DOMAIN hs : Chain(i) /\ \E o \in Ops : Op(i, o) \/ HollowOp(i, o)
    \/ \E i \in DOMAIN hs : Release(i)
    \/ Second
    \/ Use

Spec == Init /\ [][Next]_vars

TypeOK == \A p \in Places : \A i \in DOMAIN stack[p] : stack[p][i].id \in DOMAIN hs
(* At most one exclusive reference is usable, and then no other. *)
Exclusive == \A p \in Places : \A i \in DOMAIN stack[p] : stack[p][i].u => Len(stack[p]) = 1

Emit == phase = 5 => PrintT("@P" \o ToJson([prog |-> prog, bad |-> bad]))
==============================================================================
