-------------------------------- MODULE Threads --------------------------------
(* Which values may be reached from which threads through the library.

   A value is put into something the library provides (a storage, a resource set, a world, a
   dynamic component set, a cell, a system) by thread 1, the thing or a handle to it crosses to
   thread 2, and thread 2 reaches the value.  `may` records what each thread can do with the value
   at that moment: "r" share it (while others may share it too), "w" have it to itself.

   What must never happen is that a value that is not Sync is shared by two threads, or that a
   value that is not Send is in thread 2 exclusively.  This module knows no bounds: the library
   has to refuse (by not compiling) every behaviour that ends in `bad`. *)
EXTENDS Naturals, Sequences, TLC, Json

Classes == { [send |-> a, sync |-> b] : a, b \in BOOLEAN }

Kinds == {"vec", "dense", "hash", "flag", "flagdense"}

(* box: the thing; cross: how it gets to thread 2; reach: what thread 2 does there.
   gives: what the second thread can then do; keeps: what the first thread can do meanwhile. *)
P(box, cross, reach, gives, keeps) ==
    [box |-> box, cross |-> cross, reach |-> reach, gives |-> gives, keeps |-> keeps]
Shared(box, cross, ms) == { P(box, cross, m, {"r"}, {"r"}) : m \in ms }
Alone(box, cross, ms) == { P(box, cross, m, {"r", "w"}, {}) : m \in ms }

Storages ==
    UNION { Shared("ms_" \o k, c, {"get", "join", "maybe"}) : k \in Kinds, c \in {"ref", "arc"} }
  \cup UNION { Alone("ms_" \o k, "mut", {"get_mut", "remove", "guard", "join_mut", "goi", "insert"}) : k \in Kinds }
  \cup UNION { Alone("ms_" \o k, "move", {"drop", "get_mut"}) : k \in Kinds }
  \* rayon takes the items across
  \cup UNION { Shared("ms_" \o k, "rayon", {"par", "par_maybe", "par_tuple", "par_unchecked"}) : k \in Kinds }
  \cup UNION { Alone("ms_" \o k, "rayon", {"par_mut", "par_maybe_mut", "par_guard", "par_tuple_mut", "par_mut_unchecked"}) : k \in Kinds }
  \* handles
  \cup UNION { Alone("ms_" \o k, "guard", {"get_mut"}) : k \in Kinds }
  \cup UNION { Shared("ms_" \o k, "guard_ref", {"get"}) : k \in Kinds }
  \cup UNION { Alone("ms_" \o k, "guarded_join", {"join"}) : k \in Kinds }
  \cup UNION { Alone("ms_" \o k, "iter_mut", {"next"}) : k \in Kinds }
  \cup UNION { Alone("ms_" \o k, "par_iter_mut", {"drive"}) : k \in Kinds }
  \cup UNION { Shared("ms_" \o k, "iter", {"next"}) : k \in Kinds }
  \cup UNION { Shared("raw_" \o k, c, {"get"}) : k \in Kinds, c \in {"ref", "arc"} }
  \cup UNION { Alone("raw_" \o k, c, {"get_mut"}) : k \in Kinds, c \in {"mut", "move"} }
  \cup Shared("ms_dense", "ref", {"as_slice"}) \cup Alone("ms_dense", "mut", {"as_mut_slice"})
  \cup UNION { Shared("ms_" \o k, "rayon", {"par_modified"}) \cup Alone("ms_" \o k, "rayon", {"par_modified_mut"})
               \cup Alone("ms_" \o k, "modified_mut", {"join"}) \cup Shared("ms_" \o k, "modified", {"join"})
               : k \in {"flag", "flagdense"} }

Resources == UNION { Shared(b, c, {"borrow", "fetch_read"}) : b \in {"rs", "w"}, c \in {"ref", "arc"} }
  \cup UNION { Alone(b, c, {"borrow_mut", "fetch_write"}) : b \in {"rs", "w"}, c \in {"ref", "arc"} }
  \cup UNION { Alone(b, "mut", {"get_mut", "remove"}) : b \in {"rs", "w"} }
  \cup UNION { Alone(b, "move", {"drop", "remove", "borrow_mut"}) : b \in {"rs", "w"} }
  \* borrows and fetched items cross
  \cup UNION { Shared(b, c, {"deref"}) : b \in {"rs", "w"}, c \in {"borrow", "read", "borrow_mut_ref", "write_ref"} }
  \cup UNION { Alone(b, c, {"deref_mut"}) : b \in {"rs", "w"}, c \in {"borrow_mut", "write"} }

Components ==
    UNION { Shared("wc_" \o k, c, {"read", "fetch_read"}) : k \in Kinds, c \in {"ref", "arc"} }
  \cup UNION { Alone("wc_" \o k, c, {"write", "fetch_write"}) : k \in Kinds, c \in {"ref", "arc"} }
  \cup UNION { Alone("wc_" \o k, "mut", {"component_mut", "delete"}) : k \in Kinds }
  \cup UNION { Alone("wc_" \o k, "move", {"drop", "remove_component", "write"}) : k \in Kinds }
  \cup UNION { Shared("wc_" \o k, c, {"get", "join"}) : k \in Kinds, c \in {"access", "access_ref", "access_mut_ref"} }
  \cup UNION { Alone("wc_" \o k, c, {"get_mut"}) : k \in Kinds, c \in {"access_mut", "component_mut"} }

Sets == UNION { Shared(b, c, {"get"}) : b \in {"set", "cset", "cell"}, c \in {"ref", "arc"} }
  \cup UNION { Alone(b, "mut", {"get_mut"}) : b \in {"set", "cset", "cell"} }
  \cup UNION { Alone(b, "move", {"drop", "take"}) : b \in {"set", "cset", "cell"} }
  \cup Alone("set", "move", {"into_world"})

(* Systems run by the pool in another thread: the system holds the value, its error is the value,
   its arguments or the pool let it reach the value. *)
Systems == UNION { Alone(b, "run", {"self", "error"}) : b \in {"par", "parlist", "parallelize"} }
  \cup UNION { Shared(b, "run", {"args", "pool"}) : b \in {"par", "parlist", "parallelize"} }

Paths == Storages \cup Resources \cup Components \cup Sets \cup Systems

(* Documented: a value that is not Sync may still be a resource or component, reached mutably. *)
Promised(p, c) ==
    \/ c.send /\ c.sync
    \/ /\ c.send /\ ~c.sync /\ p.keeps = {}
       /\ \/ p.box \in {"rs", "w", "cell"} /\ p.cross \in {"ref", "arc", "mut", "move"}
          \/ p.box \in {"wc_" \o k : k \in Kinds} /\ p.cross \in {"ref", "mut", "move"} /\ p.reach # "fetch_read"

VARIABLES class, path, may, phase
vars == <<class, path, may, phase>>

Init == /\ class \in Classes
        /\ path \in Paths
        /\ may = [t \in {1, 2} |-> IF t = 1 THEN {"r", "w"} ELSE {}]
        /\ phase = "put"

Cross == /\ phase = "put" /\ phase' = "crossed"
         /\ may' = [may EXCEPT ![1] = path.keeps]
         /\ UNCHANGED <<class, path>>

Reach == /\ phase = "crossed" /\ phase' = "reached"
         /\ may' = [may EXCEPT ![2] = path.gives]
         /\ UNCHANGED <<class, path>>

Next == Cross \/ Reach
Spec == Init /\ [][Next]_vars

Racy == ~class.sync /\ may[1] # {} /\ may[2] # {}
Stray == ~class.send /\ "w" \in may[2]
bad == Racy \/ Stray

(* A value of a type that allows everything is never in danger; exclusive access stays exclusive. *)
Free == class.send /\ class.sync => ~bad
Exclusive == \A t \in {1, 2} : "w" \in may[t] => may[3 - t] = {}
Sound == phase = "reached" /\ Promised(path, class) => ~bad

Emit == phase = "reached" =>
    PrintT("@P" \o ToJson([box |-> path.box, cross |-> path.cross, reach |-> path.reach,
                           send |-> class.send, sync |-> class.sync, bad |-> bad,
                           want |-> Promised(path, class)]))
==============================================================================
