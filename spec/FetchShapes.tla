---------------------------- MODULE FetchShapes ----------------------------
(* Written by bin/gen_fetch.py. *)
Shapes == <<
  [k |-> "R", t |-> 1],
  [k |-> "W", t |-> 1],
  [k |-> "R", t |-> 2],
  [k |-> "W", t |-> 2],
  [k |-> "W", t |-> 3],
  [k |-> "E"],
  [k |-> "NONE"],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "W", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "W", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "E"], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "E"], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "E"], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "W", t |-> 1], [k |-> "NONE"]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "W", t |-> 2], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 1], [k |-> "R", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "R", t |-> 1], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "E"], [k |-> "R", t |-> 1], [k |-> "E"]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2]>>], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "W", t |-> 2]>>], [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "W", t |-> 1]>>], [k |-> "T", xs |-> <<[k |-> "W", t |-> 1]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "W", t |-> 1], [k |-> "R", t |-> 1]>>], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "R", t |-> 1]>>]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "NONE"]>>], [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "R", t |-> 1]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "W", t |-> 2], [k |-> "E"]>>], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>], [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "T", xs |-> <<[k |-> "W", t |-> 2]>>]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "NONE"]>>], [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "T", xs |-> <<[k |-> "W", t |-> 3]>>]>>]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "W", t |-> 3], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 3]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "R", t |-> 2], [k |-> "NONE"], [k |-> "E"], [k |-> "R", t |-> 1], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "W", t |-> 2], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "W", t |-> 2], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "W", t |-> 2], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>],
  [k |-> "T", xs |-> <<[k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "NONE"], [k |-> "W", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "W", t |-> 2], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1], [k |-> "R", t |-> 1]>>],
  [k |-> "T", xs |-> <<[k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "R", t |-> 2], [k |-> "W", t |-> 2]>>]
>>
============================================================================
