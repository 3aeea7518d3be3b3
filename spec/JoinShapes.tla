---------------------------- MODULE JoinShapes ----------------------------
(* Written by bin/gen_shapes.py: the operand shapes of which joins are checked. *)
Shapes == <<
  [a |-> [k |-> "B", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "BV", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "A", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"a1"}],
  [a |-> [k |-> "AV", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "ALL"],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "ALLR"],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "S", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "S", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"s2"}],
  [a |-> [k |-> "S", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"s3"}],
  [a |-> [k |-> "SM", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "SM", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"s2"}],
  [a |-> [k |-> "SM", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"s3"}],
  [a |-> [k |-> "G", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "G", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"s2"}],
  [a |-> [k |-> "G", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"s3"}],
  [a |-> [k |-> "R", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"w1"}],
  [a |-> [k |-> "R", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"w2"}],
  [a |-> [k |-> "R", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"w3"}],
  [a |-> [k |-> "W", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"w1"}],
  [a |-> [k |-> "W", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"w2"}],
  [a |-> [k |-> "W", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"w3"}],
  [a |-> [k |-> "WG", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"w1"}],
  [a |-> [k |-> "WG", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"w2"}],
  [a |-> [k |-> "WG", m |-> 3],
   ms |-> {3}, checked |-> TRUE, par |-> TRUE, src |-> {"w3"}],
  [a |-> [k |-> "D"],
   ms |-> {2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s3"}],
  [a |-> [k |-> "DM"],
   ms |-> {2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s3"}],
  [a |-> [k |-> "WD"],
   ms |-> {2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"w3", "wd"}],
  [a |-> [k |-> "WDM"],
   ms |-> {2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"w3", "wd"}],
  [a |-> [k |-> "E", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"e1"}],
  [a |-> [k |-> "N", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"n"}],
  [a |-> [k |-> "LIVE", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"e1"}],
  [a |-> [k |-> "MASK", m |-> 1],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "A", m |-> 1]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"a1"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "ALL"]],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "NOT", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "A", m |-> 1], y |-> [k |-> "BV", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"a1", "b2"}],
  [a |-> [k |-> "OR", x |-> [k |-> "A", m |-> 1], y |-> [k |-> "BV", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"a1", "b2"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "AV", m |-> 1], y |-> [k |-> "A", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"a2", "b1"}],
  [a |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "ALL"]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "AND", x |-> [k |-> "ALL"], y |-> [k |-> "B", m |-> 1]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "ALL"]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "OR", x |-> [k |-> "ALL"], y |-> [k |-> "B", m |-> 1]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "ALL"]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "ALL"], y |-> [k |-> "B", m |-> 1]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "AND", x |-> [k |-> "ALL"], y |-> [k |-> "ALL"]],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "NOT", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "REF", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "REF", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "REF", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "REF", x |-> [k |-> "NOT", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "REF", x |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "REF", x |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "REF", x |-> [k |-> "AND", x |-> [k |-> "ALL"], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "REF", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "AND", x |-> [k |-> "REF", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]], y |-> [k |-> "ALLR"]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "OR", x |-> [k |-> "REF", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]], y |-> [k |-> "REF", x |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "REF", x |-> [k |-> "REF", x |-> [k |-> "ALL"]]], y |-> [k |-> "REF", x |-> [k |-> "B", m |-> 1]]],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "LIVE", m |-> 2],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"e2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "MASK", m |-> 1], y |-> [k |-> "LIVE", m |-> 2]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e2", "s1"}],
  [a |-> [k |-> "OR", x |-> [k |-> "LIVE", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "MASK", m |-> 2]]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2"}],
  [a |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "OR", x |-> [k |-> "B", m |-> 2], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "OR", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]], y |-> [k |-> "B", m |-> 3]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], y |-> [k |-> "AND", x |-> [k |-> "B", m |-> 2], y |-> [k |-> "B", m |-> 3]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "OR", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], y |-> [k |-> "NOT", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "AND", x |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]], y |-> [k |-> "B", m |-> 3]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], y |-> [k |-> "B", m |-> 3]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "NOT", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]], y |-> [k |-> "B", m |-> 3]]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "OR", x |-> [k |-> "OR", x |-> [k |-> "A", m |-> 1], y |-> [k |-> "A", m |-> 2]], y |-> [k |-> "A", m |-> 3]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"a1", "a2", "a3"}],
  [a |-> [k |-> "AND", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "XOR", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "SM", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 2], [k |-> "S", m |-> 1]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 1], [k |-> "SM", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "G", m |-> 3], [k |-> "S", m |-> 1]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b2", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b2", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "NOT", x |-> [k |-> "B", m |-> 1]], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 3], [k |-> "NOT", x |-> [k |-> "A", m |-> 1]]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"a1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "ALL"]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "B", m |-> 1]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "ALL"]>>],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "NOT", x |-> [k |-> "B", m |-> 1]], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "E", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e2", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "SM", m |-> 3]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "NOT", x |-> [k |-> "MASK", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "AND", x |-> [k |-> "MASK", m |-> 2], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "e1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "E", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "e2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "SM", m |-> 3]]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "G", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "SM", m |-> 1]], [k |-> "MAYBE", x |-> [k |-> "SM", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "SM", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "ALL"]], [k |-> "B", m |-> 1]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "B", m |-> 1]], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "R", m |-> 1], [k |-> "W", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"w1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "W", m |-> 1], [k |-> "R", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"w1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "WG", m |-> 3], [k |-> "R", m |-> 1]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"w1", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "N", m |-> 1], [k |-> "W", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"n", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "N", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"n", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "R", m |-> 3], [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]>>],
   ms |-> {1, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "N", m |-> 1], [k |-> "WD"]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"n", "w3", "wd"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "WDM"], [k |-> "R", m |-> 1]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"w1", "w3", "wd"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "D"], [k |-> "S", m |-> 1]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "D"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "DM"]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "D"]], [k |-> "S", m |-> 1]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "D"]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "e1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "D"], [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "d", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "DM"], [k |-> "B", m |-> 1]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "d", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "XOR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]], [k |-> "SM", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "OR", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "B", m |-> 2]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "AND", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "BV", m |-> 1], [k |-> "AV", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 1]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "R", m |-> 2], [k |-> "R", m |-> 2]>>],
   ms |-> {2}, checked |-> TRUE, par |-> TRUE, src |-> {"w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"b1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "LIVE", m |-> 1], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 1], [k |-> "SM", m |-> 2], [k |-> "SM", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "G", m |-> 1], [k |-> "SM", m |-> 2], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "R", m |-> 1], [k |-> "W", m |-> 2], [k |-> "W", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"w1", "w2", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "B", m |-> 2], [k |-> "B", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "S", m |-> 2], [k |-> "SM", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "SM", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "S", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "SM", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b2", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "NOT", x |-> [k |-> "B", m |-> 1]], [k |-> "S", m |-> 2], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "NOT", x |-> [k |-> "B", m |-> 1]], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "NOT", x |-> [k |-> "B", m |-> 1]], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "S", m |-> 2], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]>>],
   ms |-> {2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "ALL"], [k |-> "S", m |-> 1]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "ALL"], [k |-> "ALL"]>>],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "B", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "D"], [k |-> "MAYBE", x |-> [k |-> "B", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "d", "s1", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "DM"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"d", "e1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "SM", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "G", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "N", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "W", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "WG", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"n", "w2", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "R", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b3", "w1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2]>>], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "T", xs |-> <<[k |-> "S", m |-> 2], [k |-> "S", m |-> 3]>>]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "SM", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]>>], [k |-> "T", xs |-> <<[k |-> "B", m |-> 3]>>]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b2", "b3", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 2], [k |-> "S", m |-> 3]>>]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "s3"}],
  [a |-> [k |-> "MAYBE", x |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2]>>]],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]]>>]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "S", m |-> 1]>>]>>]>>],
   ms |-> {1}, checked |-> TRUE, par |-> TRUE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]>>]], [k |-> "S", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"]>>],
   ms |-> {}, checked |-> TRUE, par |-> TRUE, src |-> {}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]>>], [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "E", m |-> 1], [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]]>>]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"e1", "s2", "s3"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "B", m |-> 1]],
   ms |-> {1}, checked |-> FALSE, par |-> FALSE, src |-> {"b1"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "A", m |-> 1]],
   ms |-> {1}, checked |-> FALSE, par |-> FALSE, src |-> {"a1"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]],
   ms |-> {1}, checked |-> FALSE, par |-> FALSE, src |-> {"b1"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "AND", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]],
   ms |-> {1, 2}, checked |-> FALSE, par |-> FALSE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 1], y |-> [k |-> "B", m |-> 2]]],
   ms |-> {1, 2}, checked |-> FALSE, par |-> FALSE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "DYN", x |-> [k |-> "ALL"]],
   ms |-> {}, checked |-> FALSE, par |-> FALSE, src |-> {}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "DYN", x |-> [k |-> "B", m |-> 1]], [k |-> "S", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> FALSE, par |-> FALSE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "DYN", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 2]]]>>],
   ms |-> {1, 2}, checked |-> FALSE, par |-> FALSE, src |-> {"b2", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "DYN", x |-> [k |-> "B", m |-> 1]], [k |-> "MAYBE", x |-> [k |-> "DYN", x |-> [k |-> "B", m |-> 2]]]>>],
   ms |-> {1, 2}, checked |-> FALSE, par |-> FALSE, src |-> {"b1", "b2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "SM", m |-> 1], [k |-> "DYN", x |-> [k |-> "XOR", x |-> [k |-> "B", m |-> 2], y |-> [k |-> "B", m |-> 3]]]>>],
   ms |-> {1, 2, 3}, checked |-> FALSE, par |-> FALSE, src |-> {"b2", "b3", "s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "DYN", x |-> [k |-> "ALL"]]>>],
   ms |-> {1}, checked |-> FALSE, par |-> FALSE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "DYN", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]], [k |-> "DYN", x |-> [k |-> "OR", x |-> [k |-> "B", m |-> 2], y |-> [k |-> "B", m |-> 3]]]>>],
   ms |-> {1, 2, 3}, checked |-> FALSE, par |-> FALSE, src |-> {"b1", "b2", "b3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "S", m |-> 1], [k |-> "B", m |-> 2]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b2", "s1", "w2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "B", m |-> 1], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "B", m |-> 1], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "B", m |-> 1], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 2]], [k |-> "NOT", x |-> [k |-> "B", m |-> 3]], [k |-> "ALL"], [k |-> "B", m |-> 1]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "b3", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "SM", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]]>>],
   ms |-> {1}, checked |-> TRUE, par |-> FALSE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "R", m |-> 1], [k |-> "R", m |-> 3]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"s1", "s2", "w1", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "SM", m |-> 2], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"]>>],
   ms |-> {1}, checked |-> TRUE, par |-> FALSE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "R", m |-> 1], [k |-> "R", m |-> 3], [k |-> "B", m |-> 1], [k |-> "E", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> TRUE, src |-> {"b1", "e2", "s1", "s2", "w1", "w2", "w3"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "SM", m |-> 2], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]]>>],
   ms |-> {1, 2}, checked |-> TRUE, par |-> FALSE, src |-> {"s1", "s2"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]], [k |-> "ALL"], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 1]]>>],
   ms |-> {1}, checked |-> TRUE, par |-> FALSE, src |-> {"s1"}],
  [a |-> [k |-> "T", xs |-> <<[k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "R", m |-> 1], [k |-> "R", m |-> 3], [k |-> "B", m |-> 1], [k |-> "E", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]], [k |-> "MAYBE", x |-> [k |-> "B", m |-> 3]], [k |-> "NOT", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]], [k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "R", m |-> 1], [k |-> "R", m |-> 3], [k |-> "B", m |-> 1], [k |-> "E", m |-> 2], [k |-> "MAYBE", x |-> [k |-> "R", m |-> 2]], [k |-> "MAYBE", x |-> [k |-> "S", m |-> 3]], [k |-> "MAYBE", x |-> [k |-> "B", m |-> 3]], [k |-> "NOT", x |-> [k |-> "NOT", x |-> [k |-> "B", m |-> 1]]], [k |-> "S", m |-> 1], [k |-> "S", m |-> 2], [k |-> "R", m |-> 1], [k |-> "R", m |-> 3], [k |-> "B", m |-> 1], [k |-> "E", m |-> 2]>>],
   ms |-> {1, 2, 3}, checked |-> TRUE, par |-> FALSE, src |-> {"b1", "b3", "e2", "s1", "s2", "s3", "w1", "w2", "w3"}]
>>
=============================================================================
