---- MODULE Gradient ----
(***************************************************************************)
(* Gradients: maps from positions to colours, with at least two stops.     *)
(*                                                                         *)
(* State: s[x] = the stops of gradient x, a function from positions        *)
(* (integers: millionths) to colours (anything).  A whole is given as a    *)
(* sequence of <<position, colour>> in any order, positions distinct.      *)
(* The colour "bad" stands for something that is not a colour.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Stops(q) == [p \in {q[j][1] : j \in DOMAIN q} |-> LET j == CHOOSE k \in DOMAIN q : q[k][1] = p IN q[j][2]]
Acceptable(f) == Cardinality(DOMAIN f) >= 2 /\ \A p \in DOMAIN f : f[p] # "bad"
With(f, p, c) == [x \in DOMAIN f \cup {p} |-> IF x = p THEN c ELSE f[x]]

Result(s, e) ==
    CASE e.op = "whole" -> Stops(e.q)
      [] e.op = "copy"  -> s[e.y]
      [] e.op = "stop"  -> With(s[e.x], e.p, e.c)
      [] e.op \in {"read", "get", "reload"} -> s[e.x]
Apply(s, e) ==
    IF e.op = "bad" THEN [s |-> s, r |-> "refused"]
    ELSE LET f == Result(s, e) IN
         IF Acceptable(f) THEN [s |-> [s EXCEPT ![e.x] = f],
                                r |-> IF e.op = "get" /\ e.p \notin DOMAIN f THEN "KeyError" ELSE "ok"]
         ELSE [s |-> s, r |-> "refused"]

(* the positions, in order *)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
Listing(f) == LET ps == Sorted(DOMAIN f) IN [j \in DOMAIN ps |-> <<ps[j], f[ps[j]]>>]
====
