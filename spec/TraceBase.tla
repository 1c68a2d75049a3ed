---- MODULE TraceBase ----
(***************************************************************************)
(* The skeleton shared by all the trace specifications.  The file named by *)
(* the environment variable TRACE holds one recorded history per line:     *)
(*   [id |-> ..., cfg |-> configuration, ev |-> sequence of events]        *)
(* Every history is an initial state of the trace specification, and each  *)
(* step consumes one event.  `bad' is the set of <<property, clause>> that *)
(* the last event violates; the property being decided is in the variable  *)
(* PROP.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Histories == ndJsonDeserialize(IOEnv.TRACE)

(* the clauses of a set of <<property, clause, condition>> that fail *)
Failing(cs) == {<<c[1], c[2]>> : c \in {x \in cs : ~x[3]}}

(* only those of the property being decided, for specifications in which
   one event does not depend on the one before *)
FailingHere(cs) == Failing({c \in cs : c[1] = IOEnv.PROP})

(* for the others: a history is left at the first clause that fails, even
   if it belongs to another property, because code and model have parted *)
Noted(b, h, i) == b = {} \/ PrintT(<<"LEFT", h, i, b>>)
====
