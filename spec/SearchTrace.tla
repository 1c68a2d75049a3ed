---- MODULE SearchTrace ----
(***************************************************************************)
(* Judges recorded searches.  Events: a query, its outcome r, and the      *)
(* indices of the layers it returned in `got' (0: not a layer of the       *)
(* document; for a single-result search, <<>> stands for None).            *)
(***************************************************************************)
EXTENDS TraceBase, Search

VARIABLES h, i, d, bad

First(q) == IF Len(q) = 0 THEN q ELSE <<q[1]>>

Clauses(doc, e) ==
    IF e.op # "find" THEN { <<"C11", "the document could not be changed", e.r = "ok">> }
    ELSE { <<"C11", "outcome of the call", e.r \in Outcomes(e)>> }
    \cup IF e.fault # "none" THEN {}
         ELSE { <<"C11", "the layers found are not the matching ones in file order",
                    e.single \/ e.got = Found(doc, e)>>,
                <<"C11", "the single result is not the first match",
                    ~e.single \/ e.got = First(Found(doc, e))>>,
                <<"C11", "a result is not of the class of its type", e.classes>>,
                <<"C11", "the search changed its arguments", e.args>> }

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {} /\ d = Histories[h].cfg.layers
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ d' = Edited(d, Histories[h].ev[i+1])
         /\ bad' = FailingHere(Clauses(d', Histories[h].ev[i+1]))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
