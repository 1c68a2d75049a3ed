---- MODULE EqualityTrace ----
(***************************************************************************)
(* Judges recorded comparisons against Equality.  Each event has the       *)
(* comparisons that were made after an operation: the two items (as the    *)
(* document has them, read without the library) and what l = r, l # r,     *)
(* r = l and r # l gave: "T", "F" or the name of an exception.             *)
(***************************************************************************)
EXTENDS TraceBase, Equality

VARIABLES h, i, bad

Of(c) == LET v == Verdict(c.l, c.r) IN
    { <<"C22", "comparing failed: " \o c.how, {c.eq, c.ne, c.qe, c.en} \subseteq {"T", "F"}>>,
      <<"C22", "both equal and unequal, or neither: " \o c.how, c.eq # c.ne /\ c.qe # c.en>>,
      <<"C22", "not the same from the other side: " \o c.how, c.l.kind # c.r.kind \/ c.eq = c.qe>>,
      <<"C22", "should be equal: " \o c.how, v = "y" => c.eq = "T">>,
      <<"C22", "should not be equal: " \o c.how, v = "n" => c.eq = "F" /\ c.qe = "F">> }
Ordered(c) == LET o == Order(c.a, c.b) IN
    { <<"C22", "waypoints are out of order", o = <<>> \/ c.got = o>> }
Clauses(e) == UNION { Of(e.cmp[j]) : j \in DOMAIN e.cmp } \cup UNION { Ordered(e.ord[j]) : j \in DOMAIN e.ord }

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ bad' = Failing(Clauses(Histories[h].ev[i+1]))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
