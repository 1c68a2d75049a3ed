---- MODULE GradientTrace ----
(***************************************************************************)
(* Judges recorded histories of gradients.  Colours are recorded as texts  *)
(* of four components with six decimals.                                   *)
(***************************************************************************)
EXTENDS TraceBase, Gradient
VARIABLES h, i, s, bad

Seen(e, t) == UNION { LET o == e.obs[x]
                          want == Listing(t[x]) IN
    { <<"C20", "the stops in the document, in order: " \o x, o.xml = want>>,
      <<"C20", "items: " \o x, o.items = want>>,
      <<"C20", "value: " \o x, o.value = want>>,
      <<"C20", "keys: " \o x, o.keys = Sorted(DOMAIN t[x])>>,
      <<"C20", "values: " \o x, o.vals = [j \in DOMAIN want |-> want[j][2]]>>,
      <<"C20", "iteration: " \o x, o.iter = Sorted(DOMAIN t[x])>>,
      <<"C20", "lookup: " \o x, o.got = want>>,
      <<"C20", "length: " \o x, o.len = Len(want)>>,
      <<"C20", "looking up a position which has no stop: " \o x, o.miss = "KeyError">> } : x \in DOMAIN e.obs }

Clauses(e, a) ==
    Seen(e, a.s)
    \cup { <<"C20", "outcome of the call", IF a.r = "refused" THEN e.r # "ok" ELSE e.r = a.r>>,
           <<"C20", "the colour found", e.op = "get" /\ a.r = "ok" /\ e.r = "ok" => e.c = s[e.x][e.p]>> }

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ s = [x \in DOMAIN Histories[h].cfg.start |-> Stops(Histories[h].cfg.start[x])]
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                a == Apply(s, e)
            IN /\ s' = a.s
               /\ bad' = Failing(Clauses(e, a))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
