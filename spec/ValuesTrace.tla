---- MODULE ValuesTrace ----
(***************************************************************************)
(* Judges recorded histories of assignments and readings against Values.   *)
(* e.obs[x] has what was seen of parameter x after the event: what the     *)
(* document contains (xml, anim, element) and what each way of reading it  *)
(* reports (reads).                                                        *)
(***************************************************************************)
EXTENDS TraceBase, Values

VARIABLES h, i, s, bad

Start(n) == Histories[n].cfg.start

Clauses(e, t) ==
    { <<"C05", "an acceptable value was refused", e.r = "ok">> }
    \cup UNION { LET o == e.obs[x] IN
         { <<"C05", "the document is animated, or static, wrongly: " \o x, o.anim = t[x].anim>>,
           <<"C05", "the document has another kind of value: " \o x, o.element = Histories[h].cfg.element[x]>>,
           <<"C05", "the document contains another value: " \o x, Same(t[x].v, o.xml)>>,
           <<"C05", "ways of reading do not agree: " \o x, o.equal>> }
         \cup { <<"C05", "reading " \o x \o " by " \o o.reads[j].how,
                   o.reads[j].anim = t[x].anim /\ Same(t[x].v, o.reads[j].v)>> : j \in DOMAIN o.reads }
         : x \in DOMAIN e.obs }

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ s = Start(h)
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                t == Apply(s, e)
            IN /\ s' = t
               /\ bad' = Failing(Clauses(e, t))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
