---- MODULE CatalogTrace ----
(***************************************************************************)
(* Judges recorded histories of making, changing and reloading layers.     *)
(* Every event carries an observation of every living layer:               *)
(*   cls, type, version, xml (parameter -> kind and value in the document) *)
(*   and api (the same as the interface reports them), and whether layers  *)
(*   which were there from the start still read the same (others).         *)
(* KNOWN holds the known findings, as pairs of type and parameter.         *)
(***************************************************************************)
EXTENDS TraceBase, Catalog
VARIABLES h, i, s, bad

Known == LET k == JsonDeserialize(IOEnv.KNOWN) IN {<<k[j][1], k[j][2]>> : j \in DOMAIN k}
Excused(t, n) == /\ \/ <<Catalog[t].type, "*">> \in Known
                    \/ <<Catalog[t].type, BaseOf(t, n)>> \in Known
                 /\ PrintT(<<"KNOWN", Catalog[t].type, BaseOf(t, n)>>)

Seen(o, l) ==
    LET c == Catalog[l.t]
        want == DOMAIN l.p
        Missing == {n \in want : n \notin DOMAIN o.xml /\ ~Excused(l.t, n)}
        Extra == {n \in DOMAIN o.xml : n \notin want /\ n \notin c.todo /\ ~Excused(l.t, n)}
    IN { <<"C15", "class of " \o c.type, o.cls = c.cls>>,
         <<"C15", "type of " \o c.type, o.type = c.type>>,
         <<"C15", "version of " \o c.type, o.version = c.version>>,
         <<"C15", "enabled and rendered: " \o c.type, o.active = "true" /\ o.exclude = "false">>,
         <<"C15", "missing parameters of " \o c.type, Missing = {}>>,
         <<"C15", "extra parameters of " \o c.type, Extra = {}>>,
         <<"C15", "repeated parameters of " \o c.type, ~o.twice>> }
       \cup { <<"C15", "value in the document: " \o c.type \o " " \o n, o.xml[n] = l.p[n]>> : n \in want \cap DOMAIN o.xml }
       \cup { <<"C15", "value reported by subscript: " \o c.type \o " " \o n, o.item[n] = l.p[n]>> : n \in want \cap DOMAIN o.item }
       \cup { <<"C15", "value reported as attribute: " \o c.type \o " " \o n, o.attr[n] = l.p[n]>> : n \in want \cap DOMAIN o.attr }
       \cup { <<"C15", "parameters listed: " \o c.type, o.keys>> }

Clauses(e, t) ==
    (UNION { IF x \in DOMAIN e.obs THEN Seen(e.obs[x], t[x]) ELSE {<<"C15", "a layer is gone", FALSE>>} : x \in DOMAIN t })
    \cup {<<"C15", "layers which were already there changed", e.others = "same">>}
    \cup (CASE e.op = "make" -> {<<"C15", "cannot be made: " \o Catalog[e.t].type, e.r = "ok">>}
            [] e.op \in {"set", "reload"} -> {<<"C15", "outcome", e.r = "ok">>}
            [] e.op = "name" -> IF Named(e.name) = {}
                                THEN {<<"C15", "unknown name accepted", e.r = "KeyError">>}
                                ELSE {<<"C15", "name not resolved", e.r = "ok" /\ \A t0 \in Named(e.name) : e.cls = Catalog[t0].cls>>})

(* layers which cannot be made, and are known not to be *)
Unmade(e) == e.op = "make" /\ e.r # "ok" /\ <<Catalog[e.t].type, "*">> \in Known /\ Excused(e.t, "*")

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {} /\ s = <<>>
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                t == IF Unmade(e) THEN s ELSE Apply(s, e)
            IN /\ s' = t
               /\ bad' = IF Unmade(e) THEN {} ELSE Failing(Clauses(e, t))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
