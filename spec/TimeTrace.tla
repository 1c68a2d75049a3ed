---- MODULE TimeTrace ----
(***************************************************************************)
(* Judges recorded readings, comparisons and printings of times against    *)
(* TimeSpec.tla.  There is no state: each event stands alone.              *)
(***************************************************************************)
EXTENDS TraceBase, TimeSpec

VARIABLES h, i, bad

Doc(n) == Histories[n].cfg

Tol == 2            \* millionths of a frame

Parse(e) ==
    LET d == Denote(e.sp, Doc(h), e.ref)
        fps == IF e.ref THEN Doc(h).fps ELSE 0
        ok == e.r = "ok"
        right == d.ok /\ ok
    IN { <<"C12", "refused or accepted wrongly", ok = d.ok>>,
         <<"C12", "refused with something other than ValueError", ~ok /\ ~d.ok => e.r = "ValueError" \/ e.loose>>,
         <<"C12", "denotes another instant", right => Close6(e.fr, d.fr, Tol)>>,
         <<"C12", "float view disagrees", right => e.fl = e.fr>>,
         <<"C12", "integer view disagrees", right => e.int = Trunc6(e.fr)>>,
         <<"C12", "seconds view disagrees", right =>
             IF fps # 0 THEN e.secr = "ok" /\ Close6(MulMilli(e.sec, fps), e.fr, (fps \div 1000) + 4)
             ELSE IF e.fr = Zero THEN e.secr = "ok" /\ e.sec = Zero
             ELSE e.secr = "ValueError">>,
         <<"C12", "frame rate is not that of the document", right => e.tfps = fps>> }

Op(rel, op) ==
    IF rel = "error" THEN "ValueError"
    ELSE LET t == CASE op = "lt" -> rel = "lt"
                    [] op = "le" -> rel \in {"lt", "eq"}
                    [] op = "gt" -> rel = "gt"
                    [] op = "ge" -> rel \in {"gt", "eq"}
                    [] op = "eq" -> rel = "eq"
                    [] op = "ne" -> rel # "eq"
         IN IF t THEN "T" ELSE "F"

Compare(e) ==
    LET rel == Relation(e.a, e.b) IN
    { <<"C13", "operator " \o op, e[op] = Op(rel, op)>> : op \in {"lt", "le", "gt", "ge", "eq", "ne"} }
    \cup { <<"C13", "equal times hash differently", rel = "eq" /\ e.a.isT /\ e.b.isT => e.hash = "same">> }

Order(e) ==      \* sorting times, and using them as keys
    { <<"C13", "sorting", \A j \in 1..Len(e.sorted)-1 : Le6(e.sorted[j], e.sorted[j+1])>>,
      <<"C13", "sorting lost some", Len(e.sorted) = Len(e.ns)
           /\ \A x \in {e.ns[j] : j \in DOMAIN e.ns} :
                Cardinality({j \in DOMAIN e.ns : e.ns[j] = x}) = Cardinality({j \in DOMAIN e.sorted : e.sorted[j] = x})>>,
      <<"C13", "as keys of a set or dictionary", e.distinct = Cardinality({e.ns[j] : j \in DOMAIN e.ns})>>,
      <<"C13", "looking up an equal time", e.found>> }

Prints(e) ==
    LET want == Printed(e.n, e.fps) IN
    { <<"C14", "text is not a time specification", e.lexed>>,
      <<"C14", "text denotes another instant", e.lexed =>
           LET d == DenoteText(e.text, e.fps) IN d.ok /\ Close6(d.fr, e.n, Tol)>>,
      <<"C14", "text is not the usual one", e.lexed => e.text.neg = want.neg
             /\ Len(e.text.ps) = Len(want.ps)
             /\ \A j \in DOMAIN want.ps : /\ e.text.ps[j].u = want.ps[j].u
                                          /\ Close6(e.text.ps[j].n, want.ps[j].n, Tol)>>,
      <<"C14", "reading it back gives another time", e.back = "T">>,
      <<"C14", "printed forms differ", e.same>> }

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1] IN
            bad' = FailingHere(CASE e.op = "parse" -> Parse(e)
                             [] e.op = "cmp" -> Compare(e)
                             [] e.op = "order" -> Order(e)
                             [] e.op = "print" -> Prints(e))
         /\ i' = i + 1
         /\ UNCHANGED h
Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
