---- MODULE ValuesMC ----
(***************************************************************************)
(* Two parameters of one kind, two values, and every way of assigning.     *)
(* The laws: what was assigned last is what is reported; an assignment     *)
(* leaves the parameter static; it does not matter which way was used.     *)
(***************************************************************************)
EXTENDS Values, TLC, Json
CONSTANT Emitting
VARIABLES s, last

Xs == {"a", "b"}
Vs == {"v1", "v2"}
Routes == {"attribute", "item", "value"}
Forms == {"plain", "object"}
Ops == { [op |-> "set", x |-> x, v |-> v, route |-> r, form |-> f] : x \in Xs, v \in Vs, r \in Routes, f \in Forms }
  \cup { [op |-> "copy", x |-> x, y |-> y, route |-> r] : x \in Xs, y \in Xs, r \in Routes }
  \cup { [op |-> o, x |-> x] : o \in {"on", "off", "read"}, x \in Xs }
Enabled(e) == e.op = "copy" => e.x # e.y /\ ~s[e.y].anim

Init == s = [x \in Xs |-> Static("v0")] /\ last = [x \in Xs |-> "v0"]
Next == \E e \in Ops :
    /\ Enabled(e)
    /\ s' = Apply(s, e)
    /\ last' = IF e.op = "set" THEN [last EXCEPT ![e.x] = e.v]
               ELSE IF e.op = "copy" THEN [last EXCEPT ![e.x] = last[e.y]] ELSE last
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> s'])>>)
LastAssigned == \A x \in Xs : s[x].v = last[x]
Assigning == \A e \in Ops : Enabled(e) /\ e.op \in {"set", "copy"} =>
    /\ ~Apply(s, e)[e.x].anim
    /\ \A x \in Xs \ {e.x} : Apply(s, e)[x] = s[x]
    /\ \A f \in Ops : f.op = e.op /\ f.x = e.x /\ (e.op = "set" => f.v = e.v) /\ (e.op = "copy" => f.y = e.y) => Apply(s, f) = Apply(s, e)
(* rounding: numbers which agree to the last kept decimal are the same *)
Num(n, i, a, b, c) == [k |-> "n", neg |-> n, i |-> i, d |-> <<a, b, c>>, prec |-> 10]
ASSUME /\ Same(Num(FALSE, 0, 12345, 67891, 49999), Num(FALSE, 0, 12345, 67891, 0))
       /\ ~Same(Num(FALSE, 0, 12345, 67891, 60000), Num(FALSE, 0, 12345, 67891, 0))
       /\ Same(Num(FALSE, 0, 99999, 99999, 99999), Num(FALSE, 1, 0, 0, 0))
       /\ Same(Num(TRUE, 0, 0, 0, 1), Num(FALSE, 0, 0, 0, 0))
       /\ ~Same(Num(TRUE, 1, 0, 0, 0), Num(FALSE, 1, 0, 0, 0))
       /\ ~Same(Num(FALSE, 5, 0, 0, 0), Num(FALSE, 4, 0, 0, 0))
       /\ \A p, q \in {0, 1, 2, 99998, 99999} : Less(Num(FALSE, 3, p, 1, 2), Num(FALSE, 3, q, 1, 2)) <=> p < q
       /\ Less(Num(TRUE, 3, 0, 0, 0), Num(FALSE, 0, 0, 0, 1)) /\ Less(Num(FALSE, 0, 99999, 99999, 99999), Num(FALSE, 1, 0, 0, 0))
====
