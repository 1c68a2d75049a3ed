---- MODULE GradientMC ----
EXTENDS Gradient, TLC, Json
CONSTANT Emitting
VARIABLE s
Xs == {"a", "b"}
Ps == {0, 250000, 1000000}
Cs == {"c1", "c2"}
Seqs == {q \in UNION {[1..n -> Ps \X (Cs \cup {"bad"})] : n \in 0..2} : \A i, j \in DOMAIN q : i # j => q[i][1] # q[j][1]}
Ops == { [op |-> "whole", x |-> x, q |-> q] : x \in Xs, q \in Seqs }
  \cup { [op |-> "stop", x |-> x, p |-> p, c |-> c] : x \in Xs, p \in Ps, c \in Cs \cup {"bad"} }
  \cup { [op |-> "copy", x |-> x, y |-> y] : x \in Xs, y \in Xs }
  \cup { [op |-> "get", x |-> x, p |-> p] : x \in Xs, p \in Ps }
Init == s = [x \in Xs |-> Stops(<<<<0, "c1">>, <<1000000, "c2">>>>)]
Next == \E e \in Ops : /\ s' = Apply(s, e).s
                       /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> [x \in Xs |-> Listing(s[x])], e |-> e,
                                                              q |-> [x \in Xs |-> Listing(s'[x])]])>>)
Sound == \A x \in Xs : Acceptable(s[x])
Laws == \A e \in Ops : LET a == Apply(s, e) IN
    /\ a.r # "ok" => a.s = s
    /\ \A x \in Xs : x # e.x => a.s[x] = s[x]
    /\ e.op = "whole" /\ a.r = "ok" => DOMAIN a.s[e.x] = {e.q[j][1] : j \in DOMAIN e.q} /\ Len(Listing(a.s[e.x])) = Len(e.q)
    /\ e.op = "whole" => (a.r = "ok") = (Len(e.q) >= 2 /\ \A j \in DOMAIN e.q : e.q[j][2] # "bad")
    /\ e.op = "stop" /\ a.r = "ok" => /\ a.s[e.x][e.p] = e.c
                                      /\ DOMAIN a.s[e.x] = DOMAIN s[e.x] \cup {e.p}
                                      /\ \A p \in DOMAIN s[e.x] \ {e.p} : a.s[e.x][p] = s[e.x][p]
====
