---- MODULE Views ----
(***************************************************************************)
(* Layers as mappings of their parameters.                                 *)
(*                                                                         *)
(* c.own[l]: the names of the parameters of layer l, in the order of the   *)
(*           document; a parameter is known as <<l, name>>.  The canvas of *)
(*           a group is one of them.                                       *)
(* c.roots:  the animations, which have no parameters.                     *)
(* State: s[k], for every container, the layers inside it in the order of  *)
(*        the document (which is the reverse of the order of children).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Range(q) == {q[j] : j \in DOMAIN q}
RECURSIVE Concat(_)
Concat(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o Concat(Tail(qs))

Own(c, l) == IF l \in c.roots THEN <<>> ELSE [j \in DOMAIN c.own[l] |-> <<l, c.own[l][j]>>]

(* every parameter of l and of the layers inside it, in the order of the document *)
RECURSIVE All(_, _, _)
All(c, s, l) ==
    LET inside == IF l \in DOMAIN s THEN Concat([j \in DOMAIN s[l] |-> All(c, s, s[l][j])]) ELSE <<>>
    IN IF l \in c.roots THEN inside
       ELSE Concat([j \in DOMAIN c.own[l] |-> <<<<l, c.own[l][j]>>>> \o (IF c.own[l][j] = "canvas" THEN inside ELSE <<>>)])

Named(q, n) == SelectSeq(q, LAMBDA p : p[2] = n)
(* its own first; otherwise the first one inside it *)
FirstOf(own, all, n) ==
    LET mine == Named(own, n)
        any == Named(all, n)
    IN IF mine # <<>> THEN mine[1] ELSE IF any # <<>> THEN any[1] ELSE <<"none">>
Lookup(c, s, l, n) == FirstOf(Own(c, l), All(c, s, l), n)
Has(c, s, l, n) == Lookup(c, s, l, n) # <<"none">>
Keys(c, l) == [j \in DOMAIN Own(c, l) |-> Own(c, l)[j][2]]

(* ---- transitions ------------------------------------------------------ *)
RECURSIVE Below(_, _)
Below(s, l) == IF l \notin DOMAIN s THEN {} ELSE Range(s[l]) \cup UNION {Below(s, x) : x \in Range(s[l])}
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)

(* [s: the next state, r: outcome, hit: the parameters which may change] *)
Step(c, s, e) ==
    CASE e.op = "set" ->
           LET p == Lookup(c, s, e.l, e.n) IN
           IF p = <<"none">> THEN [s |-> s, r |-> "KeyError", hit |-> {}]
           ELSE [s |-> s, r |-> "ok", hit |-> {p}]
      [] e.op = "move" ->       \* appended to the children, so first in the document
           IF e.x = e.k \/ e.k \in Below(s, e.x) THEN [s |-> s, r |-> "refused", hit |-> {}]
           ELSE [s |-> [k \in DOMAIN s |-> IF k = e.k THEN <<e.x>> \o Without(s[k], e.x) ELSE Without(s[k], e.x)], r |-> "ok", hit |-> {}]
      [] OTHER -> [s |-> s, r |-> "ok", hit |-> {}]

(* ---- a sequence of a value's parts ------------------------------------ *)
(* what position j of n things is: 1..n, or 0 if there is none *)
At(n, j) == IF j >= 0 /\ j < n THEN j+1 ELSE IF j < 0 /\ -j <= n THEN n+j+1 ELSE 0
====
