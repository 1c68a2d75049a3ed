---- MODULE Tree ----
(***************************************************************************)
(* The layer trees of a program: which layers each container holds, in the *)
(* order in which the interface lists them (a file lists them backwards).  *)
(*                                                                         *)
(* A container is an animation or a group.  A layer which is in no         *)
(* container is detached (it has been created but not yet added, or it has *)
(* been displaced).                                                        *)
(*                                                                         *)
(* State: a function from containers to sequences of layers.               *)
(* Configuration c: [anims |-> set of animations, groups |-> set of        *)
(* groups, leaves |-> set of other layers].                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Containers(c) == c.anims \cup c.groups
Layers(c) == c.groups \cup c.leaves

Elems(q) == {q[j] : j \in DOMAIN q}
Without(q, x) == SelectSeq(q, LAMBDA y : y # x)
Backwards(q) == [j \in 1..Len(q) |-> q[Len(q)+1-j]]
Pos(q, x) == CHOOSE j \in DOMAIN q : q[j] = x

Homes(s, x) == {k \in DOMAIN s : x \in Elems(s[k])}
Home(s, x) == IF Homes(s, x) = {} THEN "none" ELSE CHOOSE k \in Homes(s, x) : TRUE

(* everything that contains container k, and k itself *)
RECURSIVE Above(_, _, _)
Above(s, k, n) == IF n = 0 \/ Homes(s, k) = {} THEN {k}
                  ELSE {k} \cup Above(s, Home(s, k), n-1)
Contains(s, x, k) == x \in Above(s, k, Cardinality(DOMAIN s))

(* everything inside container k, as a set *)
RECURSIVE Below(_, _)
Below(s, k) == IF k \notin DOMAIN s THEN {}
               ELSE Elems(s[k]) \cup UNION {Below(s, x) : x \in Elems(s[k])}

Ok(s) == [s |-> s, r |-> {"ok"}]
No(s, r) == [s |-> s, r |-> r]

Taken(s, x) == [k \in DOMAIN s |-> Without(s[k], x)]
TakenAll(s, X) == [k \in DOMAIN s |-> SelectSeq(s[k], LAMBDA y : y \notin X)]

AppendTo(s, k, x) ==
    IF Contains(s, x, k) THEN No(s, {"ValueError"})
    ELSE LET t == Taken(s, x) IN Ok([t EXCEPT ![k] = Append(@, x)])

(* python's indexing: 0..n-1 from the front, -n..-1 from the end *)
InRange(n, i) == i >= -n /\ i < n
Index(n, i) == IF i < 0 THEN n+i+1 ELSE i+1

InsertIn(s, k, i, x) ==
    LET n == Len(s[k])
        faults == (IF Contains(s, x, k) THEN {"ValueError"} ELSE {})
                  \cup (IF ~InRange(n, i) THEN {"IndexError"} ELSE {})
    IN IF faults # {} THEN No(s, faults)
       ELSE LET b == s[k][Index(n, i)] IN
            IF b = x THEN Ok(s)
            ELSE LET t == Taken(s, x)
                     p == Pos(t[k], b)
                 IN Ok([t EXCEPT ![k] = SubSeq(@, 1, p-1) \o <<x>> \o SubSeq(@, p, Len(@))])

(* the canvas parameter of a group lists layers in the order of the file *)
Assign(s, k, xs) ==
    IF \E j \in DOMAIN xs : Contains(s, xs[j], k) THEN No(s, {"ValueError"})
    ELSE LET t == TakenAll(s, Elems(xs)) IN Ok([t EXCEPT ![k] = Backwards(xs)])

Apply(c, s, e) ==
    CASE e.op = "append" -> AppendTo(s, e.k, e.x)
      [] e.op = "insert" -> InsertIn(s, e.k, e.i, e.x)
      [] e.op = "assign" -> Assign(s, e.k, e.xs)
      [] e.op = "appendleaf" -> No(s, {"NotImplementedError"})
      [] e.op = "badlayer" -> No(s, {"TypeError"})
      [] e.op = "badindex" -> No(s, {"TypeError"})
      [] e.op = "badcanvas" -> No(s, {"TypeError"})
      [] e.op \in {"read", "reload", "rename"} -> Ok(s)

(* ---- properties ---- *)
OncePerTree(c, s) == \A x \in Layers(c) : /\ Cardinality(Homes(s, x)) <= 1
                                          /\ \A k \in DOMAIN s : Cardinality({j \in DOMAIN s[k] : s[k][j] = x}) <= 1
Acyclic(c, s) == \A g \in c.groups : g \notin Below(s, g)
RECURSIVE Preorder(_, _)
Flat(qs) == LET F[j \in 0..Len(qs)] == IF j = 0 THEN <<>> ELSE F[j-1] \o qs[j] IN F[Len(qs)]
Preorder(s, k) ==      \* in the order of the file, each layer before those inside it
    LET f == Backwards(s[k]) IN
    Flat([j \in DOMAIN f |-> <<f[j]>> \o (IF f[j] \in DOMAIN s THEN Preorder(s, f[j]) ELSE <<>>)])
====
