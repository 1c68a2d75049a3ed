---- MODULE TreeMC ----
(***************************************************************************)
(* Exhaustive exploration of Tree.tla, and export of its transitions.      *)
(***************************************************************************)
EXTENDS Tree, TLC, Json

CONSTANTS Anims, Groups, Leaves, Emitting, AssignMax

VARIABLE s
c == [anims |-> Anims, groups |-> Groups, leaves |-> Leaves]

Lists == UNION {{q \in [1..n -> Layers(c)] : Cardinality(Elems(q)) = n} : n \in 0..AssignMax}

Ops == { [op |-> "append", k |-> k, x |-> x] : k \in Containers(c), x \in Layers(c) }
    \cup { [op |-> "insert", k |-> k, i |-> i, x |-> x] : k \in Containers(c), i \in -3..2, x \in Layers(c) }
    \cup { [op |-> "assign", k |-> k, xs |-> xs] : k \in Groups, xs \in Lists }

Init == s = [k \in Containers(c) |-> <<>>]

Next == \E e \in Ops : LET a == Apply(c, s, e) IN
    /\ s' = a.s
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> a.s])>>)

TypeOK == OncePerTree(c, s) /\ Acyclic(c, s)

Steps == \A e \in Ops : LET a == Apply(c, s, e)
                            t == a.s IN
    /\ a.r # {"ok"} => t = s
    /\ e.op \in {"append", "insert"} /\ a.r = {"ok"} =>
         /\ e.x \in Elems(t[e.k])
         /\ \A k \in Containers(c) : Without(t[k], e.x) = Without(s[k], e.x)  \* others keep their order
    /\ e.op = "append" /\ a.r = {"ok"} => t[e.k][Len(t[e.k])] = e.x
    /\ e.op = "insert" /\ a.r = {"ok"} =>
         LET b == s[e.k][Index(Len(s[e.k]), e.i)] IN
         b = e.x \/ (Pos(t[e.k], e.x) + 1 = Pos(t[e.k], b))
    /\ a.r # {"ok"} <=> (\/ e.op \in {"append", "insert"} /\ e.x \in {e.k} \cup (Above(s, e.k, 9))
                         \/ e.op = "insert" /\ ~InRange(Len(s[e.k]), e.i)
                         \/ e.op = "assign" /\ Elems(e.xs) \cap Above(s, e.k, 9) # {})
====
