---- MODULE ViewsMC ----
EXTENDS Views, TLC, Json
CONSTANT Emitting
VARIABLE s
Roots == {"A"}
Groups == {"g", "h"}
Leaves == {"x", "y"}
C == [roots |-> Roots,
      own |-> [g |-> <<"a", "canvas", "b">>, h |-> <<"canvas", "a">>, x |-> <<"a", "c">>, y |-> <<"b", "c">>]]
Ks == Roots \cup Groups
Ls == Groups \cup Leaves
Names == {"a", "b", "c", "canvas", "zz"}
Ops == { [op |-> "set", l |-> l, n |-> n] : l \in Roots \cup Ls, n \in Names \ {"canvas"} }
  \cup { [op |-> "move", k |-> k, x |-> x] : k \in Ks, x \in Ls }
  \cup { [op |-> "reload"] }
Init == s = [k \in Ks |-> IF k = "A" THEN <<"g", "y">> ELSE IF k = "g" THEN <<"h", "x">> ELSE <<>>]
Next == \E e \in Ops : /\ s' = Step(C, s, e).s
                       /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> s'])>>)
Sound == /\ \A x \in Ls : Cardinality({k \in Ks : x \in Range(s[k])}) <= 1
         /\ \A x \in Ls : x \notin Below(s, x)
Laws == /\ \A l \in Roots \cup Ls, n \in Names :
             /\ Has(C, s, l, n) <=> (\E p \in Range(All(C, s, l)) : p[2] = n)
             /\ n \in Range(Keys(C, l)) => Lookup(C, s, l, n) = <<l, n>>
             /\ Has(C, s, l, n) => LET p == Lookup(C, s, l, n) IN p[2] = n /\ (p[1] = l \/ p[1] \in Below(s, l))
             /\ Has(C, s, l, n) => \A k \in Ks : l \in Below(s, k) => Has(C, s, k, n)
        /\ \A l \in Ls : Cardinality(Range(All(C, s, l))) = Len(All(C, s, l))
        /\ \A e \in Ops : LET a == Step(C, s, e) IN
             /\ a.r # "ok" => a.s = s /\ a.hit = {}
             /\ e.op = "set" => a.s = s /\ ((a.r = "ok") <=> Has(C, s, e.l, e.n))
             \* moving a layer changes what is found through its old and new surroundings only
             /\ e.op = "move" /\ a.r = "ok" => \A l \in Ls, n \in Names :
                  (l \in Leaves \/ (e.x \notin Below(s, l) /\ e.x \notin Below(a.s, l))) => Lookup(C, a.s, l, n) = Lookup(C, s, l, n)
====
