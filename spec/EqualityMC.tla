---- MODULE EqualityMC ----
(***************************************************************************)
(* A few values of one kind which are assigned, animated, given waypoints, *)
(* and made like each other, in every order.  The laws: every value is     *)
(* equal to itself, and equality is symmetric and transitive; what is      *)
(* assigned is equal to what was assigned, until the value is animated.    *)
(***************************************************************************)
EXTENDS Equality, TLC, Json, SequencesExt
CONSTANTS Emitting, Xs
VARIABLES s

Vs == {"v1", "v2"}
Ts == {0, 10}
Ops == { [op |-> "set", x |-> x, v |-> v] : x \in Xs, v \in Vs }
  \cup { [op |-> o, x |-> x] : o \in {"on", "off"}, x \in Xs }
  \cup { [op |-> "way", x |-> x, t |-> t, v |-> v] : x \in Xs, t \in Ts, v \in Vs }
  \cup { [op |-> "del", x |-> x, t |-> t] : x \in Xs, t \in Ts }
  \cup { [op |-> "like", x |-> x, y |-> y] : x \in Xs, y \in Xs }

(* here the state of a value is a token, or a function from times to tokens *)
Static(v) == [anim |-> FALSE, v |-> v, tl |-> <<>>]
Moving(f) == IF f = <<>> THEN [anim |-> FALSE, v |-> "", tl |-> <<>>]
             ELSE [anim |-> TRUE, v |-> "", tl |-> f]
Moments(q) == {q[j].t : j \in DOMAIN q}
Without(q, t) == SelectSeq(q, LAMBDA w : w.t # t)
With(q, t, v) == SortSeq(Append(Without(q, t), [t |-> t, v |-> v]), LAMBDA a, b : a.t < b.t)
Enabled(e) == /\ e.op = "del" => s[e.x].anim /\ e.t \in Moments(s[e.x].tl)
              /\ e.op = "like" => e.x # e.y
Apply(st, e) ==
    LET x == st[e.x] IN
    CASE e.op = "set"  -> [st EXCEPT ![e.x] = Static(e.v)]
      [] e.op = "on"   -> IF x.anim THEN st ELSE [st EXCEPT ![e.x] = Moving(<<[t |-> 0, v |-> x.v]>>)]
      [] e.op = "off"  -> IF x.anim THEN [st EXCEPT ![e.x] = Static(x.tl[1].v)] ELSE st
      [] e.op = "way"  -> [st EXCEPT ![e.x] = Moving(With(x.tl, e.t, e.v))]
      [] e.op = "del"  -> [st EXCEPT ![e.x] = IF Len(x.tl) = 1 THEN Static(x.tl[1].v) ELSE Moving(Without(x.tl, e.t))]
      [] e.op = "like" -> [st EXCEPT ![e.x] = st[e.y]]

Init == s = [x \in Xs |-> Static("v1")]
Next == \E e \in Ops :
    /\ Enabled(e)
    /\ s' = Apply(s, e)
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> s'])>>)

Num(n) == [k |-> "n", neg |-> FALSE, i |-> n, d |-> <<0, 0, 0>>]
Den(v) == [k |-> "e", s |-> v]
It(st) == [kind |-> "x", anim |-> st.anim, v |-> Den(st.v), raw |-> ToString(st),
           tl |-> [j \in DOMAIN st.tl |-> [t |-> Num(st.tl[j].t), v |-> Den(st.tl[j].v), i |-> "clamped"]]]
E(x, y) == Verdict(It(s[x]), It(s[y]))
Const(v) == [kind |-> "x", anim |-> FALSE, v |-> Den(v), raw |-> v, tl |-> <<>>]
Laws == /\ \A x \in Xs : E(x, x) = "y"
        /\ \A x, y \in Xs : E(x, y) = E(y, x) /\ E(x, y) # "o" /\ (E(x, y) = "y" <=> s[x] = s[y])
        /\ \A x, y, z \in Xs : /\ E(x, y) = "y" /\ E(y, z) = "y" => E(x, z) = "y"
                               /\ E(x, y) = "y" /\ E(y, z) = "n" => E(x, z) = "n"
        /\ \A x \in Xs, v \in Vs : Verdict(It(s[x]), Const(v)) = YN(~s[x].anim /\ s[x].v = v)

D(n, i, a, b, c) == [k |-> "n", neg |-> n, i |-> i, d |-> <<a, b, c>>]
Byte(b) == [k |-> "b", b |-> b]
ASSUME /\ Numbers(D(FALSE, 1, 0, 0, 0), D(FALSE, 1, 200, 0, 0)) = "n"
       /\ Numbers(D(FALSE, 1, 0, 0, 0), D(FALSE, 0, 99800, 0, 0)) = "n"
       /\ Numbers(D(FALSE, 1, 0, 0, 0), D(FALSE, 0, 99999, 0, 0)) = "o"
       /\ Numbers(D(TRUE, 1, 0, 0, 0), D(FALSE, 1, 0, 0, 0)) = "n"
       /\ Numbers(D(TRUE, 7, 5, 6, 0), D(TRUE, 7, 5, 6, 0)) = "y"
       /\ \A b \in 0..255, c \in 0..255 :
            LET m == (b * 1000000) \div 255 IN
            Components(Byte(c), D(FALSE, m \div 1000000, (m % 1000000) \div 10, (m % 10) * 10000, 0)) = (IF b = c THEN "y" ELSE IF Abs(b-c) = 1 THEN "o" ELSE "n")
====
