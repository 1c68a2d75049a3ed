---- MODULE HeaderMC ----
EXTENDS Header, TLC, Json
CONSTANTS Emitting
VARIABLE s

P(neg, ps) == [f |-> "parts", neg |-> neg, inneg |-> FALSE, ps |-> ps]
Part(u, n) == [u |-> u, n |-> Int6(n)]
Times == { P(FALSE, <<Part("f", 12)>>), P(FALSE, <<Part("s", 2), Part("f", 6)>>), P(TRUE, <<Part("f", 3)>>),
           [f |-> "num", n |-> Int6(36)], [f |-> "num", n |-> Int6(-2)] }
Ops == { [op |-> "set", x |-> "fps", v |-> v] : v \in {12000, 30000} }
    \cup { [op |-> "set", x |-> "width", v |-> v] : v \in {"640"} }
    \cup { [op |-> "set", x |-> x, v |-> v] : x \in {"begin", "end"}, v \in Times }
    \cup { [op |-> "set", x |-> "name", v |-> v] : v \in {"", "n1"} }
    \cup { [op |-> "reload"] }

Start == [num |-> [height |-> "100"], fps |-> 0, box |-> <<>>, bg |-> <<>>, begin |-> <<>>, end |-> <<>>, name |-> <<>>, desc |-> <<"d">>,
          kf |-> <<[time |-> P(FALSE, <<Part("s", 1), Part("f", 1)>>), name |-> "k", active |-> TRUE]>>]
Init == s = Start
After(e) == IF e.op = "reload" THEN s
            ELSE Set(s, e.x, e.v, IF e.x \in {"begin", "end"} THEN <<Printed(Instant(s, e.v).fr, Fps(s))>> ELSE <<>>)
(* counting from the end only at first, which keeps the model finite *)
Counts(e) == e.op = "set" /\ e.x \in {"begin", "end"} /\ e.v.f = "num" /\ e.v.n[1] < 0
Offered(e) == Counts(e) => s.begin = <<>> /\ s.end = <<>>
Next == \E e \in Ops : LET t == After(e) IN
    /\ Offered(e)
    /\ s' = t
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> t])>>)

(* laws *)
Fields == DOMAIN Report(Start)
Same(a, b, xs) == \A x \in Fields \ xs : a[x] = b[x]
Laws ==
    LET a == Report(s) IN
    /\ \A e \in Ops : LET t == After(e) b == Report(t) IN
        /\ e.op = "reload" => t = s
        /\ e.op = "set" =>
            CASE e.x = "fps" -> b.fps = e.v /\ Same(a, b, {"fps", "begin", "end", "framecount", "last", "second", "kf"})
                                /\ b.second = MulMilli(Int6(1), e.v)
              [] e.x = "width" -> b.num.width = e.v /\ Same(a, b, {"num"})
              [] e.x \in {"begin", "end"} -> Close6(b[e.x], Instant(s, e.v).fr, 1) /\ Same(a, b, {e.x, "framecount", "last"})
              [] e.x = "name" -> b.name = e.v /\ Same(a, b, {"name"})
              [] OTHER -> TRUE
    /\ a.framecount = Trunc6(Sub6(a.end, a.begin)) + 1
    /\ a.last = Denote([f |-> "num", n |-> Int6(-1)], Doc(s), TRUE).fr
====
