---- MODULE TimeMC ----
(***************************************************************************)
(* Laws of TimeSpec on finite sets of specifications, and export of the    *)
(* specifications themselves for the real code.                            *)
(***************************************************************************)
EXTENDS TimeSpec, TLC, Json

CONSTANTS Emitting, Rates, Amounts, Whole

MCRates == {500, 1000, 12000, 23976, 24000, 25000, 29970, 30000, 60000}
MCAmounts == {<<0, 0>>, <<1, 0>>, <<2, 500000>>, <<90, 0>>}
GenAmounts == {<<0, 0>>, <<1, 0>>, <<7, 250000>>}
MCWhole == (-70..70) \cup {1439, 1440, 1441, 3599, 86399, 86400, 86401, 2157840, 2591999, 9999999, -86400, -1440}

VARIABLES k, v     \* k: which kind of state this is
vars == <<k, v>>

Units == <<"h", "m", "s", "f">>
None == <<-1, 0>>

Orders == {<<1,2,3,4>>, <<4,3,2,1>>, <<3,4,1,2>>}

RECURSIVE Build(_, _, _)
Build(am, ord, j) ==
    IF j > 4 THEN <<>>
    ELSE (IF am[ord[j]] = None THEN <<>> ELSE <<[u |-> Units[ord[j]], n |-> am[ord[j]]]>>)
         \o Build(am, ord, j+1)

Specs(am, ord, neg) == [f |-> "parts", neg |-> neg, inneg |-> FALSE, ps |-> Build(am, ord, 1)]
Whole0(x) == Norm(x, 0)

Init == \/ /\ k = "text"
           /\ \E a1, a2, a3, a4 \in Amounts \cup {None}, o \in Orders, g \in BOOLEAN :
                 /\ v = Specs(<<a1, a2, a3, a4>>, o, g)
                 /\ Emitting => PrintT(<<"EMIT", ToJson(v)>>)
        \/ /\ k = "print"
           /\ ~Emitting
           /\ v \in {[x |-> Norm(n, lo), fps |-> r] : n \in Whole, lo \in {0, 1, 500000, 999999}, r \in Rates}

Next == UNCHANGED vars

(* a specification and its negative denote opposite instants; order is irrelevant *)
Sign == k = "text" /\ ~v.neg => \A r \in Rates :
    LET a == DenoteText(v, r)
        b == DenoteText([v EXCEPT !.neg = TRUE], r)
    IN a.ok /\ b.ok => b.fr = Neg6(a.fr)
Reversed(ps) == [j \in DOMAIN ps |-> ps[Len(ps)+1-j]]
OrderIrrelevant == k = "text" /\ ~v.neg => \A r \in Rates \cup {0} :
    LET a == DenoteText(v, r)
        b == DenoteText([v EXCEPT !.ps = Reversed(v.ps)], r)
    IN a.ok = b.ok /\ Close6(a.fr, b.fr, 3)
(* printing and reading back *)
RoundTrip == k = "print" => LET p == Printed(v.x, v.fps)
                                d == DenoteText(p, v.fps)
                            IN d.ok /\ d.fr = v.x
Canonical == k = "print" => LET ps == Printed(v.x, v.fps).ps IN
    /\ \A i, j \in DOMAIN ps : i < j =>
          LET at(u) == CHOOSE q \in 1..4 : Units[q] = u IN at(ps[i].u) < at(ps[j].u)
    /\ \A i \in DOMAIN ps : ps[i].u \in {"m", "s"} => ps[i].n[1] < 60
    /\ \A i \in DOMAIN ps : ps[i].u # "f" => ps[i].n[2] = 0
    /\ \A i \in DOMAIN ps : ps[i].n = Zero => Len(ps) = 1 /\ ps[i].u = "f"
    /\ \A i \in DOMAIN ps : ps[i].u = "f" /\ v.fps # 0 => Lt6(ps[i].n, MulMilli(Int6(1), v.fps))
====
