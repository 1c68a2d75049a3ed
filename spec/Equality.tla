---- MODULE Equality ----
(***************************************************************************)
(* When values are equal.                                                  *)
(*                                                                         *)
(* An item is one side of a comparison:                                    *)
(*   kind   the kind of value, or "junk" for something which is not a      *)
(*          value of any kind, nor a python value in the notation of the   *)
(*          kind it is compared with                                       *)
(*   anim   whether it is animated                                         *)
(*   v      what it denotes if it isn't animated                           *)
(*   tl     its waypoints if it is                                         *)
(*   raw    everything that the document says about it                     *)
(* Denotations are those of Values, and "t" for transformations, whose     *)
(* parts are items.  Verdicts are "y" and "n", and "o" where nothing is    *)
(* said: between kinds, or when numbers almost agree.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Decimals

And3(vs) == IF "n" \in vs THEN "n" ELSE IF vs = {"y"} THEN "y" ELSE "o"
YN(b) == IF b THEN "y" ELSE "n"

(* more than a thousandth apart *)
Far(x, y) == LET w == Diff(x, y) IN Abs(w[1]) > 2 \/ Abs(w[1] * B + w[2]) > 101
Numbers(x, y) == IF Diff(x, y) = <<0, 0, 0, 0>> THEN (IF x.d[3] = 0 THEN "y" ELSE "o")
                 ELSE IF Far(x, y) THEN "n" ELSE "o"

(* components of colours: a number or a byte out of 255; compared in millionths *)
Millionths(c) == IF c.k = "b" THEN (c.b * 1000000) \div 255
                 ELSE (IF c.neg THEN -1 ELSE 1) * (c.i * 1000000 + c.d[1] * 10 + (c.d[2] \div 10000))
Components(x, y) ==
    LET d == Abs(Millionths(x) - Millionths(y)) IN
    IF x.k = y.k THEN (IF x = y THEN "y" ELSE IF d > 5000 THEN "n" ELSE "o")
    ELSE IF d <= 1 THEN "y" ELSE IF d > 5000 THEN "n" ELSE "o"
Colours(x, y) == IF Len(x) # 4 \/ Len(y) # 4 THEN "o" ELSE And3({Components(x[j], y[j]) : j \in 1..4})

Flat(x, y) ==
    IF x.k # y.k THEN "o"
    ELSE CASE x.k = "e" -> YN(x.s = y.s)
           [] x.k = "n" -> Numbers(x, y)
           [] x.k = "v" -> And3({Numbers(x.x, y.x), Numbers(x.y, y.y)})
           [] x.k = "c" -> Colours(x.c, y.c)
           [] x.k = "g" -> IF Len(x.stops) # Len(y.stops) THEN "n"
                           ELSE And3({Numbers(x.stops[j].pos, y.stops[j].pos) : j \in DOMAIN x.stops}
                                \cup {Colours(x.stops[j].c, y.stops[j].c) : j \in DOMAIN x.stops})
           [] OTHER -> "o"

Waypoints(a, b) ==
    IF Len(a) # Len(b) THEN "n"
    ELSE And3({"o"} \cup UNION {{Numbers(a[j].t, b[j].t), Flat(a[j].v, b[j].v), YN(a[j].i = b[j].i)} : j \in DOMAIN a})

Item(l, r) ==
    IF l.kind = "junk" \/ r.kind = "junk" THEN "n"
    ELSE IF l.kind # r.kind THEN "o"
    ELSE IF l.anim # r.anim THEN "n"          \* an animated value is never equal to a constant
    ELSE IF l.anim THEN (IF l.raw = r.raw THEN "y" ELSE Waypoints(l.tl, r.tl))
    ELSE IF l.v.k = "t" \/ r.v.k = "t" THEN "o"
    ELSE Flat(l.v, r.v)

(* timelines, and waypoints, at different times are not equal *)
Times(l, r) ==
    IF l.raw = r.raw THEN "y"
    ELSE IF Len(l.tl) # Len(r.tl) THEN "n"
    ELSE And3({"o"} \cup {Numbers(l.tl[j].t, r.tl[j].t) : j \in DOMAIN l.tl})
(* and waypoints are ordered by time: what <, <=, > and >= should give *)
Order(a, b) == LET v == Numbers(a, b) IN
    IF v = "y" THEN <<"F", "T", "F", "T">>
    ELSE IF v = "o" THEN <<>>
    ELSE IF Less(a, b) THEN <<"T", "T", "F", "F">> ELSE <<"F", "F", "T", "T">>

Parts(x) == IF x.k = "t" THEN DOMAIN x.parts ELSE {}
Verdict(l, r) ==
    IF l.kind = "transformation" /\ r.kind = "transformation"
    THEN IF Parts(l.v) # Parts(r.v) THEN "n"
         ELSE And3({Item(l.v.parts[p], r.v.parts[p]) : p \in Parts(l.v)})
    ELSE IF l.kind = r.kind /\ l.kind \in {"timeline", "waypoint"} THEN Times(l, r)
    ELSE Item(l, r)
====
