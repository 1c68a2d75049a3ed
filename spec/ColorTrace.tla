---- MODULE ColorTrace ----
(***************************************************************************)
(* Judges recorded readings and comparisons of colours.                    *)
(*   make: notation n, outcome r, what is stored (m: millionths), its hex  *)
(*         text (hex) and tuple (tup)                                      *)
(*   cmp:  a colour made from n compared with notation o (both ways)       *)
(***************************************************************************)
EXTENDS TraceBase, Color
VARIABLES h, i, bad

Alpha(s) == LET b == Body(s) IN IF Len(b) = 8 THEN 16 * HexValue(b[7]) + HexValue(b[8]) ELSE 255
Make(e) ==
    LET good == Good(e.n) IN
    { <<"C21", "refused or accepted wrongly", (e.r = "ok") = good>>,
      <<"C21", "refused with something other than ValueError", ~good /\ e.r # "ok" => e.r = "ValueError" \/ (e.n.k = "value" /\ e.r = "TypeError")>> }
    \cup (IF ~good \/ e.r # "ok" THEN {} ELSE
      LET d == Denotes(e.n) IN
      { <<"C21", "the components stored", e.m = d>>,
        <<"C21", "the components reported", e.tup = d>>,
        <<"C21", "the form of the hex text", /\ e.hex # <<>> /\ e.hex[1] = "#" /\ HexText(e.hex)
                                             /\ \A j \in DOMAIN e.hex : \A k \in 1..6 : e.hex[j] # Upper[k]>>,
        <<"C21", "the hex digits", HexText(e.hex) => \A j \in 1..4 : IsByteOf(Bytes(e.hex)[j], d[j])>>,
        <<"C21", "opacity is written only if it matters", HexText(e.hex) => (Len(Body(e.hex)) = 6) = (Alpha(e.hex) = 255)>>,
        <<"C21", "printing", e.str = e.hex>> })
Compare(e) ==
    IF ~Good(e.o) THEN { <<"C21", "equal to something that is not a colour", e.eq = "F" /\ e.ne = "T">> }
    ELSE LET c == Denotes(e.n) d == Denotes(e.o) IN
    { <<"C21", "not equal to the same colour", MustEqual(c, d) => e.eq = "T" /\ e.ne = "F">>,
      <<"C21", "equal to another colour", MustDiffer(c, d) => e.eq = "F" /\ e.ne = "T">>,
      <<"C21", "equality depends on the order", e.rev = e.eq>> }

TInit == h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1] IN bad' = Failing(IF e.op = "make" THEN Make(e) ELSE Compare(e))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
