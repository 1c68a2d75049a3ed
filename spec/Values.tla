---- MODULE Values ----
(***************************************************************************)
(* Parameters, and what they report.                                       *)
(*                                                                         *)
(* State: s[x] = [v |-> value, anim |-> whether animated, ok |-> TRUE] for *)
(* every parameter (or part of a transformation) x.                        *)
(*                                                                         *)
(* Values, by kind:                                                        *)
(*   "n"  a number (see Decimals)                                          *)
(*   "e"  something exact: an integer, a boolean, a text                   *)
(*   "c"  a colour: four components, each a number or a byte out of 255    *)
(*   "v"  a vector: x and y                                                *)
(*   "m"  a blend method by name                                           *)
(*   "g"  a gradient: a sequence of positions and colours                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Decimals

(* ---- transitions ------------------------------------------------------ *)
Static(v) == [v |-> v, anim |-> FALSE]
Apply(s, e) ==
    CASE e.op = "set"   -> [s EXCEPT ![e.x] = Static(e.v)]
      [] e.op = "parts" -> [x \in DOMAIN s |-> IF x \in DOMAIN e.vs THEN Static(e.vs[x]) ELSE s[x]]
      [] e.op = "copy"  -> [s EXCEPT ![e.x] = s[e.y]]
      [] e.op = "on"    -> [s EXCEPT ![e.x].anim = TRUE]
      [] e.op = "off"   -> [s EXCEPT ![e.x].anim = FALSE]
      [] e.op \in {"read", "reload"} -> s

(* ---- what counts as the same value ------------------------------------ *)
(* a component between 0 and 1 kept to six decimals; want may be a byte *)
SameComponent(want, got) ==
    IF want.k = "b"
    THEN LET m == got.i * 1000000 + got.d[1] * 10 + (got.d[2] \div 10000)   \* millionths; they are exact here
         IN ~got.neg /\ got.i <= 1 /\ Abs(m * 255 - want.b * 1000000) <= 128
    ELSE Within(want, got, SixthHalf)
SameColour(want, got) == Len(got) = 4 /\ \A j \in 1..4 : SameComponent(want[j], got[j])

(* the numbers which Synfig has for the blend methods, from 0 *)
Methods == <<"COMPOSITE", "STRAIGHT", "BRIGHTEN", "DARKEN", "ADD", "SUBTRACT", "MULTIPLY", "DIVIDE", "COLOR", "HUE", "SATURATION",
             "LUMINANCE", "BEHIND", "ONTO", "ALPHA_BRIGHTEN", "ALPHA_DARKEN", "SCREEN", "HARD_LIGHT", "DIFFERENCE", "ALPHA_OVER",
             "OVERLAY", "STRAIGHT_ONTO", "ADD_COMPOSITE", "ALPHA">>
MethodNumber(m) == ToString((CHOOSE j \in DOMAIN Methods : Methods[j] = m) - 1)

Same(want, got) ==
    /\ (want.k = got.k \/ (want.k = "m" /\ got.k = "e"))
    /\ CASE want.k = "m" -> got.s = MethodNumber(want.m)
         [] want.k = "n" -> Within(want, got, IF want.prec = 10 THEN Ten ELSE SixthHalf)
         [] want.k = "e" -> want.s = got.s
         [] want.k = "c" -> SameColour(want.c, got.c)
         [] want.k = "v" -> Within(want.x, got.x, Ten) /\ Within(want.y, got.y, Ten)
         [] want.k = "g" -> /\ Len(want.stops) = Len(got.stops)
                            /\ \A j \in DOMAIN want.stops :
                                 /\ Within(want.stops[j].pos, got.stops[j].pos, SixthHalf)
                                 /\ SameColour(want.stops[j].c, got.stops[j].c)
         [] OTHER -> FALSE
====
