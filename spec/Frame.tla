---- MODULE Frame ----
(***************************************************************************)
(* What an operation may change, and what it must refuse.                  *)
(*                                                                         *)
(* The documents of a program, and the loose values and waypoints it       *)
(* holds, are a set of components.  A component is [o |-> owner, p |->     *)
(* part]; the owner is an animation, a layer, a loose value or a loose     *)
(* waypoint.  The parts are                                                *)
(*    "@x"     the attribute x                                             *)
(*    "#x"     the child element x of an animation (name, desc)            *)
(*    "p:x"    the value of the parameter x; a transformation has the      *)
(*             parts "p:x.offset" etc. instead                             *)
(*    "order"  which layers are inside, and their order                    *)
(*    "params" which parameters there are                                  *)
(*    "header", "other", "value" ...  everything else                      *)
(*                                                                         *)
(* An operation e says what it is applied to (e.o, e.p: sets of parts),    *)
(* the kind of thing that is assigned (e.kind), and the class of the       *)
(* argument (e.arg).                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Comp(o, p) == [o |-> o, p |-> p]

(* the components an operation may change if it succeeds *)
Footprint(e) ==
    CASE e.op \in {"param", "timeline", "attr", "header", "loose"} -> {Comp(e.o, x) : x \in e.p}
      [] e.op = "place" -> {Comp(k, "order") : k \in e.k}    \* the old and the new container
      [] e.op \in {"read", "fail", "save"} -> {}

(* creating things adds new owners, and changes nothing else *)
Creates(e) == IF e.op = "create" THEN {e.o} ELSE {}

MayChange(e, c) == IF e.op = "create" THEN c.o = e.o ELSE c \in Footprint(e)

(* arguments which are not acceptable, by kind of target *)
NotNumbers == {"word", "object", "list", "dict", "pair", "colour value", "vector value", "class"}
Refused(kind) ==
    CASE kind \in {"real", "angle", "integer", "blend"} -> NotNumbers
      [] kind = "time" -> {"word", "object", "list", "dict", "pair", "two of a unit", "colour value"}
      [] kind = "color" -> {"word", "object", "list", "dict", "pair", "number", "none", "five components",
                            "five digits", "words", "real value", "digits and junk"}
      [] kind = "vector" -> {"word", "object", "list", "number", "one component", "three components", "words",
                             "x only", "x y z", "x y words", "real value"}
      [] kind = "gradient" -> {"word", "object", "list", "number", "none", "no stops", "one stop", "stop of a word",
                               "stop of a number", "position of a word", "colour value"}
      [] kind = "transformation" -> {"word", "object", "list", "number", "none", "unknown part", "bad part",
                                     "good and bad part", "colour value"}
      [] kind = "string" -> {"animated value"}
      [] kind = "bool" -> {}
      [] kind \in {"header number"} -> {"word", "object", "list", "none", "dict"}
      [] kind = "header time" -> {"word", "object", "list", "none", "two of a unit"}
      [] kind = "header text" -> {"number", "object", "list", "none"}
      [] kind \in {"missing", "read only", "waypoint", "not a layer", "inside itself",
                   "index", "animate whole", "clash", "criteria"} -> {"always"}
      [] OTHER -> {}

MustRefuse(e) == e.op = "fail" \/ e.arg \in Refused(e.kind)
====
