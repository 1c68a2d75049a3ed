---- MODULE FrameMC ----
(***************************************************************************)
(* A small world in which every operation writes arbitrary contents into   *)
(* whatever it may change.                                                 *)
(***************************************************************************)
EXTENDS Frame, TLC, Json

Docs == {"A", "B"}
Layers == {"g", "x", "y"}        \* x is inside the group g; y is in the other document
Owners == Docs \cup Layers \cup {"v"}
Parts(o) == CASE o \in Docs -> {"#name", "order"}
              [] o = "g" -> {"p:amount", "p:transformation.offset", "p:transformation.angle", "order"}
              [] o \in {"x", "y"} -> {"@desc", "p:amount"}
              [] o = "v" -> {"value"}
Comps == UNION {{Comp(o, p) : p \in Parts(o)} : o \in Owners}

VARIABLES val, last
vars == <<val, last>>

Ops == UNION {{ [op |-> "param", o |-> o, p |-> {p}, kind |-> "real", arg |-> a] :
                  p \in {x \in Parts(o) : x \in {"p:amount", "p:transformation.offset", "p:transformation.angle"}},
                  a \in {"good", "word"} } : o \in Layers}
       \cup { [op |-> "param", o |-> "g", p |-> {"p:transformation.offset", "p:transformation.angle"},
               kind |-> "transformation", arg |-> a] : a \in {"good", "bad part"} }
       \cup { [op |-> "attr", o |-> o, p |-> {"@desc"}, kind |-> "attribute", arg |-> "good"] : o \in Layers }
       \cup { [op |-> "header", o |-> d, p |-> {q}, kind |-> "header text", arg |-> a] : d \in Docs, q \in {"#name"}, a \in {"good", "none"} }
       \cup { [op |-> "place", o |-> "x", k |-> {"g", d}, p |-> {}, kind |-> "layer", arg |-> "good"] : d \in Docs }
       \cup { [op |-> "loose", o |-> "v", p |-> {"value"}, kind |-> "real", arg |-> a] : a \in {"good", "word"} }
       \cup { [op |-> "read", o |-> "A", p |-> {}, kind |-> "any", arg |-> "good"] }

Init == /\ val = [c \in Comps |-> 0]
        /\ last = "none"

Can(e) == IF MustRefuse(e) THEN {} ELSE {c \in Comps : MayChange(e, c)}

Next == \E e \in Ops, new \in 0..1 :
    /\ last' = last
    /\ val' = [c \in Comps |-> IF c \in Can(e) THEN new ELSE val[c]]

(* a component is only ever changed by an operation which names it, or, if
   it is the contents of a group, one which moves a layer into or out of it *)
OnlyByName == \A e \in Ops : \A c \in Can(e) :
                    c.o = e.o \/ (c.p = "order" /\ e.op = "place" /\ c.o \in e.k)
(* whatever else happened, a component can be set and stays set *)
Independent == \A e, f \in Ops : e.op \in {"param", "attr", "header", "loose"} /\ f.op \in {"param", "attr", "header", "loose"}
                    /\ Can(e) \cap Can(f) # {} => e.o = f.o /\ e.p \cap f.p # {}
Distinct == \A e, f \in Ops : e.op = f.op /\ e.o # f.o /\ e.op # "place" => Footprint(e) \cap Footprint(f) = {}
ReadsNothing == \A e \in Ops : e.op = "read" => Footprint(e) = {}
ASSUME OnlyByName /\ Independent /\ Distinct /\ ReadsNothing
(* reading and refused calls are the identity *)
Identity == \A e \in {x \in Ops : x.op = "read" \/ x.arg # "good"} : Can(e) = {}
ASSUME Identity
Typed == val \in [Comps -> 0..1]

(* every kind of target with every argument it must refuse, for the driver *)
Kinds == {"real", "angle", "integer", "blend", "time", "color", "vector", "gradient", "transformation", "string",
          "header number", "header time", "header text"}
Always == {"missing", "read only", "waypoint", "not a layer", "inside itself", "index", "animate whole", "clash", "criteria"}
GenInit == val = 0 /\ last = "none"
GenNext == \E k \in Kinds \cup Always : \E a \in Refused(k) :
    /\ last = "none" /\ last' = k \o "/" \o a /\ UNCHANGED val
    /\ PrintT(<<"EMIT", ToJson([kind |-> k, arg |-> a])>>)
====
