---- MODULE TimelineMC ----
(***************************************************************************)
(* Exhaustive exploration of Timeline.tla with few instants and values,    *)
(* and export of every transition for replay in the real code.             *)
(***************************************************************************)
EXTENDS Timeline, TLC, Json, IOUtils

CONSTANTS Targets, Attached, Emitting, MaxWp

VARIABLE s
cfg == [att |-> Attached, dur |-> 121000]

Keys == { [f |-> "num", n |-> 5000], [f |-> "num", n |-> -116000],   \* the same instant
          [f |-> "txt", n |-> 24000, ref |-> TRUE],
          [f |-> "txt", n |-> -2000, ref |-> FALSE],
          [f |-> "T", n |-> 0, fps |-> ""] }
WKeys == { k \in Keys : ~NeedsRef(k) }
Vs == {"v1", "v2"}
WPool == [w1 |-> [key |-> [f |-> "num", n |-> 5000], val |-> "o1", b |-> "constant", a |-> "linear"],
          w2 |-> [key |-> [f |-> "txt", n |-> -2000, ref |-> FALSE], val |-> "o2", b |-> "tcb", a |-> "ease"],
          w3 |-> [key |-> [f |-> "T", n |-> 5000, fps |-> ""], val |-> "o2", b |-> "linear", a |-> "clamped"]]

Ops ==
    { [op |-> "set", x |-> x, k |-> k, v |-> v] : x \in Targets, k \in Keys, v \in Vs }
    \cup { [op |-> "del", x |-> x, k |-> k] : x \in Targets, k \in Keys }
    \cup { [op |-> "get", x |-> x, k |-> k] : x \in Targets, k \in Keys }
    \cup { [op |-> "setwp", x |-> x, k |-> k, w |-> "w1"] : x \in Targets, k \in Keys }
    \cup { [op |-> "add", x |-> x, ws |-> ws, over |-> o] : x \in Targets,
             ws \in {<<"w1">>, <<"w2">>, <<"w1", "w2">>, <<"w2", "w1">>, <<>>, <<"w1", "w3">>, <<"w3", "w2", "w1">>}, o \in BOOLEAN }
    \cup { [op |-> "iadd", x |-> x, ws |-> ws] : x \in Targets, ws \in {<<"w1">>, <<"w1", "w2">>, <<"w3", "w1">>} }
    \cup { [op |-> "replace", x |-> x, ws |-> ws] : x \in Targets, ws \in {<<"w1">>, <<"w2", "w1">>, <<>>, <<"w1", "w2", "w3">>} }
    \cup { [op |-> "copytl", x |-> x, y |-> y] : x \in Targets, y \in Targets }
    \cup { [op |-> "copywp", x |-> x, y |-> y, k |-> k, k2 |-> k2] : x \in Targets, y \in Targets,
             k \in {[f |-> "num", n |-> 5000]}, k2 \in {[f |-> "T", n |-> 0, fps |-> ""]} }
    \cup { [op |-> o, x |-> x] : o \in {"on", "off"}, x \in Targets }
    \cup { [op |-> "assign", x |-> x, v |-> v] : x \in Targets, v \in Vs }

Init == /\ s = [tgt |-> [x \in Targets |-> Static("v0")],
                vals |-> [o1 |-> "v1", o2 |-> "v2"],
                pool |-> WPool]

Next == \E e \in Ops :
    LET a == Apply(cfg, s, e) IN
    /\ \A x \in Targets : Cardinality(a.s.tgt[x].wp) <= MaxWp
    /\ s' = a.s
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s.tgt, e |-> e, q |-> a.s.tgt])>>)

(* invariants *)
TypeOK == OnePerInstant(s) /\ AnimatedIffWaypoints(s) /\ OnlyStandardNames(s)

(* a failed operation changes nothing; other targets are never touched;
   on/off are idempotent and mutually inverse on a static value *)
Steps == \A e \in Ops :
    LET a == Apply(cfg, s, e) IN
    /\ a.r # "ok" => a.s = s
    /\ \A x \in Targets : (IF "y" \in DOMAIN e THEN x # e.y ELSE x # e.x) => a.s.tgt[x] = s.tgt[x]
    /\ e.op \in {"on", "off"} => Apply(cfg, a.s, e).s = a.s
    /\ e.op = "on" /\ ~s.tgt[e.x].an => Apply(cfg, a.s, [e EXCEPT !.op = "off"]).s = s
    /\ e.op = "set" /\ a.r = "ok" =>
         LET g == [op |-> "get", x |-> e.x, k |-> e.k] IN Apply(cfg, a.s, g).r = "ok"
    /\ e.op = "del" /\ a.r = "ok" =>
         LET g == [op |-> "get", x |-> e.x, k |-> e.k] IN Apply(cfg, a.s, g).r = "KeyError"
====
