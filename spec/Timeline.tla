---- MODULE Timeline ----
(***************************************************************************)
(* Values and their timelines (C07, C08, C09).                             *)
(*                                                                         *)
(* A document has targets (parameters of layers, or values which belong to *)
(* no document).  Each target holds a value, which is either static or     *)
(* animated; an animated value is a map from instants to waypoints.        *)
(* Callers also own value objects and waypoint objects, which they may     *)
(* store in several timelines and go on changing afterwards.               *)
(*                                                                         *)
(* Instants are integers, in thousandths of a frame.  Values are opaque    *)
(* tokens ("v0", "v1", ...).                                               *)
(*                                                                         *)
(* Everything here is an operator on states, so that the model checker     *)
(* explores, and the trace specification judges, the same definitions.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

(***************************************************************************)
(* Interpolations: the standard names and the other names for them.        *)
(***************************************************************************)
Standard == {"tcb", "clamped", "constant", "linear", "ease"}
Synonym  == [auto |-> "tcb", halt |-> "ease"]
Known(n) == n \in Standard \cup DOMAIN Synonym
Std(n)   == IF n \in DOMAIN Synonym THEN Synonym[n] ELSE n

(***************************************************************************)
(* State                                                                   *)
(*   tgt  : target -> [an, val, wp]                                        *)
(*            an  = is it animated                                         *)
(*            val = the value, when static ("" when animated)              *)
(*            wp  = set of [t, v, b, a], empty when static                 *)
(*   vals : value object -> token                                          *)
(*   pool : waypoint object -> [t, key, val, b, a], where val names a      *)
(*          value object                                                   *)
(* Configuration (constant through a history)                              *)
(*   att  : the targets which belong to the document                       *)
(*   dur  : the duration of the document, for counting from the end        *)
(***************************************************************************)
Static(v)  == [an |-> FALSE, val |-> v, wp |-> {}]
Animated(W) == [an |-> TRUE, val |-> "", wp |-> W]

Times(W)   == {w.t : w \in W}
At(W, t)   == CHOOSE w \in W : w.t = t
Earliest(W) == CHOOSE w \in W : \A u \in W : w.t <= u.t
Without(W, t) == {w \in W : w.t # t}

(* a target whose waypoints become W: animated exactly when there are any *)
With(tg, W) ==
    IF W # {} THEN Animated(W)
    ELSE IF tg.an THEN Static(Earliest(tg.wp).v) ELSE tg

(***************************************************************************)
(* Ways of writing an instant.                                             *)
(*   [f |-> "num", n]             a number of frames; counts back from the *)
(*                                end if negative                          *)
(*   [f |-> "txt", n, ref]        text; ref: whether it is in seconds      *)
(*   [f |-> "T", n, fps]          a time object; fps: "" if not known,     *)
(*                                "same", or "other"                       *)
(***************************************************************************)
NeedsRef(k) == \/ k.f = "num" /\ k.n < 0
               \/ k.f = "txt" /\ k.ref /\ k.n # 0

Resolve(cfg, x, k) ==          \* [ok, t]
    LET attached == x \in cfg.att IN
    IF NeedsRef(k) /\ ~attached THEN [ok |-> FALSE, t |-> 0]
    ELSE IF k.f = "num" /\ k.n < 0 THEN [ok |-> TRUE, t |-> cfg.dur + k.n]
    ELSE IF k.f = "T" /\ k.fps = "other" /\ k.n # 0 /\ attached THEN [ok |-> FALSE, t |-> 0]
    ELSE [ok |-> TRUE, t |-> k.n]

(***************************************************************************)
(* Operations: Apply(cfg, s, e) = [s |-> next state, r |-> outcome].       *)
(* The outcomes are "ok", or an exception by name, or "raise" where the    *)
(* class of the exception is not part of the contract.                     *)
(***************************************************************************)
Ok(s)      == [s |-> s, r |-> "ok"]
Fail(s, x) == [s |-> s, r |-> x]
Put(s, x, tg) == [s EXCEPT !.tgt[x] = tg]

SetWp(cfg, s, x, k, v, b, a) ==
    LET r == Resolve(cfg, x, k)
        W == s.tgt[x].wp
    IN IF ~r.ok THEN Fail(s, "ValueError")
       ELSE Ok(Put(s, x, With(s.tgt[x],
                  Without(W, r.t) \cup {[t |-> r.t, v |-> v, b |-> b, a |-> a]})))

(* the waypoint objects ws, in order, as they would be stored: later wins *)
RECURSIVE Stored(_, _, _, _)
Stored(cfg, s, x, ws) ==
    IF ws = <<>> THEN {}
    ELSE LET w == s.pool[ws[Len(ws)]]
             rest == Stored(cfg, s, x, SubSeq(ws, 1, Len(ws)-1))
             t == Resolve(cfg, x, w.key).t
         IN Without(rest, t) \cup {[t |-> t, v |-> s.vals[w.val], b |-> w.b, a |-> w.a]}

AddWps(cfg, s, x, ws, over, keep) ==
    LET fits == \A j \in DOMAIN ws : Resolve(cfg, x, s.pool[ws[j]].key).ok
        New  == Stored(cfg, s, x, ws)
        Old  == IF keep THEN s.tgt[x].wp ELSE {}
        clash == Times(New) \cap Times(Old)
    IN IF ~fits THEN Fail(s, "ValueError")
       ELSE IF clash # {} /\ ~over THEN Fail(s, "ValueError")
       ELSE Ok(Put(s, x, With(s.tgt[x], {w \in Old : w.t \notin Times(New)} \cup New)))

Apply(cfg, s, e) ==
    CASE e.op = "set" ->        \* x.timeline[k] = value
            SetWp(cfg, s, e.x, e.k, e.v, "clamped", "clamped")
      [] e.op = "setval" ->     \* x.timeline[k] = value object
            SetWp(cfg, s, e.x, e.k, s.vals[e.val], "clamped", "clamped")
      [] e.op = "setwp" ->      \* x.timeline[k] = waypoint object
            LET w == s.pool[e.w] IN
            SetWp(cfg, s, e.x, e.k, s.vals[w.val], w.b, w.a)
      [] e.op = "copywp" ->     \* y.timeline[k2] = x.timeline[k]
            LET r == Resolve(cfg, e.x, e.k) IN
            IF ~r.ok THEN Fail(s, "ValueError")
            ELSE IF r.t \notin Times(s.tgt[e.x].wp) THEN Fail(s, "KeyError")
            ELSE LET w == At(s.tgt[e.x].wp, r.t) IN
                 SetWp(cfg, s, e.y, e.k2, w.v, w.b, w.a)
      [] e.op = "del" ->        \* del x.timeline[k]
            LET r == Resolve(cfg, e.x, e.k) IN
            IF ~r.ok THEN Fail(s, "ValueError")
            ELSE IF r.t \notin Times(s.tgt[e.x].wp) THEN Fail(s, "KeyError")
            ELSE Ok(Put(s, e.x, With(s.tgt[e.x], Without(s.tgt[e.x].wp, r.t))))
      [] e.op = "get" ->        \* x.timeline[k]
            LET r == Resolve(cfg, e.x, e.k) IN
            IF ~r.ok THEN Fail(s, "ValueError")
            ELSE IF r.t \notin Times(s.tgt[e.x].wp) THEN Fail(s, "KeyError")
            ELSE Ok(s)
      [] e.op = "add" ->        \* x.timeline.add([...], overwrite=over)
            AddWps(cfg, s, e.x, e.ws, e.over, TRUE)
      [] e.op = "iadd" ->       \* x.timeline += [...]
            AddWps(cfg, s, e.x, e.ws, TRUE, TRUE)
      [] e.op = "replace" ->    \* x.timeline = [...]
            AddWps(cfg, s, e.x, e.ws, TRUE, FALSE)
      [] e.op = "copytl" ->     \* y.timeline = x.timeline
            Ok(Put(s, e.y, With(s.tgt[e.y], s.tgt[e.x].wp)))
      [] e.op = "on" ->         \* x.is_animated = True
            Ok(IF s.tgt[e.x].an THEN s
               ELSE Put(s, e.x, Animated({[t |-> 0, v |-> s.tgt[e.x].val,
                                           b |-> "clamped", a |-> "clamped"]})))
      [] e.op = "off" ->        \* x.is_animated = False
            Ok(IF ~s.tgt[e.x].an THEN s
               ELSE Put(s, e.x, Static(Earliest(s.tgt[e.x].wp).v)))
      [] e.op = "assign" ->     \* x.value = value
            Ok(Put(s, e.x, Static(e.v)))
      [] e.op = "mkval" ->      \* a new value object
            Ok([s EXCEPT !.vals[e.val] = e.v])
      [] e.op = "mutval" ->     \* value object.value = value
            Ok([s EXCEPT !.vals[e.val] = e.v])
      [] e.op = "mkwp" ->       \* a new waypoint object
            IF ~Known(e.b) \/ ~Known(e.a) THEN Fail(s, "ValueError")
            ELSE IF NeedsRef(e.k) THEN Fail(s, "ValueError")
            ELSE Ok([s EXCEPT !.pool[e.w] = [key |-> e.k, val |-> e.val,
                                             b |-> Std(e.b), a |-> Std(e.a)]])
      [] e.op = "mutbefore" ->
            IF ~Known(e.b) THEN Fail(s, "ValueError")
            ELSE Ok([s EXCEPT !.pool[e.w].b = Std(e.b)])
      [] e.op = "mutafter" ->
            IF ~Known(e.a) THEN Fail(s, "ValueError")
            ELSE Ok([s EXCEPT !.pool[e.w].a = Std(e.a)])
      [] e.op = "mutwpval" ->   \* waypoint object.value = another value object
            Ok([s EXCEPT !.pool[e.w].val = e.val])
      [] e.op = "mutwptime" ->  \* waypoint object.time = another time object
            Ok([s EXCEPT !.pool[e.w].key = e.k])
      [] e.op = "bad" ->        \* a call whose argument is of the wrong kind
            Fail(s, "raise")
      [] OTHER ->               \* reading
            Ok(s)

(***************************************************************************)
(* What the specification itself must satisfy.                             *)
(***************************************************************************)
OnePerInstant(s) == \A x \in DOMAIN s.tgt :
    \A w, u \in s.tgt[x].wp : w.t = u.t => w = u
AnimatedIffWaypoints(s) == \A x \in DOMAIN s.tgt :
    /\ s.tgt[x].an <=> s.tgt[x].wp # {}
    /\ s.tgt[x].an <=> s.tgt[x].val = ""
OnlyStandardNames(s) == \A x \in DOMAIN s.tgt :
    \A w \in s.tgt[x].wp : w.b \in Standard /\ w.a \in Standard
====
