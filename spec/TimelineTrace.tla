---- MODULE TimelineTrace ----
(***************************************************************************)
(* Judges recorded histories against Timeline.tla.                         *)
(*                                                                         *)
(* Each event records the operation, its outcome `r', and the state of     *)
(* every target after it, as reported by the interface and as found in the *)
(* document tree.                                                          *)
(***************************************************************************)
EXTENDS TraceBase, Timeline, SequencesExt

VARIABLES h, i, s, bad,
          touched   \* targets whose waypoints have changed since the document was read

Cfg(n) == [att |-> ToSet(Histories[n].cfg.att), dur |-> Histories[n].cfg.dur]

S0(n) == LET c == Histories[n].cfg IN
    [tgt  |-> [x \in DOMAIN c.tgt |->
                 IF c.tgt[x].wp = <<>> THEN Static(c.tgt[x].val)
                 ELSE Animated({[t |-> w.t, v |-> w.v, b |-> Std(w.b), a |-> Std(w.a)] : w \in ToSet(c.tgt[x].wp)})],
     vals |-> [x \in ToSet(c.valnames) |-> "v0"],
     pool |-> [x \in ToSet(c.wpnames) |->
                [key |-> [f |-> "num", n |-> 0], val |-> c.valnames[1],
                 b |-> "clamped", a |-> "clamped"]]]

TimesOf(seq) == [j \in DOMAIN seq |-> seq[j].t]
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b
                  IN <<m>> \o Sorted(S \ {m})

(* exceptions as the contract knows them *)
SameOutcome(want, got) ==
    CASE want = "ok" -> got = "ok"
      [] want = "raise" -> got # "ok"
      [] OTHER -> got = want

RECURSIVE Clauses(_, _, _, _, _)
Clauses(xs, e, q, prev, tch) ==
    IF xs = {} THEN {}
    ELSE LET x == CHOOSE y \in xs : TRUE
             m == q.tgt[x]
             p == prev.tgt[x]
             o == e.obs[x]
             ts == Sorted(Times(m.wp))
             Right(w) == w.t \in Times(m.wp) =>
                            LET u == At(m.wp, w.t)
                            IN w.v = u.v /\ Std(w.b) = u.b /\ Std(w.a) = u.a
             Exact(w) == Right(w) /\ w.b \in Standard /\ w.a \in Standard
             switching == \/ e.op \in {"on", "off", "assign"}
                          \/ m.an # p.an
         IN { <<"C07", "times reported are not those of the map", TimesOf(o.api) = ts>>,
              <<"C07", "times in the document are not those of the map, in order", 
                    IF x \in tch THEN TimesOf(o.xml) = ts
                    ELSE ToSet(TimesOf(o.xml)) = ToSet(ts) /\ Len(o.xml) = Len(ts)>>,
              <<"C07", "the waypoint at an instant is not the one which was put there",
                    (\A j \in DOMAIN o.xml : Right(o.xml[j])) /\ (\A j \in DOMAIN o.api : Right(o.api[j]))>>,
              <<"C07", "keys disagree", o.keys = ts>>,
              <<"C07", "values disagree", o.vals = ts>>,
              <<"C07", "items disagree", o.items = ts /\ o.itemvals = ts>>,
              <<"C07", "length or truth disagrees", o.len = Cardinality(m.wp) /\ o.truth = (m.wp # {})>>,
              <<"C07", "looking up each key does not give its waypoint", o.look = ts>>,
              <<"C08", "animated exactly when there are waypoints", o.an = m.an /\ o.xan = m.an>>,
              <<"C08", "static value is not the expected one", ~m.an => o.val = m.val /\ o.xval = m.val>>,
              <<"C08", "static and animated do not agree", ~m.an => o.api = <<>> /\ o.xml = <<>> >>,
              <<"C08", "value was lost on switching", switching /\ m.an => \A j \in DOMAIN o.xml : Right(o.xml[j])>>,
              <<"C09", "waypoint does not report what was stored", \A j \in DOMAIN o.api : Exact(o.api[j])>>,
              <<"C09", "document does not hold what was stored", \A j \in DOMAIN o.xml : Right(o.xml[j])>>
            } \cup Clauses(xs \ {x}, e, q, prev, tch)

(* which property speaks about the outcome of each operation *)
OutcomeOf(op) == CASE op \in {"on", "off", "assign"} -> "C08"
                   [] op \in {"mkwp", "mutbefore", "mutafter", "mutwpval", "mutwptime", "mkval", "mutval"} -> "C09"
                   [] OTHER -> "C07"

ReadBack(e, q) ==    \* what a successful lookup returns
    IF e.op # "get" \/ e.r # "ok" THEN {}
    ELSE LET r == Resolve(Cfg(h), e.x, e.k)
             W == q.tgt[e.x].wp
         IN { <<"C07", "lookup returned the waypoint of another instant", e.got.t = r.t>>,
              <<"C07", "lookup returned another waypoint",
                  r.t \in Times(W) => e.got.v = At(W, r.t).v>>,
              <<"C09", "lookup returned a waypoint with other contents",
                  r.t \in Times(W) => e.got = At(W, r.t)>> }

PoolIntact(e, q) ==   \* callers' waypoint objects are their own
    { <<"C09", "a caller's waypoint object was changed",
        \A j \in DOMAIN e.pool : LET w == e.pool[j] IN
            w.b = q.pool[w.w].b /\ w.a = q.pool[w.w].a /\ w.n = q.pool[w.w].key.n
            /\ w.v = q.vals[q.pool[w.w].val] >> }

TInit == /\ h \in 1..Len(Histories)
         /\ i = 0
         /\ s = S0(h)
         /\ bad = {}
         /\ touched = {}

TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                a == Apply(Cfg(h), s, e)
                tch == touched \cup {x \in DOMAIN s.tgt : a.s.tgt[x] # s.tgt[x]}
            IN /\ s' = a.s
               /\ touched' = tch
               /\ bad' = Failing(
                    Clauses(DOMAIN a.s.tgt, e, a.s, s, tch)
                    \cup ReadBack(e, a.s)
                    \cup PoolIntact(e, a.s)
                    \cup { <<OutcomeOf(e.op), "outcome of the call", SameOutcome(a.r, e.r)>> })
               /\ Noted(bad', h, i)
         /\ i' = i + 1
         /\ UNCHANGED h

Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
