---- MODULE HeaderTrace ----
(***************************************************************************)
(* Judges recorded histories of reading and setting header items.  Every   *)
(* event carries what the document says afterwards (doc: parsed; raw: the  *)
(* attributes as they stand; rest: a digest of everything else) and what   *)
(* the animation reports (rep).                                            *)
(***************************************************************************)
EXTENDS TraceBase, Header
VARIABLES h, i, s, raw, rest, bad

Tol == 2            \* millionths of a frame

Fields == {"fps", "view_box", "viewbox", "bgcolor", "background", "name", "desc", "size"}
Reports(e, t) ==
    LET w == Report(t) IN
    { <<"C18", "reported: " \o x, e.rep.num[x] = w.num[x]>> : x \in NumItems }
    \cup { <<"C18", "reported: fps", e.rep.fps = w.fps>>,
           <<"C18", "reported: size", e.rep.size = <<w.num.width, w.num.height>>>>,
           <<"C18", "reported: view box as text", e.rep.view_box = w.view_box>>,
           <<"C18", "reported: view box", e.rep.viewbox = w.viewbox>>,
           <<"C18", "reported: background as text", e.rep.bgcolor = w.bgcolor>>,
           <<"C18", "reported: background", e.rep.background = w.background>>,
           <<"C18", "reported: begin time", Close6(e.rep.begin, w.begin, Tol)>>,
           <<"C18", "reported: end time", Close6(e.rep.end, w.end, Tol)>>,
           <<"C18", "reported: frame count", Le6(w.begin, w.end) => e.rep.framecount = w.framecount>>,
           <<"C18", "the last frame", Close6(e.rep.last, w.last, Tol)>>,
           <<"C18", "the length of a second", Close6(e.rep.second, w.second, Tol)>>,
           <<"C18", "reported: name", e.rep.name = w.name>>,
           <<"C18", "reported: description", e.rep.desc = w.desc>>,
           <<"C18", "number of keyframes", Len(e.rep.kf) = Len(w.kf) /\ e.rep.nkf = Len(w.kf)>>,
           <<"C18", "keyframes", Len(e.rep.kf) = Len(w.kf) => \A j \in DOMAIN w.kf :
                /\ Close6(e.rep.kf[j].time, w.kf[j].time, Tol)
                /\ e.rep.kf[j].name = w.kf[j].name /\ e.rep.kf[j].active = w.kf[j].active>> }

IsTime(e) == e.op = "set" /\ e.x \in {"begin", "end"}
After(e) == IF e.op = "set" THEN Set(s, e.x, e.v, IF IsTime(e) THEN e.doc[e.x] ELSE <<>>) ELSE s
Target(e) == IF e.op = "set" THEN {Holder(e.x)} ELSE {}
Clauses(e, t) ==
    Reports(e, t)
    \cup { <<"C18", "outcome", IF e.op = "bad" THEN e.r # "ok" ELSE e.r = "ok">>,
           <<"C18", "the time in the document", IsTime(e) =>
                /\ e.doc[e.x] # <<>>
                /\ LET d == DenoteText(e.doc[e.x][1], Fps(s)) IN d.ok /\ Close6(d.fr, Instant(s, e.v).fr, Tol)>>,
           <<"C18", "other attributes", \A x \in (DOMAIN raw \cup DOMAIN e.raw) \ Target(e) :
                x \in DOMAIN raw /\ x \in DOMAIN e.raw /\ raw[x] = e.raw[x]>>,
           <<"C18", "the rest of the document", e.rest = rest>> }
    \cup { <<"C18", "in the document: " \o x, e.doc[x] = t[x]>> : x \in DOMAIN t }

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ s = Histories[h].cfg.start /\ raw = Histories[h].cfg.raw /\ rest = Histories[h].cfg.rest
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                t == After(e)
            IN /\ s' = t
               /\ raw' = e.raw /\ rest' = e.rest
               /\ bad' = Failing(Clauses(e, t))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
