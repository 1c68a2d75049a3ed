---- MODULE BywordsTrace ----
(***************************************************************************)
(* Judges recorded runs of bywords.  The configuration holds the frame     *)
(* rate (fps, thousandths), the bywords groups, and the text parameter of  *)
(* every text layer (a digest) and the rest of the document (a digest) at  *)
(* the start.  Every event carries:                                        *)
(*   tl:   the timeline of every text layer, <<[at |-> frames, text,       *)
(*         before, after]>>, or <<>> if it is static                       *)
(*   raw:  a digest of the text parameter of every text layer              *)
(*   rest: a digest of everything else                                     *)
(***************************************************************************)
EXTENDS TraceBase, Bywords, Fixed
VARIABLES h, i, raw, rest, last, bad

C(n) == Histories[n].cfg
Frames(at, fps) == MulMilli(at, fps)
Tol(fps) == (fps \div 1000) + 4

GroupOf(c, id) == CHOOSE n \in DOMAIN c.groups : \E j \in DOMAIN c.groups[n] : c.groups[n][j].id = id

Layer(c, e, id) ==
    LET want == Listing(Timeline(c.groups[GroupOf(c, id)], e.lines, e.letters, id))
        got == e.tl[id]
    IN { <<"C16", "the texts shown", Len(got) = Len(want) /\ \A j \in DOMAIN want : got[j].text = want[j].text>>,
         <<"C16", "the times", Len(got) = Len(want) => \A j \in DOMAIN want : Close6(got[j].at, Frames(want[j].at, c.fps), Tol(c.fps))>>,
         <<"C16", "interpolation", \A j \in DOMAIN got : got[j].before = "constant" /\ got[j].after = "constant">> }

Clauses(c, e) ==
    IF e.op = "run" THEN
      LET mine == Rewritten(c.groups, e.lines) IN
      (UNION { Layer(c, e, id) : id \in mine })
      \cup { <<"C16", "outcome", e.r = "ok">>,
             <<"C16", "lines that match nothing are reported", e.unmatched = Unmatched(c.groups, e.lines)>>,
             <<"C17", "text layers outside the matched groups", \A id \in DOMAIN raw \ mine : id \in DOMAIN e.raw /\ e.raw[id] = raw[id]>>,
             <<"C17", "layers came or went", DOMAIN e.raw = DOMAIN raw>>,
             <<"C17", "the rest of the document", e.rest = rest>>,
             <<"C17", "running it again changes something", last = [l |-> e.lines, m |-> e.letters] => e.raw = raw>> }
    ELSE { <<"C17", "reloading", e.r = "ok" /\ e.raw = raw /\ e.rest = rest>> }

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ raw = C(h).raw /\ rest = C(h).rest /\ last = [l |-> <<>>, m |-> FALSE]
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1] IN
            /\ bad' = FailingHere(Clauses(C(h), e))
            /\ raw' = e.raw /\ rest' = e.rest
            /\ last' = IF e.op = "run" THEN [l |-> e.lines, m |-> e.letters] ELSE last
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
