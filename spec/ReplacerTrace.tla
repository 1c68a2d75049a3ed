---- MODULE ReplacerTrace ----
(***************************************************************************)
(* Judges recorded runs of the replacer.  The configuration holds the      *)
(* files (name -> lines), the names of those that a run over all files     *)
(* looks at (scope) and the rest.  Every event has:                        *)
(*   op:     "one" (with `file') or "all"                                  *)
(*   how:    "plain", "kill", "raise" or "limit" (a limit on the size of   *)
(*           files makes writing fail)                                     *)
(*   fields, files (afterwards), extra (names of files that weren't there  *)
(*   at the start), r (outcome), missing (names reported as not found;     *)
(*   only if asked = TRUE)                                                 *)
(***************************************************************************)
EXTENDS TraceBase, Replacer
VARIABLES h, i, files, extra, bad

C(n) == Histories[n].cfg
Range(q) == {q[j] : j \in DOMAIN q}
Targets(c, e) == IF e.op = "one" THEN {e.file} ELSE Range(c.scope)

Clauses(c, e) ==
    LET tg == Targets(c, e)
        refused == {f \in tg : Refused(files[f], e.fields)}
        seen == UNION {Scan(files[f], e.fields).seen : f \in tg}
        want == {e.fields[j].name : j \in DOMAIN e.fields} \ seen
    IN
    { <<"C19", "a file disappeared", DOMAIN e.files = DOMAIN files>>,
      <<"C19", "a file that was not to be touched", \A f \in DOMAIN files \ tg : f \in DOMAIN e.files => e.files[f] = files[f]>>,
      <<"C19", "a refused file was changed", \A f \in refused : f \in DOMAIN e.files => e.files[f] = files[f]>> }
    \cup
    (IF e.how = "plain" /\ refused = {} THEN
        { <<"C19", "outcome", e.r = "ok">>,
          <<"C19", "the new text", \A f \in tg : f \in DOMAIN e.files => Becomes(files[f], e.fields, e.files[f])>>,
          <<"C19", "files left behind", Range(e.extra) \subseteq extra>>,
          <<"C19", "names without blocks", ~e.asked \/ Range(e.missing) = want>> }
     ELSE
        { <<"C19", "neither old nor new", \A f \in tg : f \in DOMAIN e.files =>
                        e.files[f] = files[f] \/ Becomes(files[f], e.fields, e.files[f])>> }
        \cup (IF e.how # "plain" THEN {} ELSE
        { <<"C19", "refusing", e.r = "ValueError">>,
          <<"C19", "files left behind", Range(e.extra) \subseteq extra>> }))

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ files = C(h).files /\ extra = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1] IN
            /\ bad' = FailingHere(Clauses(C(h), e))
            /\ files' = e.files
            /\ extra' = Range(e.extra)
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
