---- MODULE FilesTrace ----
(***************************************************************************)
(* Judges recorded histories against Files.tla.  After each call the event *)
(* records what is in each file (decoded without the library) and what is  *)
(* in each animation; contents are identified by comparing canonical forms *)
(* (elements in order, attributes, text).                                  *)
(***************************************************************************)
EXTENDS TraceBase, Files, SequencesExt

VARIABLES h, i, s, bad

C(n) == LET f == Histories[n].cfg IN
        [ext |-> f.ext, blocked |-> ToSet(f.blocked), full |-> ToSet(f.full), unwritable |-> ToSet(f.unwritable)]

S0(n) == [disk |-> Histories[n].cfg.disk, anim |-> [x \in {} |-> 0]]

SameOutcome(want, got) == CASE want = "ok" -> got = "ok" [] want = "raise" -> got # "ok" [] OTHER -> got = want

Misnamed(c, x) == c.ext[x.file] # x.fmt     \* the format a plain save uses isn't specified

Clauses(c, e, a, p) ==
    LET q == a.s
        d == e.disk
        failed == a.r # "ok"
        tgt == Targets(c, p, e)
        touched == IF failed THEN {} ELSE tgt
        loose == e.op = "save" /\ p.anim[e.a].file # "" /\ Misnamed(c, p.anim[e.a])
    IN { <<"C02", "outcome of the call", SameOutcome(a.r, e.r)>>,
         <<"C02", "a failed call, or one which doesn't save, created or removed a file", 
              tgt = {} \/ failed => DOMAIN d = DOMAIN q.disk>>,
         <<"C02", "the files are not the expected ones", DOMAIN d = DOMAIN q.disk>>,
         <<"C02", "a file which was not the target changed",
              \A x \in DOMAIN q.disk \ touched : x \in DOMAIN d => d[x] = q.disk[x]>>,
         <<"C02", "the file saved is not in the format of its name",
              loose \/ \A x \in DOMAIN q.disk \cap touched : x \in DOMAIN d => d[x].fmt = q.disk[x].fmt>>,
         <<"C02", "the file saved does not have the contents of the animation",
              \A x \in DOMAIN q.disk \cap touched : x \in DOMAIN d => d[x].c = q.disk[x].c>>,
         <<"C02", "a failed call changed an animation", failed => \A x \in DOMAIN q.anim : e.anim[x] = q.anim[x].c>>,
         <<"C02", "saving changed an animation", \A x \in DOMAIN q.anim : e.op # "open" => e.anim[x] = q.anim[x].c>>,
         \* nothing is lost
         <<"C01", "opening or reading changed a file", e.op \in {"open", "read", "new"} =>
              \A x \in DOMAIN q.disk : x \in DOMAIN d /\ d[x] = q.disk[x] /\ e.bytes>>,
         <<"C01", "the document in memory is not the one in the file",
              e.op = "open" /\ e.r = "ok" => e.anim[e.a] = q.anim[e.a].c>>,
         <<"C01", "a document could not be opened", e.op = "open" /\ a.r = "ok" => e.r = "ok">>,
         <<"C01", "a document could not be saved", e.op \in {"save", "saveas"} /\ a.r = "ok" => e.r = "ok">>,
         <<"C01", "the file saved is not the document opened",
              \A x \in DOMAIN q.disk \cap touched : x \in DOMAIN d /\ d[x].c = q.disk[x].c>>,
         <<"C01", "reading changed the document", e.op = "read" => \A x \in DOMAIN q.anim : e.anim[x] = q.anim[x].c>> }

(* a plain save of a misnamed file: whichever format it used *)
Adjust(c, e, p, q) ==
    IF e.op = "save" /\ p.anim[e.a].file # "" /\ Misnamed(c, p.anim[e.a])
       /\ p.anim[e.a].file \in DOMAIN e.disk /\ e.disk[p.anim[e.a].file].fmt \in {"sif", "sifz"}
       /\ p.anim[e.a].file \in DOMAIN q.disk
    THEN [q EXCEPT !.disk[p.anim[e.a].file].fmt = e.disk[p.anim[e.a].file].fmt]
    ELSE q

TInit == h \in 1..Len(Histories) /\ i = 0 /\ s = S0(h) /\ bad = {}
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                a == Apply(C(h), s, e)
            IN /\ s' = Adjust(C(h), e, s, a.s)
               /\ bad' = Failing(Clauses(C(h), e, a, s))
               /\ Noted(bad', h, i)
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
