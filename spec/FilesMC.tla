---- MODULE FilesMC ----
EXTENDS Files, TLC, Json
CONSTANTS Anims, Emitting, MaxEdits
VARIABLES s, n

c == [ext |-> [x \in {"p.sif", "q.sifz", "r.txt", "t.sfg", "dir.sif"} |->
                 CASE x = "p.sif" -> "sif" [] x = "q.sifz" -> "sifz" [] x = "r.txt" -> "other"
                   [] x = "t.sfg" -> "sfg" [] x = "dir.sif" -> "sif"],
      blocked |-> {"dir.sif"}, full |-> {}, unwritable |-> {"u"}]
Names == DOMAIN c.ext
Ops == { [op |-> "open", a |-> a, n |-> x] : a \in Anims, x \in Names }
  \cup { [op |-> "saveas", a |-> a, n |-> x] : a \in Anims, x \in Names }
  \cup { [op |-> "save", a |-> a] : a \in Anims }
  \cup { [op |-> "edit", a |-> a, c |-> x] : a \in Anims, x \in {"e1", "u"} }
  \cup { [op |-> "new", a |-> a, c |-> "blank"] : a \in Anims }
  \cup { [op |-> "remove", n |-> x] : x \in {"p.sif"} }

Init == /\ s = [disk |-> [x \in {"p.sif"} |-> [fmt |-> "sif", c |-> "d1"]],
                anim |-> [a \in Anims |-> [c |-> "blank", file |-> "", fmt |-> "blank"]]]
        /\ n = 0
Next == \E e \in Ops : LET r == Apply(c, s, e) IN
    /\ (e.op = "remove" => e.n \in DOMAIN s.disk)
    /\ s' = r.s /\ n' = n
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> s, e |-> e, q |-> r.s])>>)

(* files never hold what can't be written; extensions and formats agree
   for files which were saved by name *)
Sane == \A x \in DOMAIN s.disk : s.disk[x].c # "u" /\ s.disk[x].fmt = c.ext[x]
Steps == \A e \in Ops : (e.op = "remove" => e.n \in DOMAIN s.disk) =>
    LET r == Apply(c, s, e) IN
    /\ OnlyTargets(c, s, e)
    /\ r.r # "ok" => r.s = s
    /\ e.op = "saveas" /\ r.r = "ok" =>
         /\ r.s.disk[e.n].c = s.anim[e.a].c
         /\ Apply(c, r.s, [op |-> "save", a |-> e.a]).s = r.s       \* a plain save writes it again
         /\ Apply(c, r.s, [op |-> "open", a |-> e.a, n |-> e.n]).s = r.s
====
