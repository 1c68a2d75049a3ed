---- MODULE Files ----
(***************************************************************************)
(* Animations in memory and documents on disk.                             *)
(*                                                                         *)
(* State s:                                                                *)
(*   disk   function from the names of existing files to                   *)
(*          [fmt |-> "sif", "sifz", "sfg", "empty", "junk" or "broken",    *)
(*           c |-> content]                                                *)
(*   anim   function from animations to [c |-> content, file |-> name it   *)
(*          is tied to or "", fmt |-> the format of that file]             *)
(*                                                                         *)
(* Contents are tokens; a content is "writable" unless the configuration   *)
(* says that it can't be encoded.                                          *)
(*                                                                         *)
(* Configuration c: [ext |-> function from names to "sif", "sifz", "sfg"   *)
(* or "other"; blocked |-> set of names which can't be written or read     *)
(* (directories, names in missing directories, ...); full |-> set of names *)
(* whose contents can't be written; unwritable |-> set of contents]        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Writable(c, n) == n \notin c.blocked /\ n \notin c.full

Ok(s) == [s |-> s, r |-> "ok"]
No(s, r) == [s |-> s, r |-> r]

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

New(c, s, e) == Ok([s EXCEPT !.anim = Put(@, e.a, [c |-> e.c, file |-> "", fmt |-> "blank"])])

Open(c, s, e) ==
    IF e.n \in c.blocked \cup c.full THEN No(s, "raise")
    ELSE IF e.n \notin DOMAIN s.disk THEN No(s, "FileNotFoundError")
    ELSE LET f == s.disk[e.n] IN
         IF f.fmt \in {"empty", "junk", "sfg"} THEN No(s, "ValueError")
         ELSE IF f.fmt = "broken" THEN No(s, "raise")
         ELSE Ok([s EXCEPT !.anim = Put(@, e.a, [c |-> f.c, file |-> e.n, fmt |-> f.fmt])])

Edit(c, s, e) == Ok([s EXCEPT !.anim[e.a].c = e.c])

SaveAs(c, s, e) ==
    LET x == s.anim[e.a]
        f == c.ext[e.n]
    IN IF f = "other" THEN No(s, "ValueError")
       ELSE IF f = "sfg" THEN No(s, "raise")
       ELSE IF ~Writable(c, e.n) \/ x.c \in c.unwritable THEN No(s, "raise")
       ELSE Ok([disk |-> Put(s.disk, e.n, [fmt |-> f, c |-> x.c]),
                anim |-> [s.anim EXCEPT ![e.a].file = e.n, ![e.a].fmt = f]])

Save(c, s, e) ==
    LET x == s.anim[e.a]
    IN IF x.file = "" THEN No(s, "ValueError")
       ELSE IF ~Writable(c, x.file) \/ x.c \in c.unwritable THEN No(s, "raise")
       ELSE Ok([s EXCEPT !.disk = Put(@, x.file, [fmt |-> x.fmt, c |-> x.c])])

Apply(c, s, e) ==
    CASE e.op = "new" -> New(c, s, e)
      [] e.op = "open" -> Open(c, s, e)
      [] e.op = "edit" -> Edit(c, s, e)
      [] e.op = "saveas" -> SaveAs(c, s, e)
      [] e.op = "save" -> Save(c, s, e)
      [] e.op = "read" -> Ok(s)
      [] e.op = "remove" -> Ok([s EXCEPT !.disk = Del(@, e.n)])          \* by someone else
      [] e.op = "put" -> Ok([s EXCEPT !.disk = Put(@, e.n, [fmt |-> e.fmt, c |-> e.c])])

(* ---- laws ---- *)
Targets(c, s, e) ==       \* what an operation may write
    CASE e.op = "saveas" -> {e.n}
      [] e.op = "save" -> {s.anim[e.a].file}
      [] e.op \in {"remove", "put"} -> {e.n}
      [] OTHER -> {}

OnlyTargets(c, s, e) == LET t == Apply(c, s, e).s IN
    /\ \A n \in (DOMAIN s.disk \cup DOMAIN t.disk) \ Targets(c, s, e) :
          n \in DOMAIN s.disk /\ n \in DOMAIN t.disk /\ s.disk[n] = t.disk[n]
    /\ \A a \in DOMAIN s.anim : (IF "a" \in DOMAIN e THEN e.a = a ELSE FALSE) \/ t.anim[a] = s.anim[a]
====
