---- MODULE Replacer ----
(***************************************************************************)
(* Replacing the blocks of generated code in source files (C19).           *)
(*                                                                         *)
(* A file is a sequence of lines [t |-> characters, nl |-> line ending].   *)
(* Fields are a sequence of [name |-> characters, lines |-> <<text>>].     *)
(***************************************************************************)
EXTENDS Chars, FiniteSets

NameSet == LowerSet \cup {UpperAZ[j] : j \in 1..26} \cup DigitSet \cup {"_"}
OpenMark  == <<"#", "#", "#", " ", "{", "{", "{">>
CloseMark == <<"#", "#", "#", " ", "}", "}", "}">>
ClassWord == <<"c", "l", "a", "s", "s", " ">>

RECURSIVE Skip(_, _)        \* the first position from j on that isn't a space
Skip(t, j) == IF j <= Len(t) /\ t[j] = " " THEN Skip(t, j+1) ELSE j
RECURSIVE NameEnd(_, _)
NameEnd(t, j) == IF j <= Len(t) /\ t[j] \in NameSet THEN NameEnd(t, j+1) ELSE j
NameAt(t, j) == SubSeq(t, j, NameEnd(t, j) - 1)
Has(t, j, w) == j + Len(w) - 1 <= Len(t) /\ SubSeq(t, j, j + Len(w) - 1) = w

Kind(t) ==
    LET n == Skip(t, 1) IN
    IF Has(t, n, OpenMark) THEN [k |-> "open", indent |-> n-1, name |-> NameAt(t, Skip(t, n+7))]
    ELSE IF Has(t, n, CloseMark) THEN [k |-> "close", indent |-> n-1, name |-> <<>>]
    ELSE IF Has(t, 1, ClassWord) /\ NameAt(t, 7) # <<>> THEN [k |-> "class", indent |-> 0, name |-> NameAt(t, 7)]
    ELSE [k |-> "other", indent |-> 0, name |-> <<>>]

White(ch) == ch \in {" ", "\t", "\n", "\r"}
RECURSIVE RTrim(_)
RTrim(t) == IF t # <<>> /\ White(t[Len(t)]) THEN RTrim(SubSeq(t, 1, Len(t)-1)) ELSE t
RECURSIVE LTrim(_)
LTrim(t) == IF t # <<>> /\ White(t[1]) THEN LTrim(Tail(t)) ELSE t
Spaces(n) == [j \in 1..n |-> " "]

Named(fields, name) == \E j \in DOMAIN fields : fields[j].name = name
TextFor(fields, name) == LET j == CHOOSE k \in DOMAIN fields : fields[k].name = name IN fields[j].lines

(* Where the scanner is: the latest class name not yet used, the block it
   is in (<<>>: none), the indentation of that block, whether its body is
   being replaced, what comes out, the names of the blocks, whether any was
   replaced, and whether the file is to be refused.  Each line that comes
   out says how it came about: as it was, given, or a closing marker. *)
Start == [cls |-> <<>>, blk |-> <<>>, indent |-> 0, away |-> FALSE, out |-> <<>>, seen |-> {}, changed |-> FALSE, bad |-> FALSE]
Step(s, l, fields) ==
    LET k == Kind(l.t)
        same == Append(s.out, [t |-> l.t, nl |-> l.nl, how |-> "same"])
    IN
    IF k.k = "open" THEN
        LET name == IF k.name # <<>> THEN k.name ELSE s.cls IN
        IF s.blk # <<>> \/ name = <<>> THEN [s EXCEPT !.bad = TRUE]
        ELSE LET hit == Named(fields, name)
                 given == IF ~hit THEN <<>> ELSE
                          [j \in DOMAIN TextFor(fields, name) |->
                              [t |-> RTrim(Spaces(k.indent) \o TextFor(fields, name)[j]), nl |-> "\n", how |-> "given"]]
             IN [s EXCEPT !.blk = name, !.indent = k.indent, !.away = hit, !.seen = @ \cup {name},
                          !.cls = IF k.name = <<>> THEN <<>> ELSE @,
                          !.changed = @ \/ hit, !.out = same \o given]
    ELSE IF k.k = "close" THEN
        IF s.blk = <<>> THEN [s EXCEPT !.bad = TRUE]
        ELSE [s EXCEPT !.blk = <<>>, !.away = FALSE,
                       !.out = Append(@, [t |-> Spaces(s.indent) \o RTrim(LTrim(l.t)), nl |-> "\n", how |-> "close"])]
    ELSE IF s.away THEN s
    ELSE [s EXCEPT !.out = same, !.cls = IF k.k = "class" THEN k.name ELSE @]

RECURSIVE Fold(_, _, _, _)
Fold(s, lines, j, fields) == IF j > Len(lines) \/ s.bad THEN s ELSE Fold(Step(s, lines[j], fields), lines, j+1, fields)
Scan(lines, fields) == LET s == Fold(Start, lines, 1, fields) IN [s EXCEPT !.bad = @ \/ s.blk # <<>>]

Refused(lines, fields) == fields # <<>> /\ Scan(lines, fields).bad
Bare(out) == [j \in DOMAIN out |-> [t |-> out[j].t, nl |-> out[j].nl]]

(* Is `got' what comes of `lines'?  How the given lines and the closing
   markers end is left open. *)
LineOK(g, w) == CASE w.how = "same"  -> g.t = w.t /\ g.nl = w.nl
                  [] w.how = "given" -> RTrim(g.t) = w.t
                  [] w.how = "close" -> RTrim(g.t) = w.t
Becomes(lines, fields, got) ==
    LET s == Scan(lines, fields) IN
    \/ got = lines /\ (~s.changed \/ s.bad \/ fields = <<>>)
    \/ /\ ~s.bad /\ fields # <<>>
       /\ Len(got) = Len(s.out) /\ \A j \in DOMAIN got : LineOK(got[j], s.out[j])
New(lines, fields) == IF fields = <<>> \/ Scan(lines, fields).bad \/ ~Scan(lines, fields).changed THEN lines ELSE Bare(Scan(lines, fields).out)
====
