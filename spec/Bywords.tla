---- MODULE Bywords ----
(***************************************************************************)
(* What bywords does (C16, C17).                                           *)
(*                                                                         *)
(* A group is the sequence of the descriptions of its text layers in       *)
(* reading order: [id, desc (characters; <<>> if it has none)].            *)
(* A line of the subtitles is [start, dur (milliseconds), text].           *)
(***************************************************************************)
EXTENDS Chars, FiniteSets

(* the words of a text: letters and digits, without regard to case *)
RECURSIVE WordsFrom(_, _, _, _)
WordsFrom(q, j, word, out) ==
    IF j > Len(q) THEN (IF word = <<>> THEN out ELSE Append(out, word))
    ELSE LET ch == LowerOf(q[j]) IN
         IF IsSpace(ch) THEN WordsFrom(q, j+1, <<>>, IF word = <<>> THEN out ELSE Append(out, word))
         ELSE IF ch \in LowerSet \cup DigitSet THEN WordsFrom(q, j+1, Append(word, ch), out)
         ELSE WordsFrom(q, j+1, word, out)
Words(q) == WordsFrom(q, 1, <<>>, <<>>)

Blank(q) == \A j \in DOMAIN q : IsSpace(q[j])
Shown(g) == SelectSeq(g, LAMBDA l : ~Blank(l.desc))
RECURSIVE GroupWords(_)
GroupWords(g) == IF g = <<>> THEN <<>> ELSE Words(Head(g).desc) \o GroupWords(Tail(g))
Matches(g, line) == GroupWords(Shown(g)) # <<>> /\ GroupWords(Shown(g)) = Words(line.text)

(* where the pieces of a text end, and how many characters they have:
   words, or letters *)
Ends(q, letters) == SelectSeq([j \in 1..Len(q) |-> j],
    LAMBDA j : ~IsSpace(q[j]) /\ (letters \/ j = Len(q) \/ IsSpace(q[j+1])))
RunLength(q, j) ==
    LET RECURSIVE Back(_)
        Back(k) == IF k = 0 \/ IsSpace(q[k]) THEN 0 ELSE 1 + Back(k-1)
    IN Back(j)
Size(q, j, letters) == IF letters THEN 1 ELSE RunLength(q, j)

(* every piece of a group, in order: [id, text, size] *)
RECURSIVE Pieces(_, _)
Pieces(g, letters) ==
    IF g = <<>> THEN <<>>
    ELSE LET l == Head(g)
             es == Ends(l.desc, letters)
         IN [k \in DOMAIN es |-> [id |-> l.id, text |-> SubSeq(l.desc, 1, es[k]), size |-> Size(l.desc, es[k], letters)]]
            \o Pieces(Tail(g), letters)

RECURSIVE Sizes(_, _)
Sizes(ps, n) == IF n = 0 THEN 0 ELSE ps[n].size + Sizes(ps, n-1)

(* <<seconds, microseconds>>: the start, and then in proportion to what went before *)
At(ms, us) == <<ms \div 1000, (ms % 1000) * 1000 + us>>
Sooner(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
DueAt(line, before, total) ==
    LET x == before * line.dur IN
    At(line.start + (x \div total), ((x % total) * 1000) \div total)

(* what a matching line shows: [id, at, text] *)
Shows(g, line, letters) ==
    LET ps == Pieces(Shown(g), letters)
        total == Sizes(ps, Len(ps))
    IN [k \in DOMAIN ps |-> [id |-> ps[k].id, at |-> DueAt(line, Sizes(ps, k-1), total), text |-> ps[k].text]]

(* the timeline of layer id after the lines: instant -> text; of two texts at
   the same instant the later one counts *)
RECURSIVE Put(_, _, _)
Put(f, ws, id) ==
    IF ws = <<>> THEN f
    ELSE Put(IF Head(ws).id # id THEN f
             ELSE [t \in DOMAIN f \cup {Head(ws).at} |-> IF t = Head(ws).at THEN Head(ws).text ELSE f[t]], Tail(ws), id)
RECURSIVE AfterLines(_, _, _, _, _)
AfterLines(f, g, lines, letters, id) ==
    IF lines = <<>> THEN f
    ELSE AfterLines(IF Matches(g, Head(lines)) THEN Put(f, Shows(g, Head(lines), letters), id) ELSE f, g, Tail(lines), letters, id)
Timeline(g, lines, letters, id) == AfterLines([t \in {At(0, 0)} |-> <<>>], g, lines, letters, id)

RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : ~Sooner(y, x) IN <<m>> \o Ordered(S \ {m})
Listing(f) == LET ts == Ordered(DOMAIN f) IN [j \in DOMAIN ts |-> [at |-> ts[j], text |-> f[ts[j]]]]

MatchedBy(groups, line) == {n \in DOMAIN groups : Matches(groups[n], line)}
Unmatched(groups, lines) == LET q == SelectSeq(lines, LAMBDA l : MatchedBy(groups, l) = {}) IN [j \in DOMAIN q |-> Words(q[j].text)]
(* the layers which are rewritten *)
Rewritten(groups, lines) ==
    UNION { {Shown(groups[n])[j].id : j \in DOMAIN Shown(groups[n])} :
            n \in {m \in DOMAIN groups : \E k \in DOMAIN lines : Matches(groups[m], lines[k])} }
====
