---- MODULE TimeSpec ----
(***************************************************************************)
(* What time specifications denote (C12), how times compare (C13) and how  *)
(* they are printed (C14).                                                 *)
(*                                                                         *)
(* A specification is                                                      *)
(*   [f |-> "parts", neg, ps]  text: a sequence of parts [u, n], where u   *)
(*                 is one of h m s f and n is a fixed-point number; neg    *)
(*                 says that it begins with a minus sign; inneg, that the  *)
(*                 frame part has one of its own                           *)
(*   [f |-> "num", n]   a number of frames                                 *)
(*   [f |-> "junk"]     text which is not a time specification             *)
(* A document is [fps (in thousandths), begin, end] (the last two being    *)
(* specifications).                                                        *)
(***************************************************************************)
EXTENDS Fixed, FiniteSets

UnitOf(ps) == {ps[j].u : j \in DOMAIN ps}
Repeated(ps) == Cardinality(UnitOf(ps)) # Len(ps)
HasSeconds(ps) == UnitOf(ps) \cap {"h", "m", "s"} # {}
AllZero(ps) == \A j \in DOMAIN ps : ps[j].n = Zero

InSeconds(p) == CASE p.u = "h" -> Mul6(Mul6(p.n, 60), 60)
                  [] p.u = "m" -> Mul6(p.n, 60)
                  [] p.u = "s" -> p.n

RECURSIVE Sum(_, _)
Sum(ps, fps) ==
    IF ps = <<>> THEN Zero
    ELSE Add6(Sum(SubSeq(ps, 1, Len(ps)-1), fps),
              LET p == ps[Len(ps)] IN
              IF p.u = "f" THEN p.n ELSE MulMilli(InSeconds(p), fps))

Bad == [ok |-> FALSE, fr |-> Zero]
Good(x) == [ok |-> TRUE, fr |-> x]

(* text: [ok, fr]; fps is 0 if it is not known *)
DenoteText(sp, fps) ==
    IF sp.f = "junk" \/ sp.ps = <<>> \/ Repeated(sp.ps) THEN Bad
    ELSE IF sp.inneg /\ HasSeconds(sp.ps) THEN Bad
    ELSE IF sp.neg /\ sp.ps[1].u = "f" /\ sp.ps[1].n # Zero /\ HasSeconds(sp.ps) THEN Bad
    ELSE IF HasSeconds(sp.ps) /\ ~AllZero(sp.ps) /\ fps = 0 THEN Bad
    ELSE Good(IF sp.neg \/ sp.inneg THEN Neg6(Sum(sp.ps, fps)) ELSE Sum(sp.ps, fps))

Duration(doc) ==    \* including both the first and the last frame
    Add6(Int6(1), Sub6(DenoteText(doc.end, doc.fps).fr, DenoteText(doc.begin, doc.fps).fr))

(* hasref: whether the specification is read in the context of the document *)
Denote(sp, doc, hasref) ==
    IF sp.f # "num" THEN DenoteText(sp, IF hasref THEN doc.fps ELSE 0)
    ELSE IF ~Lt6(sp.n, Zero) THEN Good(sp.n)
    ELSE IF ~hasref THEN Bad
    ELSE Good(Add6(Duration(doc), sp.n))

(***************************************************************************)
(* Printing: the whole parts of |x|, largest first, then the frames.       *)
(***************************************************************************)
(* how many whole seconds there are in x frames, and the frames left over *)
RECURSIVE WholeSeconds(_, _, _)
WholeSeconds(x, fps, guess) ==
    LET used == MulMilli(Int6(guess), fps)
        left == Sub6(x, used)
    IN IF Lt6(left, Zero) THEN WholeSeconds(x, fps, guess-1)
       ELSE IF Le6(MulMilli(Int6(1), fps), left) THEN WholeSeconds(x, fps, guess+1)
       ELSE [secs |-> guess, left |-> left]

Guess(x, fps) == IF x[1] < 20000000 THEN (x[1] * 100) \div (fps \div 10)
                 ELSE (x[1] * 10) \div (fps \div 100)

Parts(x, fps) ==      \* of a time of x frames, x not negative
    LET sl == IF fps = 0 THEN [secs |-> 0, left |-> x]
              ELSE WholeSeconds(x, fps, Guess(x, fps))
        hh == sl.secs \div 3600
        mm == (sl.secs % 3600) \div 60
        ss == sl.secs % 60
        W(u, n) == IF n = 0 THEN <<>> ELSE <<[u |-> u, n |-> Int6(n)]>>
        big == W("h", hh) \o W("m", mm) \o W("s", ss)
    IN IF sl.left # Zero \/ big = <<>> THEN big \o <<[u |-> "f", n |-> sl.left]>> ELSE big

Printed(x, fps) == [f |-> "parts", neg |-> Lt6(x, Zero), inneg |-> FALSE,
                  ps |-> Parts(Abs6(x), fps)]

(***************************************************************************)
(* Comparison.  A comparand is [n, fps, isT]; fps = 0 when not known.      *)
(***************************************************************************)
Comparable(a, b) == \/ ~a.isT \/ ~b.isT
                    \/ a.fps = 0 \/ b.fps = 0 \/ a.fps = b.fps
                    \/ a.n = Zero \/ b.n = Zero
Relation(a, b) == IF ~Comparable(a, b) THEN "error"
                  ELSE IF a.n = b.n THEN "eq"
                  ELSE IF Lt6(a.n, b.n) THEN "lt" ELSE "gt"
====
