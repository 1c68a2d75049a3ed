---- MODULE Color ----
(***************************************************************************)
(* What a colour notation denotes.                                         *)
(*                                                                         *)
(* A notation is                                                           *)
(*   [k |-> "text", s |-> sequence of characters]                          *)
(*   [k |-> "tuple", c |-> sequence of components, in millionths;          *)
(*                   a component that is not a number is Bad]              *)
(*   [k |-> "colour", n |-> the notation from which another colour was     *)
(*                   made]                                                 *)
(*   [k |-> "value"] a value of another kind (its refusal may also be a    *)
(*                   TypeError)                                            *)
(*   [k |-> "other"] anything else                                         *)
(* It denotes four components, each [lo, hi]: the millionths that may be   *)
(* stored for it.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences

Mil == 1000000
Bad == -999999999
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
Lower == <<"a", "b", "c", "d", "e", "f">>
Upper == <<"A", "B", "C", "D", "E", "F">>
IsHex(ch) == \E j \in 1..10 : Digits[j] = ch \/ (j <= 6 /\ (Lower[j] = ch \/ Upper[j] = ch))
HexValue(ch) == CHOOSE n \in 0..15 :
    IF n < 10 THEN Digits[n+1] = ch ELSE Lower[n-9] = ch \/ Upper[n-9] = ch

Body(s) == IF s # <<>> /\ s[1] = "#" THEN SubSeq(s, 2, Len(s)) ELSE s
HexText(s) == Len(Body(s)) \in {6, 8} /\ \A j \in 1..Len(Body(s)) : IsHex(Body(s)[j])
Bytes(s) == LET b == Body(s) IN
    [j \in 1..4 |-> IF 2*j <= Len(b) THEN 16 * HexValue(b[2*j-1]) + HexValue(b[2*j]) ELSE 255]

(* a byte out of 255, to six decimals *)
Sixth(b) == (b * Mil * 2 + 255) \div 510
RECURSIVE Good(_)
Good(n) == CASE n.k = "text" -> HexText(n.s)
             [] n.k = "tuple" -> Len(n.c) \in {3, 4} /\ \A j \in DOMAIN n.c : n.c[j] # Bad
             [] n.k = "colour" -> Good(n.n)
             [] OTHER -> FALSE
RECURSIVE Denotes(_)
Denotes(n) == CASE n.k = "text" -> [j \in 1..4 |-> Sixth(Bytes(n.s)[j])]
                [] n.k = "tuple" -> [j \in 1..4 |-> IF j <= Len(n.c) THEN n.c[j] ELSE Mil]
                [] n.k = "colour" -> Denotes(n.n)

(* the hex byte of a component: either neighbour if it lies half way *)
Dist(m, b) == LET d == 255 * m - b * Mil IN IF d < 0 THEN -d ELSE d
IsByteOf(b, m) == 2 * Dist(m, b) <= Mil
(* colours whose components all lie well within a byte *)
Byte(m) == CHOOSE b \in 0..255 : IsByteOf(b, m)
Clear(m) == \E b \in 0..255 : Dist(m, b) < Mil \div 4

(* equality is to a 255th: the same if the bytes are, different if some
   component is further away than one could round *)
MustEqual(c, d) == \A j \in 1..4 : c[j] = d[j] \/ (Clear(c[j]) /\ Clear(d[j]) /\ Byte(c[j]) = Byte(d[j]))
MustDiffer(c, d) == \E j \in 1..4 : Clear(c[j]) /\ Clear(d[j]) /\ Byte(c[j]) # Byte(d[j])
====
