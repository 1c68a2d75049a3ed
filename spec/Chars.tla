---- MODULE Chars ----
(* Characters are strings of length one; texts are sequences of them. *)
EXTENDS Integers, Sequences
UpperAZ == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerAZ == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
IsUpper(ch) == \E j \in 1..26 : UpperAZ[j] = ch
LowerOf(ch) == IF IsUpper(ch) THEN LowerAZ[CHOOSE j \in 1..26 : UpperAZ[j] = ch] ELSE ch
LowerSet == {LowerAZ[j] : j \in 1..26}
DigitSet == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
IsSpace(ch) == ch \in {" ", "\t", "\n"}
====
