---- MODULE ColorMC ----
EXTENDS Color, TLC
VARIABLE b
Hex(n) == IF n < 10 THEN Digits[n+1] ELSE Lower[n-9]
HexU(n) == IF n < 10 THEN Digits[n+1] ELSE Upper[n-9]
Two(x) == <<Hex(x \div 16), Hex(x % 16)>>
TwoU(x) == <<HexU(x \div 16), HexU(x % 16)>>
N(s) == [k |-> "text", s |-> s]
Init == b = 0
Next == b < 255 /\ b' = b + 1
(* every byte, in every place: kept to six decimals it is still that byte *)
RoundTrip == Byte(Sixth(b)) = b /\ Clear(Sixth(b)) /\ \A x \in 0..255 : IsByteOf(x, Sixth(b)) => x = b
Notations == LET s == Two(b) \o Two(255-b) \o Two(b \div 2)
                 u == <<"#">> \o TwoU(b) \o TwoU(255-b) \o TwoU(b \div 2) \o TwoU(255)
                 t == [k |-> "tuple", c |-> <<Sixth(b), Sixth(255-b), Sixth(b \div 2)>>]
             IN /\ Denotes(N(s)) = Denotes(N(u))
                /\ Denotes(N(s)) = Denotes(t)
                /\ Denotes([k |-> "colour", n |-> N(s)]) = Denotes(N(s))
                /\ MustEqual(Denotes(N(s)), Denotes(t)) /\ ~MustDiffer(Denotes(N(s)), Denotes(t))
                /\ b < 255 => MustDiffer(Denotes(N(s)), Denotes(N(Two(b+1) \o Two(255-b) \o Two(b \div 2))))
Refuses == /\ ~Good(N(Two(b))) /\ ~Good(N(Two(b) \o Two(b) \o <<"g", "0">>)) /\ ~Good(N(<<"#", "#">> \o Two(b) \o Two(b) \o Two(b)))
           /\ Good(N(<<"#">> \o Two(b) \o Two(b) \o Two(b))) /\ ~Good([k |-> "tuple", c |-> <<b, b>>])
====
