---- MODULE Search ----
(***************************************************************************)
(* Searching a document for layers.                                        *)
(*                                                                         *)
(* A document is a sequence of layers in file order (each before those     *)
(* inside it).  A layer is a record                                        *)
(*    par   the index of the layer it is in, 0 at the top level            *)
(*    type  its type, as the document spells it: a sequence of characters  *)
(*    at    its attributes and parameters: a function from names to tokens *)
(*                                                                         *)
(* A query is a record                                                     *)
(*    from  where to start: an index, or 0 for the animation               *)
(*    rec   whether to look below the immediate children                   *)
(*    types sequence of [f |-> "name" or "class", n |-> characters]        *)
(*    crit  sequence of [k |-> name, v |-> token]                          *)
(*    special "none", "true", "false" or "call"; sel: what a callable      *)
(*          selects                                                        *)
(*    fault "none", or what is wrong with the arguments                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Upper == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z">>
LowerOf(ch) == IF \E j \in DOMAIN Upper : Upper[j] = ch
               THEN Lower[CHOOSE j \in DOMAIN Upper : Upper[j] = ch] ELSE ch
Norm(cs) == LET low == [j \in DOMAIN cs |-> LowerOf(cs[j])]
            IN SelectSeq(low, LAMBDA ch : ch # "_")

BaseClass == <<"l","a","y","e","r">>      \* the class of all layers

TypeMatches(d, j, t) ==
    \/ t.f = "class" /\ Norm(t.n) = BaseClass
    \/ Norm(d[j].type) = Norm(t.n)

CritMatches(d, j, c) == c.k \in DOMAIN d[j].at /\ d[j].at[c.k] = c.v

SpecialMatches(q, j) ==
    CASE q.special = "false" -> FALSE
      [] q.special = "call" -> \E n \in DOMAIN q.sel : q.sel[n] = j
      [] OTHER -> TRUE

RECURSIVE IsBelow(_, _, _)
IsBelow(d, j, k) ==      \* layer j is inside k
    IF d[j].par = k THEN TRUE
    ELSE IF d[j].par = 0 THEN FALSE ELSE IsBelow(d, d[j].par, k)

Considered(d, q, j) == IF q.rec THEN IsBelow(d, j, q.from) ELSE d[j].par = q.from

Matches(d, q, j) ==
    /\ Considered(d, q, j)
    /\ \A n \in DOMAIN q.types : TypeMatches(d, j, q.types[n])
    /\ \A n \in DOMAIN q.crit : CritMatches(d, j, q.crit[n])
    /\ SpecialMatches(q, j)

(* ---- what may happen to the document between searches ------------------ *)
(* The layers whose indices are in q, in that order *)
Reordered(d, q) == [n \in DOMAIN q |-> [d[q[n]] EXCEPT !.par = IF @ = 0 THEN 0 ELSE CHOOSE m \in DOMAIN q : q[m] = @]]
Inside(d, j, k) == j = k \/ IsBelow(d, j, k)
Edited(d, e) ==
    CASE e.op = "find" -> d
      [] e.op = "set"  -> [d EXCEPT ![e.j].at = [k \in DOMAIN @ \cup {e.k} |-> IF k = e.k THEN e.v ELSE @[k]]]
      (* a new layer at the top level comes first in the file *)
      [] e.op = "put"  -> <<e.l>> \o [j \in DOMAIN d |-> [d[j] EXCEPT !.par = IF @ = 0 THEN 0 ELSE @ + 1]]
      (* so does one which is moved there, with everything in it *)
      [] e.op = "move" -> LET seq == [j \in 1..Len(d) |-> j]
                              top == [d EXCEPT ![e.j].par = 0]
                          IN Reordered(top, SelectSeq(seq, LAMBDA j : Inside(d, j, e.j))
                                            \o SelectSeq(seq, LAMBDA j : ~Inside(d, j, e.j)))

All(d) == [j \in 1..Len(d) |-> j]
Found(d, q) == SelectSeq(All(d), LAMBDA j : Matches(d, q, j))

Outcomes(q) ==
    CASE q.fault = "none" -> {"ok"}
      [] q.fault \in {"two positional", "type twice", "attrs twice", "type in attrs twice"} -> {"ValueError"}
      [] q.fault = "not a criterion" -> {"TypeError"}
====
