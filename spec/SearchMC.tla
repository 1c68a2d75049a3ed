---- MODULE SearchMC ----
(***************************************************************************)
(* The laws of Search.tla over all small documents; the documents are      *)
(* exported for replay.                                                    *)
(***************************************************************************)
EXTENDS Search, TLC, Json

CONSTANTS MaxLayers, Emitting

Types == { <<"g","r","o","u","p">>, <<"C","i","r","_","c","l","e">>, <<"t","e","x","t">> }
Ats == { [desc |-> "a", amount |-> "1"], [amount |-> "2"], [desc |-> "b"] }

VARIABLE d

IsGroup(j) == Norm(d[j].type) = <<"g","r","o","u","p">>

Init == d = <<>>
Next == /\ Len(d) < MaxLayers
        /\ \E t \in Types, a \in Ats, p \in 0..Len(d) :
             \* the new layer goes into p, which is the last layer or contains it
             /\ IF p = 0 THEN TRUE ELSE IsGroup(p)
             /\ IF p \in {0, Len(d)} THEN TRUE ELSE IsBelow(d, Len(d), p)
             /\ d' = Append(d, [par |-> p, type |-> t, at |-> a])
             /\ Emitting => PrintT(<<"EMIT", ToJson(d')>>)

Q(f, r, ts, cs, sp) == [from |-> f, rec |-> r, types |-> ts, crit |-> cs, special |-> sp, sel |-> <<1, 3>>, fault |-> "none"]
T1 == [f |-> "name", n |-> <<"T","E","X","T">>]
T2 == [f |-> "class", n |-> <<"C","i","r","c","l","e">>]
AnyT == [f |-> "class", n |-> <<"L","a","y","e","r">>]
C1 == [k |-> "desc", v |-> "a"]
C2 == [k |-> "amount", v |-> "1"]

Set(q) == {q[j] : j \in DOMAIN q}

Laws == \A f \in 0..Len(d), r \in BOOLEAN :
    LET all == Found(d, Q(f, r, <<>>, <<>>, "true"))
        F(ts, cs, sp) == Found(d, Q(f, r, ts, cs, sp))
    IN /\ \A a, b \in DOMAIN all : a < b => all[a] < all[b]         \* once, in file order
       /\ F(<<AnyT>>, <<>>, "none") = all
       /\ F(<<>>, <<>>, "false") = <<>>
       /\ Set(F(<<T1>>, <<C1, C2>>, "none")) =
            Set(F(<<T1>>, <<>>, "none")) \cap Set(F(<<>>, <<C1>>, "none")) \cap Set(F(<<>>, <<C2>>, "none"))
       /\ Set(F(<<T2>>, <<>>, "call")) = Set(F(<<T2>>, <<>>, "none")) \cap {1, 3}
       /\ Set(Found(d, Q(f, TRUE, <<>>, <<>>, "true"))) =
            UNION {{j} \cup Set(Found(d, Q(j, TRUE, <<>>, <<>>, "true"))) : j \in Set(Found(d, Q(f, FALSE, <<>>, <<>>, "true")))}
       /\ f = 0 => Len(Found(d, Q(0, TRUE, <<>>, <<>>, "true"))) = Len(d)

(* changes to the document keep it a document in file order, and a search of what was moved or added finds it *)
FileOrder(x) == \A j \in DOMAIN x : /\ x[j].par < j
                                    /\ \A k \in 1..j-1 : IsBelow(x, j, k) => \A m \in k+1..j : IsBelow(x, m, k)
Edits == LET new == [par |-> 0, type |-> <<"t","e","x","t">>, at |-> [desc |-> "z"]]
             e == Edited(d, [op |-> "put", l |-> new])
         IN /\ FileOrder(d) /\ FileOrder(e) /\ Len(e) = Len(d)+1
            /\ Found(e, Q(0, FALSE, <<>>, <<[k |-> "desc", v |-> "z"]>>, "none")) = <<1>>
            /\ \A j \in DOMAIN d :
                 LET m == Edited(d, [op |-> "move", j |-> j])
                     s == Edited(d, [op |-> "set", j |-> j, k |-> "desc", v |-> "z"])
                 IN /\ FileOrder(m) /\ Len(m) = Len(d)
                    /\ m[1].par = 0 /\ m[1].at = d[j].at
                    /\ Len(Found(m, Q(1, TRUE, <<>>, <<>>, "true"))) = Len(Found(d, Q(j, TRUE, <<>>, <<>>, "true")))
                    /\ Found(s, Q(0, TRUE, <<>>, <<[k |-> "desc", v |-> "z"]>>, "none")) = <<j>>
====
