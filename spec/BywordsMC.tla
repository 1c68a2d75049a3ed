---- MODULE BywordsMC ----
(* Every small group and line: the laws of bywords. *)
EXTENDS Bywords, TLC, Json
CONSTANT Emitting
VARIABLES g, line, letters

Descs == { <<"a">>, <<" ", "a", "B">>, <<"c", " ", "d", "!">>, <<" ", ".", " ">>, <<>>, <<" ">>, <<"a", " ", " ", "b", "\n">> }
Groups == { <<[id |-> 1, desc |-> x]>> : x \in Descs } \cup { <<[id |-> 1, desc |-> x], [id |-> 2, desc |-> y]>> : x \in Descs, y \in Descs }
(* texts that match, in another spelling, and texts that do not *)
RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<"-">> ELSE (IF Len(Head(ws)) > 1 THEN <<"A">> \o Tail(Head(ws)) ELSE Head(ws)) \o <<",", " ">> \o Joined(Tail(ws))
Texts(gr) == { Joined(GroupWords(Shown(gr))), <<"a">>, <<"a", " ", "b">> }
Init == /\ g \in Groups
        /\ \E t \in Texts(g) : line \in {[start |-> s, dur |-> d, text |-> t] : s \in {0, 500, 3600500}, d \in {0, 10, 1000}}
        /\ letters \in BOOLEAN
        /\ Emitting => PrintT(<<"EMIT", ToJson([g |-> g, line |-> line, letters |-> letters])>>)
Next == UNCHANGED <<g, line, letters>>

Laws ==
    Matches(g, line) =>
    LET w == Shows(g, line, letters)
        Of(id) == SelectSeq(w, LAMBDA x : x.id = id)
        D(id) == LET s == Shown(g) IN s[CHOOSE j \in DOMAIN s : s[j].id = id].desc
    IN /\ w # <<>> /\ w[1].at = At(line.start, 0)
       /\ \A j \in DOMAIN w : ~Sooner(w[j].at, At(line.start, 0)) /\ (Sooner(w[j].at, At(line.start + line.dur, 0)) \/ line.dur = 0)
       /\ \A j \in 1..Len(w)-1 : ~Sooner(w[j+1].at, w[j].at) /\ (line.dur > 0 => Sooner(w[j].at, w[j+1].at))
       /\ \A id \in {w[j].id : j \in DOMAIN w} : LET q == Of(id) IN
            /\ \A j \in 1..Len(q)-1 : Len(q[j].text) < Len(q[j+1].text) /\ q[j].text = SubSeq(q[j+1].text, 1, Len(q[j].text))
            /\ Words(q[Len(q)].text) = Words(D(id))       \* no word is dropped
            /\ ~letters => \A j \in 1..Len(q) : Len(Words(q[j].text)) <= j
            /\ LET f == Timeline(g, <<line>>, letters, id) IN
                 /\ line.start > 0 => f[At(0, 0)] = <<>>
                 /\ f[Ordered(DOMAIN f)[Cardinality(DOMAIN f)]] = q[Len(q)].text
       /\ {w[j].id : j \in DOMAIN w} = Rewritten(<<g>>, <<line>>)
Other == (MatchedBy(<<g>>, line) = {}) <=> (Unmatched(<<g>>, <<line>>) = <<Words(line.text)>>)
====
