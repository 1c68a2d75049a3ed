---- MODULE ViewsTrace ----
(***************************************************************************)
(* Judges recorded histories against Views.tla.  Every event holds, for    *)
(* some of the layers and animations, what the interface says about their  *)
(* parameters, and the parameters whose contents the call has changed.     *)
(* A parameter is identified by the element of the document that the value *)
(* came from.  c.blank: the layers with parameters that have no value.     *)
(* The events "vector", "parts" and "expr" look at a single value.         *)
(***************************************************************************)
EXTENDS TraceBase, Views, Values

VARIABLES h, i, s, bad

C(n) == LET f == Histories[n].cfg IN [own |-> f.own, roots |-> Range(f.roots), blank |-> Range(f.blank)]

Layer(c, t, l, o) ==
    LET q == Own(c, l)
        all == All(c, t, l)
        found == [n \in DOMAIN o.has |-> FirstOf(q, all, n)] IN
    { <<"C23", "the parameters in the document are not those there were", o.xml = Keys(c, l)>>,
      <<"C23", "keys", o.keys = Keys(c, l)>>,
      <<"C23", "values", l \notin c.blank => o.values = q>>,
      <<"C23", "items", l \notin c.blank => o.items = [j \in DOMAIN q |-> <<q[j][2], q[j]>>]>>,
      <<"C23", "whether a name is in a layer", \A n \in DOMAIN o.has : o.has[n] = (found[n] # <<"none">>)>>,
      <<"C23", "subscript", \A n \in DOMAIN o.sub :
            o.sub[n] = (IF found[n] # <<"none">> THEN found[n] ELSE <<"KeyError">>)>> }

Near(x, y) == x.k = "n" /\ y.k = "n" /\ Within(x, y, Ten)
Pair(q, v) == Len(q) = 2 /\ Near(q[1], v.x) /\ Near(q[2], v.y)
Vector(o, v) ==
    { <<"C23", "length of a vector", o.len = 2>>,
      <<"C23", "keys of a vector", o.keys = <<"x", "y">>>>,
      <<"C23", "values of a vector", Pair(o.values, v)>>,
      <<"C23", "items of a vector", Pair(o.items, v) /\ o.names = <<"x", "y">>>>,
      <<"C23", "iterating over a vector", Pair(o.iter, v)>>,
      <<"C23", "a vector as a tuple", Pair(o.tuple, v)>>,
      <<"C23", "coordinates of a vector by name", Pair(o.sub, v) /\ Pair(o.attr, v) /\ Pair(o.get, v)>>,
      <<"C23", "coordinates of a vector by position", \A j \in 1..Len(o.at) :
            LET p == At(2, o.at[j].j) IN
            IF p = 0 THEN o.at[j].v.k = "!" ELSE Near(o.at[j].v, IF p = 1 THEN v.x ELSE v.y)>>,
      <<"C23", "a vector without such a coordinate", o.miss = <<"KeyError", "AttributeError", "None", "7">>>> }

PartNames == {"offset", "angle", "skew_angle", "scale"}
Parts(o) ==
    { <<"C23", "length of a transformation", o.len = 4>>,
      <<"C23", "keys of a transformation", Len(o.keys) = 4 /\ Range(o.keys) = PartNames /\ o.keys = o.xml>>,
      <<"C23", "values of a transformation", o.values = o.keys>>,
      <<"C23", "items of a transformation", o.items = [j \in DOMAIN o.keys |-> <<o.keys[j], o.keys[j]>>]>>,
      <<"C23", "parts of a transformation by name", \A n \in PartNames : o.sub[n] = n /\ o.attr[n] = n /\ o.get[n] = n>>,
      <<"C23", "a transformation without such a part", o.miss = <<"KeyError", "AttributeError", "None", "7">>>> }

Clauses(c, e, a) ==
    UNION { Layer(c, a.s, l, e.obs[l]) : l \in DOMAIN e.obs }
    \cup (IF e.op = "vector" THEN Vector(e.o, e.v) ELSE {})
    \cup (IF e.op = "parts" THEN Parts(e.o) ELSE {})
    \cup (IF e.op = "expr" THEN
            { <<"C23", "the Python expression of a value does not recreate it",
                Len(e.got) = Len(e.want) /\ \A j \in DOMAIN e.want : Same(e.want[j], e.got[j])>> } ELSE {})
    \cup { <<"C23", "outcome of the call", IF a.r = "refused" THEN e.r # "ok" ELSE e.r = a.r>>,
           <<"C23", "another parameter has changed", Range(e.changed) \subseteq a.hit>> }

TInit == /\ h \in 1..Len(Histories) /\ i = 0 /\ bad = {}
         /\ s = Histories[h].cfg.start
TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                a == Step(C(h), s, e)
            IN /\ s' = a.s
               /\ bad' = Failing(Clauses(C(h), e, a))
         /\ i' = i+1
         /\ UNCHANGED h
Conforms == bad = {}
====
