---- MODULE CatalogMC ----
EXTENDS Catalog, TLC, Json
CONSTANTS Some, Ids, Emitting
VARIABLE s

Values == [real |-> "real 2.5", integer |-> "integer 3", bool |-> "bool false", color |-> "color c0,0.25,0.5,1",
           vector |-> "vector xx=1.5;y=-2", angle |-> "angle 45", string |-> "string shello"]
KindOf(t, n) == Catalog[t].params[CHOOSE j \in DOMAIN Catalog[t].params : Catalog[t].params[j].name = n].kind
(* a few parameters are enough in the model *)
Few(t) == {Catalog[t].params[j].name : j \in {1, Len(Catalog[t].params)}}
Ops == { [op |-> "make", x |-> x, t |-> t] : x \in Ids, t \in Some }
    \cup { [op |-> "set", x |-> x, n |-> n, v |-> Values[KindOf(s[x].t, n)]] : x \in DOMAIN s, n \in {"z_depth"} }
    \cup UNION { { [op |-> "set", x |-> x, n |-> n, v |-> Values[KindOf(s[x].t, n)]] : n \in Few(s[x].t) } : x \in DOMAIN s }
    \cup { [op |-> "reload"] }
Init == s = <<>>
(* in print, a layer is its type and the parameters which have been changed *)
Brief(q) == [x \in DOMAIN q |-> <<q[x].t, {<<n, q[x].p[n]>> : n \in {m \in DOMAIN q[x].p : q[x].p[m] # DefaultOf(q[x].t, m)}}>>]
Next == \E e \in Ops : LET t == Apply(s, e) IN
    /\ s' = t
    /\ Emitting => PrintT(<<"EMIT", ToJson([p |-> ToString(Brief(s)), e |-> e, q |-> ToString(Brief(t))])>>)
Independent == \A e \in Ops : LET t == Apply(s, e) IN
    /\ \A y \in DOMAIN s : (e.op = "reload" \/ y # e.x) => t[y] = s[y]
    /\ e.op = "make" => t[e.x] = NewLayer(e.t)
    /\ e.op = "set" => /\ t[e.x].p[e.n] = e.v
                       /\ \A n \in DOMAIN s[e.x].p \ {e.n} : t[e.x].p[n] = s[e.x].p[n]
    /\ \A y \in DOMAIN t : DOMAIN t[y].p = ParamNames(t[y].t)
(* of the catalogue *)
ASSUME Emitting => PrintT(<<"EMIT", ToJson([catalog |-> Catalog])>>)
ASSUME \A t \in Types : /\ Named(Catalog[t].key) = {t}
                        /\ Cardinality(ParamNames(t)) = Len(Catalog[t].params)
                        /\ ParamNames(t) \cap Catalog[t].todo = {}
                        /\ \A j \in DOMAIN Catalog[t].params : Catalog[t].params[j].kind \in
                             {"real", "integer", "bool", "angle", "time", "color", "vector", "string", "gradient", "composite", "canvas"}
ASSUME Named(<<"C", "i", "_", "R", "C", "l", "E", "_">>) = {"T_circle"} /\ Named(<<"c", "i", "r", "c", "l">>) = {} /\ Named(<<>>) = {}
====
