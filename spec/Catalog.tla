---- MODULE Catalog ----
(***************************************************************************)
(* Layers of every type (C15): what a new one has, how the names of types  *)
(* resolve, and that layers do not affect one another.                     *)
(*                                                                         *)
(* The state maps each living layer to [t |-> type, p |-> parameter name   *)
(* -> kind and value, as text].                                            *)
(***************************************************************************)
EXTENDS CatalogData, Chars, FiniteSets

Types == DOMAIN Catalog
ParamNames(t) == {Catalog[t].params[j].name : j \in DOMAIN Catalog[t].params}
DefaultOf(t, n) == Catalog[t].params[CHOOSE j \in DOMAIN Catalog[t].params : Catalog[t].params[j].name = n].def
BaseOf(t, n) == IF n \in ParamNames(t)
                THEN Catalog[t].params[CHOOSE j \in DOMAIN Catalog[t].params : Catalog[t].params[j].name = n].base ELSE n
NewLayer(t) == [t |-> t, p |-> [n \in ParamNames(t) |-> DefaultOf(t, n)]]

(* names are the same if they differ only in case and underscores *)
RECURSIVE Key(_)
Key(q) == IF q = <<>> THEN <<>> ELSE (IF Head(q) = "_" THEN <<>> ELSE <<LowerOf(Head(q))>>) \o Key(Tail(q))
Named(q) == LET k == Key(q) IN {t \in Types : Catalog[t].key = k}

(* operations: make (a new layer x of type t), set (parameter n of x) and
   reload; the others only look *)
Apply(s, e) ==
    CASE e.op = "make" -> [y \in DOMAIN s \cup {e.x} |-> IF y = e.x THEN NewLayer(e.t) ELSE s[y]]
      [] e.op = "set" -> [s EXCEPT ![e.x].p[e.n] = e.v]
      [] OTHER -> s
====
