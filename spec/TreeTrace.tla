---- MODULE TreeTrace ----
(***************************************************************************)
(* Judges recorded histories against Tree.tla.  After each call the event  *)
(* records, for every container, what the interface says it contains in    *)
(* each of the ways it can be asked, and what the document tree contains;  *)
(* and for every layer, what it says its parent is.                        *)
(***************************************************************************)
EXTENDS TraceBase, Tree, SequencesExt

VARIABLES h, i, s, bad

C(n) == LET f == Histories[n].cfg IN
        [anims |-> ToSet(f.anims), groups |-> ToSet(f.groups), leaves |-> ToSet(f.leaves)]

Clauses(c, e, a, q, p) ==
    UNION { LET o == e.obs[k] IN
       { <<"C10", "children are not the expected ones", o.children = q[k]>>,
         <<"C10", "iteration disagrees", o.iter = q[k]>>,
         <<"C10", "indexing disagrees", o.index = q[k]>>,
         <<"C10", "negative indexing disagrees", o.negative = q[k]>>,
         <<"C10", "length disagrees", o.len = Len(q[k])>>,
         <<"C10", "an index out of range was accepted", o.beyond = "IndexError" /\ o.before = "IndexError">>,
         <<"C10", "the document does not list the children in reverse", o.xml = Backwards(q[k])>>,
         <<"C10", "a group's canvas value does not list the layers as the document does", o.canvas = Backwards(q[k])>>,
         <<"C10", "header items are not before the layers, as they were", o.header>> }
       : k \in DOMAIN q }
    \cup { <<"C10", "parent is not the container", \A x \in Layers(c) :
              e.parents[x] = (IF Home(q, x) \in c.groups THEN Home(q, x) ELSE "none")>>,
           <<"C10", "layer's tag is not where the layer is", \A x \in Layers(c) : e.tags[x] = Home(q, x)>>,
           <<"C10", "layers below are not the expected ones", \A k \in DOMAIN q : e.all[k] = Preorder(q, k)>>,
           <<"C10", "a layer's own contents have changed", e.altered = <<>> >>,
           <<"C10", "outcome of the call", e.r \in a.r>> }

TInit == /\ h \in 1..Len(Histories)
         /\ i = 0
         /\ s = Histories[h].cfg.kids
         /\ bad = {}

TNext == /\ i < Len(Histories[h].ev)
         /\ bad = {}
         /\ LET e == Histories[h].ev[i+1]
                a == Apply(C(h), s, e)
            IN /\ s' = a.s
               /\ bad' = Failing(Clauses(C(h), e, a, a.s, s))
               /\ Noted(bad', h, i)
         /\ i' = i+1
         /\ UNCHANGED h

Conforms == \A b \in bad : b[1] # IOEnv.PROP
====
