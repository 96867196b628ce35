----------------------------- MODULE ArchetypesGen -----------------------------
(* Hierarchies being written, class by class, with a layout that gives each    *)
(* class's new fields the cells after those of its archetype parent.  TLC      *)
(* checks that this is a layout for every hierarchy and lists the hierarchies; *)
(* they are declared with the code and its layouts judged by ArchetypesTrace.  *)
EXTENDS Archetypes

CONSTANTS MaxMixins, MaxArchetypes
VARIABLES cls, lay
vars == <<cls, lay>>

Kinds == {<<"imported", 1>>, <<"memory", 2>>, <<"shared", 3>>, <<"exported", 1>>}
OfMixin == {<<k>> : k \in Kinds \ {<<"exported", 1>>}}
OfArchetype == {<<>>, <<<<"memory", 1>>>>, <<<<"imported", 3>>, <<"shared", 1>>>>, <<<<"memory", 2>>, <<"exported", 2>>, <<"memory", 1>>>>}
Mixins == {c \in 1..Len(cls) : ~cls[c].a}
Archetypes_ == {c \in 1..Len(cls) : cls[c].a}
P == [cls |-> [c \in 1..Len(cls) |-> [bases |-> cls[c].b]]]

\* Python takes the bases only if the orders of their ancestors agree
RECURSIVE Agreeing(_)
Agreeing(ss) ==
  LET q == SelectSeq(ss, LAMBDA s : s # <<>>)
      ok(i) == \A j \in 1..Len(q) : Head(q[i]) \notin Range(Tail(q[j]))
  IN q = <<>> \/ \E i \in 1..Len(q) : /\ ok(i) /\ \A j \in 1..(i - 1) : ~ok(j)
                                      /\ Agreeing([j \in 1..Len(q) |-> IF Head(q[j]) = Head(q[i]) THEN Tail(q[j]) ELSE q[j]])
Takes(b) == Agreeing([i \in 1..Len(b) |-> Lin(P, b[i])] \o <<b>>)

\* [class, number of the field, number of the cell] -> cell, per storage, in order of allocation
RECURSIVE New(_, _)
New(mro, old) == IF mro = <<>> THEN <<>>
                 ELSE (IF Head(mro) \in old THEN <<>> ELSE <<Head(mro)>>) \o New(Tail(mro), old)
Allocate(order, from, st) ==
  LET all == Flat([i \in 1..Len(order) |->
               Flat([j \in 1..Len(cls'[order[i]].f) |-> IF cls'[order[i]].f[j][1] = st
                                                       THEN [n \in 1..cls'[order[i]].f[j][2] |-> <<order[i], j, n>>] ELSE <<>>])])
  IN from \o all
Layout(c) ==
  LET P1 == [cls |-> [x \in 1..Len(cls') |-> [bases |-> cls'[x].b]]]
      mro == SelectSeq(Lin(P1, c), LAMBDA x : x # 0)
      parents == {b \in Range(cls'[c].b) : b # 0 /\ cls'[b].a}
      parent == IF parents = {} THEN 0 ELSE CHOOSE b \in parents : TRUE
      old == IF parent = 0 THEN {} ELSE Range(Lin(P1, parent))
      order == New(mro, old)
  IN [st \in Storages |-> Allocate(order, IF parent = 0 THEN <<>> ELSE lay[parent][st], st)]

Init == cls = <<>> /\ lay = <<>>
Add(k) == cls' = Append(cls, k) /\ lay' = Append(lay, Layout(Len(cls) + 1))
Mixin == /\ Archetypes_ = {} /\ Len(cls) < MaxMixins
         /\ \E f \in OfMixin, b \in {<<>>} \cup {<<m>> : m \in Mixins} : Add([a |-> FALSE, b |-> b, f |-> f])
Choices == {<<>>} \cup {<<m>> : m \in Mixins} \cup {<<m, n>> : m, n \in Mixins}
Archetype ==
  /\ Cardinality(Archetypes_) < MaxArchetypes
  /\ \E base \in {0} \cup Archetypes_, ms \in Choices, f \in OfArchetype, last \in BOOLEAN :
       LET b == IF last THEN ms \o <<base>> ELSE <<base>> \o ms
       IN (last => ms # <<>>) /\ Distinct(b) /\ Takes(b) /\ Add([a |-> TRUE, b |-> b, f |-> f])
Next == Mixin \/ Archetype
Spec == Init /\ [][Next]_vars

\* what a layout must be, for those made here
Sound ==
  \A c \in Archetypes_ :
    LET mro == Range(Lin(P, c)) \ {0} IN
    \A st \in Storages :
      /\ Distinct(lay[c][st])
      /\ Range(lay[c][st]) = UNION {UNION {{<<x, j, n>> : n \in 1..cls[x].f[j][2]} : j \in {j \in 1..Len(cls[x].f) : cls[x].f[j][1] = st}} : x \in mro}
      /\ \A p \in mro \cap Archetypes_ : SubSeq(lay[c][st], 1, Len(lay[p][st])) = lay[p][st]
Show == Cardinality(Archetypes_) = MaxArchetypes => PrintT(<<"HIST", ToJson(cls)>>)
=============================================================================
