---------------------------- MODULE ContainersGen ----------------------------
(* Every operation, with every argument of a small alphabet, from every      *)
(* state of small containers: TLC writes one history for each, to be         *)
(* replayed into the code.                                                   *)
EXTENDS Containers

Elems(kind) == IF kind = "num" THEN {<<0>>, <<1>>, <<2>>} ELSE {<<0, 1>>, <<1, 0>>, <<0, 2>>}
Absent(kind) == IF kind = "num" THEN <<5>> ELSE <<1, 2>>
Op(o, a, b, c, d) == [o |-> o, a |-> a, b |-> b, c |-> c, d |-> d]
\* an operation on element e
OpE(o, e, c, d) == Op(o, e[1], IF Len(e) = 2 THEN e[2] ELSE 0, c, d)
Op0(o) == Op(o, 0, 0, 0, 0)

Descriptions == {[fam |-> f, kind |-> k, cap |-> 3, key |-> "num"] : f \in {"var", "fix"}, k \in {"num", "pair", "rec"}}
           \cup {[fam |-> f, kind |-> "num", cap |-> 3, key |-> "num"] : f \in {"rev", "ring"}}
           \cup {[fam |-> "set", kind |-> "num", cap |-> 2, key |-> "num"],
                 [fam |-> "set", kind |-> "pair", cap |-> 3, key |-> "num"],
                 [fam |-> "map", kind |-> "num", cap |-> 2, key |-> "num"], [fam |-> "map", kind |-> "pair", cap |-> 3, key |-> "num"],
                 [fam |-> "map", kind |-> "num", cap |-> 2, key |-> "pair"]}

VARIABLES D, S, hist
vars == <<D, S, hist>>
View == <<D, S>>

\* ---- building: the shortest histories leading to every small state -----------------
Full(q) == Len(q) >= D.cap
Fixed == D.fam \in {"fix", "rev", "ring"}
Init == D \in Descriptions /\ hist = <<>> /\ S = [v |-> <<>>, w |-> <<>>]
Do(o, q) == hist' = Append(hist, o) /\ S' = V(S, q) /\ UNCHANGED D
Next ==
  IF D.fam \in {"var", "fix", "rev", "ring"}
  THEN \/ /\ ~Full(S.v) /\ S.w = <<>>
          /\ \E e \in Elems(D.kind) : Do(IF Fixed THEN OpE("set", e, Len(S.v), 0) ELSE OpE("app", e, 0, 0), Append(S.v, e))
       \/ /\ D.fam = "var" /\ Len(S.w) < 2
          /\ \E e \in Elems(D.kind) \ {<<2>>, <<0, 2>>} :
               hist' = Append(hist, OpE("wapp", e, 0, 0)) /\ S' = [S EXCEPT !.w = Append(@, e)] /\ UNCHANGED D
  ELSE IF D.fam = "set" THEN \E e \in Elems(D.kind) \ Range(S.v) : ~Full(S.v) /\ Do(OpE("add", e, 0, 0), Append(S.v, e))
  ELSE \E k \in Elems(D.key), x \in {3, 4} :
         LET o == OpE("put", k, x, x + 1)
         IN ~Full(S.v) /\ k \notin Keys(D, S.v) /\ Do(o, Append(S.v, k \o MapVal(D, o)))
Spec == Init /\ [][Next]_vars

\* ---- probing -----------------------------------------------------------------------
I == -(D.cap + 1)..(D.cap + 1)
Es == Elems(D.kind) \cup {Absent(D.kind)}
SeqCommon ==
  {Op0(o) : o \in {"imax", "imaxk", "max", "maxk", "sort", "sortr", "sortk", "sortkr", "rsort", "rev", "each", "riter", "shuf", "pick",
                   "nest", "size", "frac"}}
  \cup {Op(o, j, 0, 7, 0) : o \in {"get", "getu", "rget"} \cup (IF D.kind = "num" THEN {} ELSE {"poke"}), j \in I}
  \cup {OpE(o, e, 0, 0) : o \in {"has", "idx", "cnt", "lidx", "ridx"}, e \in Es}
  \cup {OpE(o, Absent(D.kind), j, 0) : o \in {"set", "setu", "rset"}, j \in I}
  \cup {OpE("idx1", e, j, 0) : e \in Elems(D.kind), j \in I}
  \cup {OpE("idx2", e, j, m) : e \in Elems(D.kind) \ {<<2>>, <<0, 2>>}, j \in {-2, -1, 0, 1, 2}, m \in I}
  \cup {Op("swap", j, m, 0, 0) : j \in -1..D.cap, m \in -1..D.cap} \cup {Op("swapu", j, m, 0, 0) : j \in 0..2, m \in 0..2}
  \cup {Op(o, j, 0, 0, 0) : o \in {"enum", "until"}, j \in {0, 1, 4}}
  \cup (IF D.kind = "num" THEN {} ELSE {Op(o, 3, 0, 0, 0) : o \in {"eachpoke", "rpoke"}})
Probes ==
  CASE D.fam = "var" ->
         (IF S.w # <<>> THEN {} ELSE
            SeqCommon \cup {Op0(o) : o \in {"extx", "exts", "pop", "clr", "self", "cpy", "eqx", "wapp"}}
            \cup {Op(o, j, 0, 0, 0) : o \in {"del", "popi", "appi"}, j \in I}
            \cup {OpE(o, e, 0, 0) : o \in {"app", "appu", "rem", "sadd", "srem"}, e \in Es}
            \cup {OpE("ins", Absent(D.kind), j, 0) : j \in I})
         \cup {Op0(o) : o \in {"ext", "iadd", "eq", "wcopy", "vcopy", "wclr"}}
    [] Fixed -> IF ~Full(S.v) THEN {} ELSE
         SeqCommon \cup {Op("seti", j, m, 0, 0) : j \in I, m \in {0, -1}}
         \cup (IF D.fam = "fix" THEN {Op0(o) : o \in {"wcopy", "self", "eq", "vcopy"}} ELSE {})
    [] D.fam = "set" -> {Op0(o) : o \in {"size", "clr", "cpy", "addall"}} \cup {OpE(o, e, 0, 0) : o \in {"add", "rem", "has"}, e \in Es}
    [] OTHER -> {Op0(o) : o \in {"size", "clr", "cpy", "keys", "iter", "vals", "evens"}}
                \cup {OpE(o, k, 8, 9) : o \in {"put", "get", "del", "pop", "has", "aug"}, k \in Elems(D.key) \cup {Absent(D.key)}}
\* a second element after the probe shows storage the first one left behind
Emit == \A o \in Probes : PrintT(<<"HIST", ToJson([D |-> D, ops |-> Append(hist, o), err |-> Fails(D, o, S)])>>)
\* the machine's own states are sets, maps and bounded sequences
Sane == /\ Len(S.v) <= D.cap /\ Len(S.w) <= D.cap
        /\ D.fam = "set" => Cardinality(Range(S.v)) = Len(S.v)
        /\ D.fam = "map" => Cardinality(Keys(D, S.v)) = Len(S.v)
=============================================================================
