------------------------------ MODULE Archetypes ------------------------------
(***************************************************************************)
(* Archetypes: what a project (classes with bases, fields, callbacks;      *)
(* global memory; resources; a level) means.                               *)
(*                                                                         *)
(* A project P is data.  P.cls[c] is class c: the mode it belongs to       *)
(* ("all" and "pw" are mixins), its bases (0 is the root archetype of its  *)
(* mode), its fields, its methods.  P.modes[m] lists the archetypes of     *)
(* mode m in the order of their ids.                                       *)
(*                                                                         *)
(* The place of every number of every field is not prescribed: a layout    *)
(* says it, and Layout conditions say when it is one.  Everything else     *)
(* follows: Run gives what a callback does to the world.                   *)
(*                                                                         *)
(* The world: cells (memory as the program sees it: those never written    *)
(* have the value Initial gives), the effects so far, exported values.     *)
(* Statements and expressions are described at Ev and Do.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Absent == -987654
Mod == 97
Modes == {"play", "watch", "preview"}
Limit == [imported |-> 32, exported |-> 32, memory |-> 64, shared |-> 32]
Storages == DOMAIN Limit
Values == {"spawn_order", "should_spawn", "spawn_time", "despawn_time", "update_spawn"}
Helpers == {"h0", "h1", "h2", "h3"}
Callbacks == [play |-> {"preprocess", "spawn_order", "should_spawn", "initialize", "update_sequential", "touch", "update_parallel", "terminate"},
              watch |-> {"preprocess", "spawn_time", "despawn_time", "initialize", "update_sequential", "update_parallel", "terminate"},
              preview |-> {"preprocess", "render"}]
Probe == [play |-> "initialize", watch |-> "initialize", preview |-> "render"]
Prefix == [play |-> "Play", watch |-> "Watch", preview |-> "Preview"]

B(x) == IF x THEN 1 ELSE 0
Range(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE FlatR(_, _)
FlatR(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatR(q, i + 1)
Flat(q) == FlatR(q, 1)
At(q, x) == IF x \in Range(q) THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0
Distinct(q) == Cardinality(Range(q)) = Len(q)
Has(r, k) == k \in DOMAIN r

\* ---- the order in which classes are searched: C3 ----------------------------
RECURSIVE Merge(_), Lin(_, _)
Merge(ss) ==
  LET q == SelectSeq(ss, LAMBDA s : s # <<>>)
      good(i) == \A j \in 1..Len(q) : Head(q[i]) \notin Range(Tail(q[j]))
      i == CHOOSE i \in 1..Len(q) : good(i) /\ \A j \in 1..(i - 1) : ~good(j)
      h == Head(q[i])
  IN IF q = <<>> THEN <<>>
     ELSE <<h>> \o Merge([j \in 1..Len(q) |-> IF Head(q[j]) = h THEN Tail(q[j]) ELSE q[j]])
Lin(P, c) == IF c = 0 THEN <<0>>
             ELSE LET b == P.cls[c].bases IN <<c>> \o Merge([i \in 1..Len(b) |-> Lin(P, b[i])] \o <<b>>)

\* the table of a project
Tab(P) ==
  LET mro == TLCEval([c \in 1..Len(P.cls) |-> TLCEval(Lin(P, c))])
      own(c, S(_)) == LET q == SelectSeq(mro[c], LAMBDA k : k # 0 /\ S(k)) IN IF q = <<>> THEN 0 ELSE q[1]
      key(c) == LET k == own(c, LAMBDA k : P.cls[k].key # Absent) IN IF k = 0 THEN -1 ELSE P.cls[k].key
      scored(c) == LET k == own(c, LAMBDA k : P.cls[k].scored >= 0) IN IF k = 0 THEN 0 ELSE P.cls[k].scored
      flds(c) == Flat([i \in 1..Len(mro[c]) |-> IF mro[c][i] = 0 THEN <<>> ELSE P.cls[mro[c][i]].fields])
  IN TLCEval([mro |-> mro,
              key |-> TLCEval([c \in 1..Len(P.cls) |-> key(c)]),
              scored |-> TLCEval([c \in 1..Len(P.cls) |-> scored(c)]),
              fields |-> TLCEval([c \in 1..Len(P.cls) |-> flds(c)])])
Field(T, c, n) == LET q == SelectSeq(T.fields[c], LAMBDA f : f.n = n) IN q[1]
NameOf(P, c) == IF P.cls[c].nm # "" THEN P.cls[c].nm ELSE "C" \o ToString(c)
IsA(T, c, k) == k \in Range(T.mro[c])
\* the class whose method m objects of class c use, searching from place `from` of the order; 0: nobody's
Def(P, T, c, m, from) ==
  LET q == SelectSeq(SubSeq(T.mro[c], from, Len(T.mro[c])), LAMBDA k : k # 0 /\ m \in DOMAIN P.cls[k].meths)
  IN IF q = <<>> THEN 0 ELSE q[1]
\* a callback the class's archetype must have; every class on the root archetype itself has the probe
Defined(P, T, c, m) == Def(P, T, c, m, 1) # 0 \/ m = Probe[P.cls[c].mode]
Order(P, T, c, m) == LET d == Def(P, T, c, m, 1) IN IF d = 0 \/ P.cls[d].meths[m].order = Absent THEN 0 ELSE P.cls[d].meths[m].order
Default(m) == IF m = "should_spawn" THEN 1 ELSE 0

\* ---- layouts ------------------------------------------------------------------
\* w maps the name of each field of an archetype to the cells of its numbers
Cells(T, c, w, st) == Flat([i \in 1..Len(T.fields[c]) |->
  LET f == T.fields[c][i] IN IF f.st = st THEN w[f.n] ELSE <<>>])
Whole(T, c, w) == /\ DOMAIN w = {f.n : f \in Range(T.fields[c])}
                  /\ \A f \in Range(T.fields[c]) : Len(w[f.n]) = f.np
InRange(T, c, w) == \A f \in Range(T.fields[c]) : \A x \in Range(w[f.n]) : x >= 0 /\ x < Limit[f.st]
Apart(T, c, w) == \A st \in Storages : Distinct(Cells(T, c, w, st))
\* all archetypes that have class k agree on where k's fields are
Agree(T, k, ws) == \A a, b \in DOMAIN ws : IsA(T, a, k) /\ IsA(T, b, k) =>
                      \A f \in Range(T.fields[k]) : ws[a][f.n] = ws[b][f.n]

\* ---- the world ----------------------------------------------------------------
Block == [play |-> [memory |-> 4000, imported |-> 4001, shared |-> 4002],
          watch |-> [memory |-> 4000, imported |-> 4001, shared |-> 4002],
          preview |-> [imported |-> 4000, shared |-> 4001]]
All == [play |-> [imported |-> 4101, shared |-> 4102], watch |-> [imported |-> 4101, shared |-> 4102],
        preview |-> [imported |-> 4100, shared |-> 4101]]
Glob == [play |-> [memory |-> 2000, data |-> 2001], watch |-> [memory |-> 2000, data |-> 2001],
         preview |-> [data |-> 2000], tutorial |-> [memory |-> 2000, data |-> 2001]]
One == [play |-> 4003, watch |-> 4003, preview |-> 4002, tutorial |-> -1]
Many == [play |-> 4103, watch |-> 4103, preview |-> 4102, tutorial |-> -1]
Stride == [play |-> 3, watch |-> 3, preview |-> 2, tutorial |-> 1]
OptBlock == [play |-> 2002, watch |-> 2002, preview |-> 2001]
Buckets == 2003
Text == 2002

\* X: [P, T, mode, mine (own archetype id), seed, lay (class -> field -> cells), globs, names, opts]
NArch(X) == IF X.mode = "tutorial" THEN 1 ELSE LET n == Len(X.P.modes[X.mode]) IN IF n = 0 THEN 1 ELSE n
Initial(X, b, i) ==
  IF b = One[X.mode] THEN <<X.seed % 8, X.mine, X.seed % 3>>[(i % 3) + 1]
  ELSE IF b = Many[X.mode]
       THEN LET e == i \div Stride[X.mode] IN <<e, (e * 5 + X.seed) % NArch(X), (e + X.seed) % 3>>[(i % Stride[X.mode]) + 1]
       ELSE (i * 13 + b * 7 + X.seed) % Mod
Get(X, W, b, i) == IF <<b, i>> \in DOMAIN W.mem THEN W.mem[<<b, i>>] ELSE Initial(X, b, i)
Put(W, b, i, v) == [W EXCEPT !.mem = (<<b, i>> :> v) @@ @]

\* ---- objects: [own, c, i]: the entity itself, or the one with index i seen as class c -----------
Self(c) == [own |-> TRUE, c |-> c, i |-> 0]
IndexOf(X, W, o) == IF o.own THEN Get(X, W, One[X.mode], 0) ELSE Get(X, W, Many[X.mode], o.i * Stride[X.mode])
IdOf(X, W, o) == IF o.own THEN Get(X, W, One[X.mode], 1) ELSE Get(X, W, Many[X.mode], o.i * Stride[X.mode] + 1)
ClassWithId(X, id) == X.P.modes[X.mode][id + 1]
\* where the k-th number (from 0) of a field of an object is
Place(X, o, n, k) ==
  LET f == Field(X.T, o.c, n)
      at == X.lay[o.c][n][k + 1]
  IN IF o.own THEN <<Block[X.mode][f.st], at>> ELSE <<All[X.mode][f.st], o.i * 32 + at>>
GPlace(X, g, n, k) ==
  LET G == CHOOSE G \in Range(X.P.globs) : G.n = g
  IN <<Glob[X.mode][G.kind], X.globs[g \o "." \o n][k + 1]>>
\* the entity with index i is one of class c (and no subclass)
IsAt(X, W, c, i, strict) ==
  IF i < 0 THEN FALSE
  ELSE LET d == ClassWithId(X, Get(X, W, Many[X.mode], i * Stride[X.mode] + 1))
       IN IF strict THEN d = c ELSE IsA(X.T, d, c)
IdIn(pairs, n) == LET i == CHOOSE i \in 1..Len(pairs) : pairs[i][1] = n IN pairs[i][2]

(* ---- expressions ---------------------------------------------------------------
   c k | v x | f object field component | g global field component | rom i e | idx/id/key/sc object
   | cid/ckey/csc class | isat class e strict | am self field class strict | opt i | bk i part | inf e
   | % e n | < | == | + | - | *
   component: <<k>> or <<base, stride, count, e>>;
   object: s | at class e | ref object field class | refas object field class                           *)
RECURSIVE Ev(_, _, _, _), Comp(_, _, _, _), ObjOf(_, _, _, _)
Comp(X, W, F, q) == IF Len(q) = 1 THEN q[1] ELSE q[1] + q[2] * (Ev(X, W, F, q[4]) % q[3])
ObjOf(X, W, F, e) ==
  CASE e[1] = "s" -> F.self
    [] e[1] = "at" -> [own |-> FALSE, c |-> e[2], i |-> Ev(X, W, F, e[3])]
    [] OTHER -> LET p == Place(X, ObjOf(X, W, F, e[2]), e[3], 0) IN [own |-> FALSE, c |-> e[4], i |-> Get(X, W, p[1], p[2])]
Ev(X, W, F, e) ==
  LET k == e[1] IN
  CASE k = "c" -> e[2]
    [] k = "v" -> F.vars[e[2]]
    [] k = "f" -> LET p == Place(X, ObjOf(X, W, F, e[2]), e[3], Comp(X, W, F, e[4])) IN Get(X, W, p[1], p[2])
    [] k = "g" -> LET p == GPlace(X, e[2], e[3], Comp(X, W, F, e[4])) IN Get(X, W, p[1], p[2])
    [] k = "rom" -> LET row == X.P.rom[e[2] + 1] IN row[(Ev(X, W, F, e[3]) % Len(row)) + 1]
    [] k = "idx" -> IndexOf(X, W, ObjOf(X, W, F, e[2]))
    [] k = "id" -> IdOf(X, W, ObjOf(X, W, F, e[2]))
    [] k = "key" -> X.T.key[ClassWithId(X, IdOf(X, W, ObjOf(X, W, F, e[2])))]
    [] k = "sc" -> X.T.scored[ClassWithId(X, IdOf(X, W, ObjOf(X, W, F, e[2])))]
    [] k = "cid" -> At(X.P.modes[X.mode], e[2]) - 1
    [] k = "ckey" -> X.T.key[e[2]]
    [] k = "csc" -> X.T.scored[e[2]]
    [] k = "isat" -> B(IsAt(X, W, e[2], Ev(X, W, F, e[3]), e[4] = 1))
    [] k = "am" -> LET p == Place(X, ObjOf(X, W, F, e[2]), e[3], 0) IN B(IsAt(X, W, e[4], Get(X, W, p[1], p[2]), e[5] = 1))
    [] k = "opt" -> LET o == X.P.opts[e[2] + 1]
                    IN IF X.mode = "tutorial" THEN (IF o.k = 0 THEN o.def ELSE o.def % 2)
                       ELSE Get(X, W, OptBlock[X.mode], IdIn(X.opts, IF o.name = "" THEN o.n ELSE o.name))
    [] k = "bk" -> Get(X, W, Buckets, 6 * IdIn(X.names.unit, "unit" \o ToString(e[2])) + e[3])
    [] k = "inf" -> 1
    [] k = "%" -> Ev(X, W, F, e[2]) % e[3]
    [] k = "<" -> B(Ev(X, W, F, e[2]) < Ev(X, W, F, e[3]))
    [] k = "==" -> B(Ev(X, W, F, e[2]) = Ev(X, W, F, e[3]))
    [] k = "+" -> Ev(X, W, F, e[2]) + Ev(X, W, F, e[3])
    [] k = "-" -> Ev(X, W, F, e[2]) - Ev(X, W, F, e[3])
    [] k = "*" -> (Ev(X, W, F, e[2]) * Ev(X, W, F, e[3])) % Mod
Vals(X, W, F, es) == [i \in 1..Len(es) |-> Ev(X, W, F, es[i]) % Mod]

(* ---- statements -----------------------------------------------------------------
   = x e | set object field component e | setr object field es | cpy object field object field
   | setg global field component e | exp field component e | expr field es | spawn class <<field, es>>s
   | if e then else | call x object method es | sup x method es | res kind i e | text i | ret e | log e
   F: [self, at (place of the method's class in the order), m, vars]; A: [W, F, done, ret]              *)
Note(W, kind, a, rest) == [W EXCEPT !.log = Append(@, <<kind, a, rest>>)]
RECURSIVE PutAll(_, _, _, _, _, _)
PutAll(X, W, o, n, vs, k) ==
  IF k > Len(vs) THEN W
  ELSE LET p == Place(X, o, n, k - 1) IN PutAll(X, Put(W, p[1], p[2], vs[k]), o, n, vs, k + 1)
ExportCells(X, o, n) == X.lay[o.c][n]
RECURSIVE ExportAll(_, _, _, _)
ExportAll(W, at, vs, k) ==
  IF k > Len(vs) THEN W ELSE ExportAll([W EXCEPT !.exp = (at[k] :> vs[k]) @@ @], at, vs, k + 1)
MemorySize(X, c) == LET RECURSIVE sum(_)
                        sum(i) == IF i > Len(X.T.fields[c]) THEN 0
                                  ELSE (IF X.T.fields[c][i].st = "memory" THEN X.T.fields[c][i].np ELSE 0) + sum(i + 1)
                    IN sum(1)
\* the private memory an entity starts with
SpawnArgs(X, c, given) ==
  LET at == [j \in 0..(MemorySize(X, c) - 1) |->
              {<<g, k>> \in {<<g, k>> \in (1..Len(given)) \X (1..64) : k <= Len(given[g][2])} :
                 X.lay[c][given[g][1]][k] = j}]
  IN [j \in 1..MemorySize(X, c) |-> IF at[j - 1] = {} THEN 0 ELSE LET x == CHOOSE x \in at[j - 1] : TRUE IN given[x[1]][2][x[2]]]

RECURSIVE Do(_, _, _), Block1(_, _, _, _), Call(_, _, _, _, _, _)
Block1(X, A, b, i) == IF i > Len(b) \/ A.done THEN A ELSE Block1(X, Do(X, A, b[i]), b, i + 1)
\* [W, ret]: method m of object o found from place `from` on
Call(X, W, o, m, args, from) ==
  LET d == Def(X.P, X.T, o.c, m, from)
      M == X.P.cls[d].meths[m]
      F == [self |-> o, at |-> At(X.T.mro[o.c], d), m |-> m,
            vars |-> [x \in Range(M.params) |-> args[At(M.params, x)]]]
      A == Block1(X, [W |-> W, F |-> F, done |-> FALSE, ret |-> Absent], M.body, 1)
  IN IF d = 0 THEN [W |-> W, ret |-> Default(m)] ELSE [W |-> A.W, ret |-> A.ret]
Bind(A, x, v) == [A EXCEPT !.F.vars = (x :> v) @@ @]
Do(X, A, s) ==
  LET W == A.W
      F == A.F
      k == s[1]
      ev(e) == Ev(X, W, F, e) % Mod
      ob(e) == ObjOf(X, W, F, e)
  IN
  CASE k = "=" -> Bind(A, s[2], ev(s[3]))
    [] k = "set" -> LET p == Place(X, ob(s[2]), s[3], Comp(X, W, F, s[4])) IN [A EXCEPT !.W = Put(W, p[1], p[2], ev(s[5]))]
    [] k = "setr" -> [A EXCEPT !.W = PutAll(X, W, ob(s[2]), s[3], Vals(X, W, F, s[4]), 1)]
    [] k = "cpy" -> LET o == ob(s[4])
                        vs == [i \in 1..Field(X.T, o.c, s[5]).np |-> LET p == Place(X, o, s[5], i - 1) IN Get(X, W, p[1], p[2])]
                    IN [A EXCEPT !.W = PutAll(X, W, ob(s[2]), s[3], vs, 1)]
    [] k = "setg" -> LET p == GPlace(X, s[2], s[3], Comp(X, W, F, s[4])) IN [A EXCEPT !.W = Put(W, p[1], p[2], ev(s[5]))]
    [] k = "exp" -> [A EXCEPT !.W = ExportAll(W, <<ExportCells(X, F.self, s[2])[s[3][1] + 1]>>, <<ev(s[4])>>, 1)]
    [] k = "expr" -> [A EXCEPT !.W = ExportAll(W, ExportCells(X, F.self, s[2]), Vals(X, W, F, s[3]), 1)]
    [] k = "spawn" -> [A EXCEPT !.W = Note(W, "spawn", At(X.P.modes[X.mode], s[2]) - 1,
                          SpawnArgs(X, s[2], [i \in 1..Len(s[3]) |-> <<s[3][i][1], Vals(X, W, F, s[3][i][2])>>]))]
    [] k = "if" -> IF Ev(X, W, F, s[2]) # 0 THEN Block1(X, A, s[3], 1) ELSE Block1(X, A, s[4], 1)
    [] k \in {"call", "sup"} ->
         LET o == IF k = "call" THEN ob(s[3]) ELSE F.self
             m == IF k = "call" THEN s[4] ELSE s[3]
             r == Call(X, W, o, m, Vals(X, W, F, IF k = "call" THEN s[5] ELSE s[4]), IF k = "call" THEN 1 ELSE F.at + 1)
             A1 == [A EXCEPT !.W = r.W]
         IN IF s[2] # "" /\ (m \in Helpers \/ m \in Values) THEN Bind(A1, s[2], r.ret % Mod) ELSE A1
    [] k = "res" -> LET R == X.P.res[s[2]][s[3] + 1]
                        n == R.names[(IF R.group = 0 THEN 0 ELSE Ev(X, W, F, s[4]) % R.group) + 1]
                    IN [A EXCEPT !.W = Note(W, s[2], IdIn(X.names[s[2]], n), <<>>)]
    [] k = "text" -> [A EXCEPT !.W = Put(W, Text, 0, IdIn(X.names.text, "#" \o X.P.texts[s[2] + 1]))]
    [] k = "ret" -> [A EXCEPT !.done = TRUE, !.ret = ev(s[2])]
    [] k = "log" -> [A EXCEPT !.W = Note(W, "log", Ev(X, W, F, s[2]), <<>>)]

\* one callback of the archetype of class c (0: a global one): the world after it and what it returns
Fresh(W) == [W EXCEPT !.log = <<>>, !.exp = <<>>]
Start == [mem |-> <<>>, log |-> <<>>, exp |-> <<>>]
Run(X, W, c, m) ==
  IF c # 0 THEN Call(X, Fresh(W), Self(c), m, <<>>, 1)
  ELSE LET M == IF m = "update_spawn" THEN X.P.spawn ELSE X.P.tut[m]
           A == Block1(X, [W |-> Fresh(W), F |-> [self |-> Self(0), at |-> 0, m |-> m, vars |-> <<>>], done |-> FALSE, ret |-> Absent], M.body, 1)
       IN [W |-> A.W, ret |-> A.ret]
Changed(X, W) == {<<p[1], p[2], W.mem[p]>> : p \in {p \in DOMAIN W.mem : W.mem[p] # Initial(X, p[1], p[2])}}
=============================================================================
