------------------------------ MODULE Containers ------------------------------
(***************************************************************************)
(* The containers as the mathematical objects they model: bounded          *)
(* sequences (VarArray, Array and views of them), sets (ArraySet), finite  *)
(* maps (ArrayMap), constant sets and maps (literals, FrozenNumSet), and   *)
(* linked lists of entities.                                               *)
(*                                                                         *)
(* Ok(D, o, S, out, T): operation o on state S of a container described by *)
(* D may show out and leave T.  Where the documentation leaves something   *)
(* open (the order a removal leaves, which of several equal elements, a    *)
(* shuffle) several T are allowed.  Fails(D, o, S): the operation must be  *)
(* reported as an error.                                                   *)
(*                                                                         *)
(* An element is the sequence of its cells.  A state is [v, w]; of a map,  *)
(* v is a sequence of entries (key cells, then value cells) in no          *)
(* particular order.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* ---- sequences ---------------------------------------------------------------
RECURSIVE FlatR(_, _)
FlatR(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o FlatR(q, i + 1)
Flat(q) == FlatR(q, 1)
Chop(q, w) == [i \in 1..(Len(q) \div w) |-> SubSeq(q, (i - 1) * w + 1, i * w)]
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Drop(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Ins(q, i, e) == SubSeq(q, 1, i - 1) \o <<e>> \o SubSeq(q, i, Len(q))
Range(q) == {q[i] : i \in 1..Len(q)}
Count(q, e) == Cardinality({i \in 1..Len(q) : q[i] = e})
Perm(p, q) == Len(p) = Len(q) /\ \A e \in Range(p) \cup Range(q) : Count(p, e) = Count(q, e)
B(x) == IF x THEN 1 ELSE 0
MinOf(X) == CHOOSE x \in X : \A y \in X : x <= y
MaxOf(X) == CHOOSE x \in X : \A y \in X : x >= y
\* first index (from 0) in [lo, hi), or -1
First(q, e, lo, hi) == LET X == {i \in lo..(hi - 1) : i >= 0 /\ i < Len(q) /\ q[i + 1] = e} IN IF X = {} THEN -1 ELSE MinOf(X)
Last(q, e) == LET X == {i \in 1..Len(q) : q[i] = e} IN IF X = {} THEN -1 ELSE MaxOf(X) - 1

\* ---- orders ------------------------------------------------------------------
Lt(kind, x, y) == x[1] < y[1] \/ (kind = "pair" /\ x[1] = y[1] /\ x[2] < y[2])
Key(x) == x[1] % 3
KLt(x, y) == Key(x) < Key(y)
Less(kind, keyed, x, y) == IF keyed THEN KLt(x, y) ELSE Lt(kind, x, y)
\* the first greatest, the first least element (index from 1)
Greatest(kind, keyed, q) == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : ~Less(kind, keyed, q[i], q[j])
                                                     /\ \A j \in 1..(i - 1) : Less(kind, keyed, q[j], q[i])
Least(kind, keyed, q) == CHOOSE i \in 1..Len(q) : /\ \A j \in 1..Len(q) : ~Less(kind, keyed, q[j], q[i])
                                                  /\ \A j \in 1..(i - 1) : Less(kind, keyed, q[i], q[j])
Sorted(kind, keyed, q) == \A i \in 1..(Len(q) - 1) : ~Less(kind, keyed, q[i + 1], q[i])
Group(keyed, kind, q, e) == SelectSeq(q, LAMBDA x : ~Less(kind, keyed, x, e) /\ ~Less(kind, keyed, e, x))
\* t is q sorted by its key, equal keys in the order they had
Stable(kind, q, t) == Perm(q, t) /\ Sorted(kind, TRUE, t) /\ \A e \in Range(q) : Group(TRUE, kind, q, e) = Group(TRUE, kind, t, e)
StableDown(kind, q, t) == Perm(q, t) /\ Sorted(kind, TRUE, Rev(t)) /\ \A e \in Range(q) : Group(TRUE, kind, q, e) = Group(TRUE, kind, t, e)

\* ---- indices -----------------------------------------------------------------
In(i, n) == -n <= i /\ i < n
At(i, n) == (IF i < 0 THEN i + n ELSE i) + 1
Clip(i, n) == IF i < 0 THEN i + n ELSE i

\* ---- sequences ---------------------------------------------------------------
Elem(D, o) == IF D.kind = "num" THEN <<o.a>> ELSE <<o.a, o.b>>
Const == [num |-> <<<<1>>, <<0>>>>, pair |-> <<<<1, 2>>, <<0, 1>>>>, rec |-> <<<<1, 2>>, <<0, 1>>>>]
Indexed == {"get", "poke", "del", "popi", "rget", "appi"}

SeqFails(D, o, S) ==
  LET n == Len(S.v)
      op == o.o
  IN CASE op \in Indexed \ {"appi"} -> ~In(o.a, n)
       [] op = "appi" -> ~In(o.a, n) \/ n >= D.cap
       [] op \in {"set", "rset"} -> ~In(o.c, n)
       [] op = "frac" -> TRUE
       [] op = "seti" -> ~In(o.a, n) \/ ~In(o.b, n)
       [] op = "swap" -> ~(0 <= o.a /\ o.a < n /\ 0 <= o.b /\ o.b < n)
       [] op \in {"max", "maxk"} -> n = 0
       [] op = "app" -> n >= D.cap
       [] op = "wapp" -> Len(S.w) >= D.cap
       [] op \in {"ext", "iadd"} -> n + Len(S.w) > D.cap
       [] op = "extx" -> n + 2 > D.cap
       [] op = "exts" -> 2 * n > D.cap
       [] op = "pop" -> n = 0
       [] op = "ins" -> n >= D.cap \/ ~(-n <= o.c /\ o.c <= n)
       [] OTHER -> FALSE

V(S, q) == [S EXCEPT !.v = q]

SeqOk(D, o, S, out, T) ==
  LET v == S.v
      n == Len(v)
      e == Elem(D, o)
      k == D.kind
      op == o.o
      first == First(v, e, 0, n)
      Quiet(q) == out = <<>> /\ T = V(S, q)
      Says(x) == out = x /\ T = S
      Add(q, x) == IF k = "num" THEN q ELSE [i \in 1..Len(q) |-> [q[i] EXCEPT ![1] = @ + x]]
      Is(i) == 0 <= i /\ i < n
  IN CASE op = "get" -> Says(v[At(o.a, n)])
       [] op = "getu" -> Says(IF Is(o.a) THEN v[o.a + 1] ELSE <<>>)  \* asked only inside the bounds
       [] op = "set" -> Quiet([v EXCEPT ![At(o.c, n)] = e])
       [] op = "setu" -> Quiet(IF Is(o.c) THEN [v EXCEPT ![o.c + 1] = e] ELSE v)
       [] op = "has" -> Says(<<B(e \in Range(v)), B(e \notin Range(v))>>)
       [] op = "idx" -> Says(<<first>>)
       [] op = "idx1" -> Says(<<First(v, e, Clip(o.c, n), n)>>)
       [] op = "idx2" -> Says(<<First(v, e, Clip(o.c, n), Clip(o.d, n))>>)
       [] op = "cnt" -> Says(<<Count(v, e)>>)
       [] op = "lidx" -> Says(<<Last(v, e)>>)
       [] op \in {"imax", "imaxk"} ->
            IF n = 0 THEN Says(<<-1, -1>>) ELSE Says(<<Greatest(k, op = "imaxk", v) - 1, Least(k, op = "imaxk", v) - 1>>)
       [] op \in {"max", "maxk"} -> Says(v[Greatest(k, op = "maxk", v)] \o v[Least(k, op = "maxk", v)])
       [] op = "swapu" /\ ~(Is(o.a) /\ Is(o.b)) -> Quiet(v)
       [] op \in {"swap", "swapu"} -> Quiet([v EXCEPT ![o.a + 1] = v[o.b + 1], ![o.b + 1] = v[o.a + 1]])
       [] op = "sort" -> out = <<>> /\ T.w = S.w /\ Perm(v, T.v) /\ Sorted(k, FALSE, T.v)
       [] op \in {"sortr", "rsort"} -> out = <<>> /\ T.w = S.w /\ Perm(v, T.v) /\ Sorted(k, FALSE, Rev(T.v))
       [] op = "sortk" -> out = <<>> /\ T.w = S.w /\ Stable(k, v, T.v)
       [] op = "sortkr" -> out = <<>> /\ T.w = S.w /\ StableDown(k, v, T.v)
       [] op = "rev" -> Quiet(Rev(v))
       [] op = "each" -> Says(Flat(v))
       [] op = "riter" -> Says(Flat(Rev(v)))
       [] op = "enum" -> Says(Flat([i \in 1..n |-> <<o.a + i - 1>> \o v[i]]))
       [] op = "until" ->
            LET X == {i \in 1..n : v[i][1] = o.a}
            IN IF X = {} THEN Says(Flat(v) \o <<-1>>) ELSE Says(Flat(SubSeq(v, 1, MinOf(X))))
       [] op = "rget" -> Says(Rev(v)[At(o.a, n)])
       [] op = "rset" -> Quiet(Rev([Rev(v) EXCEPT ![At(o.c, n)] = e]))
       [] op = "ridx" -> Says(<<First(Rev(v), e, 0, n)>>)
       [] op \in {"shuf", "shufr"} -> out = <<>> /\ T.w = S.w /\ Perm(v, T.v)
       [] op = "pick" -> (out \in Range(v) \/ (n = 0 /\ out = <<>>)) /\ T = S
       [] op = "nest" -> Says(Flat([i \in 1..n |-> Flat(SelectSeq(v, LAMBDA x : v[i][1] < x[1]))]))
       [] op = "poke" -> Quiet([v EXCEPT ![At(o.a, n)] = [@ EXCEPT ![1] = o.c]])
       [] op \in {"eachpoke", "rpoke"} -> Quiet(Add(v, o.a))
       [] op = "appu" /\ n >= D.cap -> Quiet(v)
       [] op \in {"app", "appu"} -> Quiet(Append(v, e))
       [] op = "appi" -> Quiet(Append(v, v[At(o.a, n)]))
       [] op = "wapp" -> out = <<>> /\ T = [S EXCEPT !.w = Append(@, e)]
       [] op = "wclr" -> out = <<>> /\ T = [S EXCEPT !.w = <<>>]
       [] op = "wcopy" -> out = <<>> /\ T = [S EXCEPT !.w = v]
       [] op = "vcopy" -> Quiet(S.w)
       [] op \in {"ext", "iadd"} -> Quiet(v \o S.w)
       [] op = "extx" -> Quiet(v \o Const[k])
       [] op = "exts" -> Quiet(v \o v)
       [] op = "del" -> Quiet(Drop(v, At(o.a, n)))
       [] op = "pop" -> out = v[n] /\ T = V(S, SubSeq(v, 1, n - 1))
       [] op = "popi" -> out = v[At(o.a, n)] /\ T = V(S, Drop(v, At(o.a, n)))
       [] op = "ins" -> Quiet(Ins(v, At(o.c, n), e))
       [] op = "rem" -> out = <<B(first >= 0)>> /\ T = V(S, IF first < 0 THEN v ELSE Drop(v, first + 1))
       [] op = "clr" -> Quiet(<<>>)
       [] op = "sadd" -> LET y == n < D.cap /\ e \notin Range(v) IN out = <<B(y)>> /\ T = V(S, IF y THEN Append(v, e) ELSE v)
       [] op = "srem" -> out = <<B(first >= 0)>> /\ T.w = S.w /\ Perm(T.v, IF first < 0 THEN v ELSE Drop(v, first + 1))
       [] op = "eq" -> Says(<<B(v = S.w), B(v # S.w)>>)
       [] op = "eqx" -> Says(<<B(v = Const[k]), B(v = Const[k]), B(v # Const[k])>>)
       [] op = "size" -> IF D.fam = "var" THEN Says(<<n, D.cap, B(n = D.cap)>>) ELSE Says(<<n>>)
       [] op = "seti" -> Quiet([v EXCEPT ![At(o.a, n)] = v[At(o.b, n)]])
       [] op \in {"self", "cpy"} -> Quiet(v)
       [] OTHER -> FALSE

\* ---- sets --------------------------------------------------------------------
SetOk(D, o, S, out, T) ==
  LET v == S.v
      n == Len(v)
      e == Elem(D, o)
      has == e \in Range(v)
      op == o.o
      Says(x) == out = x /\ Perm(v, T.v)
  IN CASE op = "add" -> LET y == ~has /\ n < D.cap IN out = <<B(y)>> /\ Perm(T.v, IF y THEN Append(v, e) ELSE v)
       [] op = "rem" -> out = <<B(has)>> /\ Perm(T.v, SelectSeq(v, LAMBDA x : x # e))
       [] op = "has" -> Says(<<B(has), B(~has)>>)
       [] op = "clr" -> out = <<>> /\ T.v = <<>>
       [] op = "size" -> Says(<<n>>)
       [] op = "cpy" -> Says(<<>>)
       [] op = "addall" -> Says([i \in 1..n |-> 0])
       [] OTHER -> FALSE

\* ---- maps --------------------------------------------------------------------
MapKey(D, o) == IF D.key = "num" THEN <<o.a>> ELSE <<o.a, o.b>>
MapVal(D, o) == IF D.kind = "num" THEN <<o.c>> ELSE <<o.c, o.d>>
KeyW(D) == IF D.key = "num" THEN 1 ELSE 2
KeyOf(D, x) == SubSeq(x, 1, KeyW(D))
ValOf(D, x) == SubSeq(x, KeyW(D) + 1, Len(x))
Where(D, v, k) == CHOOSE i \in 1..Len(v) : KeyOf(D, v[i]) = k
Keys(D, v) == {KeyOf(D, v[i]) : i \in 1..Len(v)}
MapFails(D, o, S) ==
  LET has == MapKey(D, o) \in Keys(D, S.v)
  IN CASE o.o \in {"get", "del", "pop", "aug"} -> ~has
       [] o.o = "put" -> ~has /\ Len(S.v) >= D.cap
       [] OTHER -> FALSE
MapOk(D, o, S, out, T) ==
  LET v == S.v
      n == Len(v)
      k == MapKey(D, o)
      has == k \in Keys(D, v)
      i == Where(D, v, k)
      op == o.o
      vw == IF D.kind = "num" THEN 1 ELSE 2
      Says(x) == out = x /\ Perm(v, T.v)
      Bag(q, w) == Len(out) = w * n /\ Perm(Chop(out, w), q) /\ Perm(v, T.v)
  IN CASE op = "put" -> out = <<>> /\ Perm(T.v, IF has THEN [v EXCEPT ![i] = k \o MapVal(D, o)] ELSE Append(v, k \o MapVal(D, o)))
       [] op = "get" -> Says(ValOf(D, v[i]))
       [] op = "del" -> out = <<>> /\ Perm(T.v, Drop(v, i))
       [] op = "pop" -> out = ValOf(D, v[i]) /\ Perm(T.v, Drop(v, i))
       [] op = "has" -> Says(<<B(has), B(~has)>>)
       [] op = "clr" -> out = <<>> /\ T.v = <<>>
       [] op = "size" -> Says(<<n, D.cap, B(n = D.cap)>>)
       [] op \in {"keys", "iter"} -> Bag([j \in 1..n |-> KeyOf(D, v[j])], KeyW(D))
       [] op = "vals" -> Bag([j \in 1..n |-> ValOf(D, v[j])], vw)
       [] op = "evens" ->
            LET q == SelectSeq(v, LAMBDA x : ValOf(D, x)[1] % 2 # 0)
            IN /\ Len(out) = KeyW(D) * Len(q) /\ Perm(v, T.v)
               /\ Perm(Chop(out, KeyW(D)), [j \in 1..Len(q) |-> KeyOf(D, q[j])])
       [] op = "cpy" -> Says(<<>>)
       [] op = "aug" -> out = <<>> /\ Perm(T.v, [v EXCEPT ![i] = [@ EXCEPT ![KeyW(D) + 1] = @ + o.c]])
       [] OTHER -> FALSE

\* ---- literals: a set or map written in the program, asked at run time -------------
\* v: entries (key cells, value cells) in the order written; keys distinct
LitFails(D, o, S) == o.o = "lget" /\ MapKey(D, o) \notin Keys(D, S.v)
LitOk(D, o, S, out, T) ==
  LET v == S.v
      k == MapKey(D, o)
      has == k \in Keys(D, v)
  IN T = S /\
     CASE o.o = "lhas" -> out = <<B(has), B(~has)>>
       [] o.o = "lget" -> out = ValOf(D, v[Where(D, v, k)])
       [] o.o = "lgetd" -> out = IF has THEN ValOf(D, v[Where(D, v, k)]) ELSE MapVal(D, o)
       [] o.o = "llen" -> out = <<Len(v)>>
       [] o.o = "lkeys" -> out = Flat([j \in 1..Len(v) |-> KeyOf(D, v[j])])
       [] o.o = "litems" -> out = Flat(v)
       [] o.o = "lbag" -> Len(out) = Len(v) * KeyW(D) /\ Perm(Chop(out, KeyW(D)), [j \in 1..Len(v) |-> KeyOf(D, v[j])])
       [] OTHER -> FALSE

\* ---- linked entities: v is the list of [key, entity], in list order --------------------
\* out: the keys and entities met following next from the returned head, then following prev from the last one
LinkOk(D, o, S, out, T) ==
  LET n == Len(S.v)
      fwd == Chop(SubSeq(out, 1, 2 * n), 2)
      bwd == SubSeq(out, 2 * n + 1, Len(out))
  IN /\ Len(out) = IF D.prev THEN 4 * n ELSE 2 * n
     /\ Perm(fwd, S.v)
     /\ \A j \in 1..(n - 1) : fwd[j][1] <= fwd[j + 1][1]
     \* merge sort keeps the order of equal keys
     /\ \A e \in Range(S.v) : SelectSeq(fwd, LAMBDA x : x[1] = e[1]) = SelectSeq(S.v, LAMBDA x : x[1] = e[1])
     /\ D.prev => bwd = Flat(Rev(fwd))

\* ---- any container --------------------------------------------------------------
IsSeq(D) == D.fam \in {"var", "fix", "rev", "ring", "ptr"}
Fails(D, o, S) == IF IsSeq(D) THEN SeqFails(D, o, S) ELSE IF D.fam = "map" THEN MapFails(D, o, S)
                  ELSE IF D.fam = "lit" THEN LitFails(D, o, S) ELSE FALSE
Ok(D, o, S, out, T) == IF IsSeq(D) THEN SeqOk(D, o, S, out, T)
                       ELSE IF D.fam = "set" THEN SetOk(D, o, S, out, T)
                       ELSE IF D.fam = "lit" THEN LitOk(D, o, S, out, T)
                       ELSE IF D.fam = "link" THEN LinkOk(D, o, S, out, T)
                       ELSE MapOk(D, o, S, out, T)
=============================================================================
