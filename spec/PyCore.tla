-------------------------------- MODULE PyCore --------------------------------
(***************************************************************************)
(* The subset of Python in which callbacks are written: what running a     *)
(* function means, given as the big-step semantics of an abstract machine. *)
(*                                                                         *)
(* A program P is a set of record classes and functions; a state is        *)
(*   P    the program (constant)                                           *)
(*   h    the heap: records, arrays, iterators' cells.  An object is       *)
(*        [c |-> class, f |-> <<values>>]; a reference names one, so two    *)
(*        names (fields, elements) can share storage                       *)
(*   fr   the frames: [p |-> enclosing frame, b |-> name -> value]; frame 1 *)
(*        holds the module's names.  Frames outlive their calls, since     *)
(*        functions close over them                                        *)
(*   cf   the current frame                                                *)
(*   hs   the consumers of the active generators, innermost last           *)
(*   tr   what has been printed                                            *)
(*   sg   how control proceeds: "run", "brk", "cont", "ret", "gstop" (a     *)
(*        consumer has abandoned its iteration gd, because of po), "halt"   *)
(*        (an assertion or a bounds check failed), "stuck" (the result is  *)
(*        not specified from here on), "fuel"                              *)
(*   rv   the value being returned                                         *)
(*   nx   names iterations apart                                           *)
(*   f    fuel                                                             *)
(*                                                                         *)
(* Values: [k |-> "n", v]  numbers (strings, see Float64; False = 0)       *)
(*   [k |-> "r", id] references   [k |-> "t", a] tuples   [k |-> "z"] None   *)
(*   [k |-> "f", d, fr, dv] functions with their frame and default values   *)
(*   [k |-> "bm", f, me] bound methods   [k |-> "ty", c] classes            *)
(*   and iterables: "rg" ranges, "rev" reversed arrays, "enum", "map",      *)
(*   "filter", "zip", "g" generators, "ge" generator expressions,           *)
(*   "it" iterators over an indexable value                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Ops

None == [k |-> "z"]
NoDef == [k |-> "u"]
N(v) == [k |-> "n", v |-> v]
NI(i) == N(FOfInt(i))
B(b) == N(IF b THEN "1" ELSE "0")
Ref(i) == [k |-> "r", id |-> i]
Tup(a) == [k |-> "t", a |-> a]

R(v, s) == [v |-> v, s |-> s]
Sg(s, sg) == [s EXCEPT !.sg = sg]
Ok(s) == s.sg = "run"

\* Numbers within which all arithmetic promised here is carried out.
Nice(v) == v # U /\ ~NonFinite(v) /\ FLt(FAbs(v), "1125899906842624") = "1"
\* Values whose sums are exact in any order.
Exact(v) == Nice(v) /\ FIsInt(FMul(v, "1024")) /\ FLt(FAbs(v), "1073741824") = "1"

Num(v, s) == IF Nice(v) THEN R(N(v), s) ELSE R(N("0"), Sg(s, "stuck"))
Truth(v) == v.v # "0"

------------------------------------------------------------------------------
(* Storage *)

New(c, f, s) == R(Ref(Len(s.h) + 1), [s EXCEPT !.h = Append(@, [c |-> c, f |-> f])])
Obj(v, s) == s.h[v.id]
SetF(id, i, v, s) == [s EXCEPT !.h[id].f[i] = v]

\* A deep copy: numbers by value, what is stored in the object copied with it.
RECURSIVE Copy(_, _)
RECURSIVE CopyAll(_, _, _, _)
CopyAll(f, i, acc, s) ==
  IF i > Len(f) THEN [a |-> acc, s |-> s]
  ELSE LET r == Copy(f[i], s) IN CopyAll(f, i + 1, Append(acc, r.v), r.s)
Copy(v, s) ==
  IF v.k # "r" THEN R(v, s)
  ELSE LET r == CopyAll(Obj(v, s).f, 1, <<>>, s) IN New(Obj(v, s).c, r.a, r.s)

\* Copying into existing storage, field by field.
RECURSIVE CopyInto(_, _, _)
RECURSIVE CopyFields(_, _, _, _)
CopyFields(d, v, i, s) ==
  IF i > Len(s.h[d].f) THEN s
  ELSE LET old == s.h[d].f[i]
           new == s.h[v].f[i]
       IN CopyFields(d, v, i + 1, IF old.k = "r" THEN CopyInto(old.id, new.id, s) ELSE SetF(d, i, new, s))
CopyInto(d, v, s) == CopyFields(d, v, 1, s)

\* Storing v in the i-th cell of object id.
Store(id, i, v, s) ==
  LET old == s.h[id].f[i] IN IF old.k = "r" THEN CopyInto(old.id, v.id, s) ELSE SetF(id, i, v, s)

\* Structural equality.
RECURSIVE Same(_, _, _)
Same(a, b, s) ==
  IF a.k # b.k THEN FALSE
  ELSE CASE a.k = "n" -> FEq(a.v, b.v) = "1"
         [] a.k = "r" -> LET x == Obj(a, s)
                             y == Obj(b, s)
                         IN /\ x.c = y.c /\ Len(x.f) = Len(y.f)
                            /\ \A i \in 1..Len(x.f) : Same(x.f[i], y.f[i], s)
         [] a.k = "t" -> Len(a.a) = Len(b.a) /\ \A i \in 1..Len(a.a) : Same(a.a[i], b.a[i], s)
         [] OTHER -> a = b

------------------------------------------------------------------------------
(* Names: the current frame, then the enclosing ones, then the module. *)

RECURSIVE Look(_, _, _)
Look(n, c, s) == IF n \in DOMAIN s.fr[c].b THEN s.fr[c].b[n] ELSE Look(n, s.fr[c].p, s)
Bind(n, v, s) == [s EXCEPT !.fr[s.cf].b = (n :> v) @@ @]
Frame(p, b, s) == [s EXCEPT !.fr = Append(@, [p |-> p, b |-> b])]

------------------------------------------------------------------------------
(* Arithmetic *)

ArithOp(op) ==
  CASE op = "+" -> "Add" [] op = "-" -> "Subtract" [] op = "*" -> "Multiply" [] op = "/" -> "Divide"
    [] op = "%" -> "Mod" [] op = "**" -> "Power"
    [] op = "==" -> "Equal" [] op = "!=" -> "NotEqual" [] op = "<" -> "Less" [] op = "<=" -> "LessOr"
    [] op = ">" -> "Greater" [] OTHER -> "GreaterOr"
Arith(op, x, y) ==
  IF op = "//" THEN PureOp("Floor", <<PureOp("Divide", <<x, y>>)>>) ELSE PureOp(ArithOp(op), <<x, y>>)

DunderOf(op) ==
  CASE op = "+" -> "__add__" [] op = "-" -> "__sub__" [] op = "*" -> "__mul__" [] op = "/" -> "__truediv__"
    [] op = "//" -> "__floordiv__" [] op = "%" -> "__mod__" [] op = "**" -> "__pow__" [] op = "@" -> "__matmul__"
    [] op = "==" -> "__eq__" [] op = "!=" -> "__ne__" [] op = "<" -> "__lt__" [] op = "<=" -> "__le__"
    [] op = ">" -> "__gt__" [] OTHER -> "__ge__"
Reflected(op) ==
  CASE op = "+" -> "__radd__" [] op = "-" -> "__rsub__" [] op = "*" -> "__rmul__" [] op = "/" -> "__rtruediv__"
    [] op = "<" -> "__gt__" [] op = ">" -> "__lt__" [] op = "<=" -> "__ge__" [] op = ">=" -> "__le__"
    [] OTHER -> "__rmod__"

ClassOf(v, s) == IF v.k = "r" THEN Obj(v, s).c ELSE ""
Method(c, n, P) == IF c \in DOMAIN P.cls /\ n \in DOMAIN P.cls[c].m THEN P.cls[c].m[n] ELSE NoDef
Has(c, n, s) == c # "" /\ c # "arr" /\ n \in DOMAIN s.P.cls[c].m

\* Position (from 1) an index denotes in n cells, 0 when it is out of bounds.
Pos(v, n) ==
  IF ~FIsInt(v) THEN 0
  ELSE LET i == FToInt(v) IN IF i >= 0 /\ i < n THEN i + 1 ELSE IF i < 0 /\ i >= -n THEN n + i + 1 ELSE 0

RECURSIVE RangeLen(_, _, _)
RangeLen(a, b, c) ==
  LET d == IF c > 0 THEN b - a ELSE a - b
      m == IF c > 0 THEN c ELSE -c
  IN IF d <= 0 THEN 0 ELSE (d + m - 1) \div m

\* Iterables whose elements can be asked for by position.
Indexed(it) == it.k \in {"t", "r", "rg", "rev"}
ItLen(it, s) ==
  CASE it.k = "t" -> Len(it.a)
    [] it.k = "r" -> Len(Obj(it, s).f)
    [] it.k = "rev" -> Len(s.h[it.id].f)
    [] OTHER -> RangeLen(it.a, it.b, it.c)
ItAt(it, i, s) ==
  CASE it.k = "t" -> it.a[i]
    [] it.k = "r" -> Obj(it, s).f[i]
    [] it.k = "rev" -> LET f == s.h[it.id].f IN f[Len(f) + 1 - i]
    [] OTHER -> NI(it.a + (i - 1) * it.c)

------------------------------------------------------------------------------
RECURSIVE E(_, _)
RECURSIVE Ex(_, _)
RECURSIVE Block(_, _, _)
RECURSIVE Call(_, _, _, _)
RECURSIVE Handle(_, _, _)
RECURSIVE Iter(_, _, _)
RECURSIVE Assign(_, _, _)
RECURSIVE PMatch(_, _, _)
RECURSIVE Cmp(_, _, _, _)

\* Expressions in order; starred ones are spliced in.
RECURSIVE EA(_, _, _, _)
EA(es, i, acc, s) ==
  IF i > Len(es) \/ ~Ok(s) THEN [a |-> acc, s |-> s]
  ELSE IF es[i].k = "star"
       THEN LET r == E(es[i].e, s) IN EA(es, i + 1, IF Ok(r.s) THEN acc \o r.v.a ELSE acc, r.s)
       ELSE LET r == E(es[i], s) IN EA(es, i + 1, Append(acc, r.v), r.s)
\* Keyword arguments in order: <<name, value>> pairs.
RECURSIVE EK(_, _, _, _)
EK(ks, i, acc, s) ==
  IF i > Len(ks) \/ ~Ok(s) THEN [a |-> acc, s |-> s]
  ELSE LET r == E(ks[i][2], s) IN EK(ks, i + 1, Append(acc, <<ks[i][1], r.v>>), r.s)

------------------------------------------------------------------------------
(* Calls *)

Kw(ks, n) == {i \in 1..Len(ks) : ks[i][1] = n}
\* The value parameter j of d receives.
Param(d, dv, a, ks, j) ==
  IF j <= Len(a) THEN a[j]
  ELSE IF Kw(ks, d.ps[j]) # {} THEN ks[CHOOSE i \in Kw(ks, d.ps[j]) : TRUE][2] ELSE dv[j]
Bound(d, dv, a, ks) ==
  LET fixed == [n \in {d.ps[j] : j \in 1..Len(d.ps)} |->
                  LET j == CHOOSE j \in 1..Len(d.ps) : d.ps[j] = n IN Param(d, dv, a, ks, j)]
  IN IF d.va = "" THEN fixed
     ELSE (d.va :> Tup(SubSeq(a, Len(d.ps) + 1, Len(a)))) @@ fixed

Invoke(fv, a, ks, s) ==
  LET d == fv.d
      s1 == Frame(fv.fr, Bound(d, fv.dv, a, ks), s)
      me == Len(s1.fr)
  IN IF s.f = 0 THEN R(None, Sg(s, "fuel"))
     ELSE IF d.gen THEN R([k |-> "g", d |-> d, fr |-> me], s1)
     ELSE IF d.lam
     THEN LET r == E(d.e, [s1 EXCEPT !.cf = me, !.f = @ - 1]) IN R(r.v, [r.s EXCEPT !.cf = s.cf])
     ELSE LET z == Block(d.b, 1, [s1 EXCEPT !.cf = me, !.f = @ - 1, !.rv = None])
          IN IF z.sg = "ret" THEN R(z.rv, [z EXCEPT !.cf = s.cf, !.sg = "run", !.rv = None])
             ELSE R(None, [z EXCEPT !.cf = s.cf])

\* A record from its constructor's arguments: it refers to the records and arrays it is given.
Construct(c, a, ks, s) ==
  LET fs == s.P.cls[c].fs
  IN New(c, [j \in 1..Len(fs) |-> IF j <= Len(a) THEN a[j] ELSE ks[CHOOSE i \in Kw(ks, fs[j]) : TRUE][2]], s)

Call(f, a, ks, s) ==
  CASE f.k = "f" -> Invoke(f, a, ks, s)
    [] f.k = "bm" -> Invoke(f.f, <<f.me>> \o a, ks, s)
    [] f.k = "ty" -> Construct(f.c, a, ks, s)
    [] OTHER -> R(None, Sg(s, "stuck"))

Closure(d, s) ==
  LET r == EA([j \in 1..Len(d.ps) |-> IF d.df[j].k = "u" THEN [k |-> "undef"] ELSE d.df[j]], 1, <<>>, s)
  IN R([k |-> "f", d |-> d, fr |-> s.cf, dv |-> r.a], r.s)

CallMethod(v, n, a, s) == Call([k |-> "f", d |-> Method(ClassOf(v, s), n, s.P), fr |-> 1,
                                dv |-> Method(ClassOf(v, s), n, s.P).dv], <<v>> \o a, <<>>, s)

------------------------------------------------------------------------------
(* Operators on values *)

Bin(op, x, y, s) ==
  IF ~Ok(s) THEN R(None, s)
  ELSE IF x.k = "n" /\ y.k = "n" THEN Num(Arith(op, x.v, y.v), s)
  ELSE IF x.k = "t" /\ y.k = "t" THEN R(Tup(x.a \o y.a), s)
  ELSE IF Has(ClassOf(x, s), DunderOf(op), s) THEN CallMethod(x, DunderOf(op), <<y>>, s)
  ELSE CallMethod(y, Reflected(op), <<x>>, s)

\* Lexicographic order on tuples.
RECURSIVE Lex(_, _, _, _, _)
Lex(op, x, y, i, s) ==
  IF i > Len(x) \/ i > Len(y)
  THEN R(N(PureOp(ArithOp(op), <<FOfInt(Len(x)), FOfInt(Len(y))>>)), s)
  ELSE IF Same(x[i], y[i], s) THEN Lex(op, x, y, i + 1, s)
  ELSE Cmp(IF op = "<=" THEN "<" ELSE IF op = ">=" THEN ">" ELSE op, x[i], y[i], s)

Cmp(op, x, y, s) ==
  IF ~Ok(s) THEN R(None, s)
  ELSE CASE op \in {"in", "notin"} ->
              LET hit == IF y.k = "rg"
                         THEN LET n == RangeLen(y.a, y.b, y.c)
                              IN \E i \in 1..n : FEq(FOfInt(y.a + (i - 1) * y.c), x.v) = "1"
                         ELSE \E i \in 1..ItLen(y, s) : Same(ItAt(y, i, s), x, s)
              IN R(B(hit = (op = "in")), s)
         [] op = "is" -> R(B(x.k = "z"), s)
         [] op = "isnot" -> R(B(x.k # "z"), s)
         [] x.k = "n" /\ y.k = "n" -> Num(Arith(op, x.v, y.v), s)
         [] Has(ClassOf(x, s), DunderOf(op), s) -> CallMethod(x, DunderOf(op), <<y>>, s)
         [] op = "==" -> R(B(Same(x, y, s)), s)
         [] op = "!=" -> R(B(~Same(x, y, s)), s)
         [] x.k = "t" -> Lex(op, x.a, y.a, 1, s)
         [] OTHER -> CallMethod(y, Reflected(op), <<x>>, s)

\* a op b op c ...: each operand once, up to the first comparison that fails
RECURSIVE Chain(_, _, _, _)
Chain(e, i, l, s) ==
  LET r == E(e.a[i + 1], s)
      c == Cmp(e.ops[i], l, r.v, r.s)
  IN IF ~Ok(r.s) \/ ~Ok(c.s) THEN R(None, IF Ok(r.s) THEN c.s ELSE r.s)
     ELSE IF i = Len(e.ops) \/ ~Truth(c.v) THEN c
     ELSE Chain(e, i + 1, r.v, c.s)

RECURSIVE Logic(_, _, _, _)
Logic(es, i, stop, s) ==         \* and: stop at the first false one; or: at the first true one
  LET r == E(es[i], s) IN
  IF ~Ok(r.s) \/ i = Len(es) \/ Truth(r.v) = stop THEN r ELSE Logic(es, i + 1, stop, r.s)

------------------------------------------------------------------------------
(* Attributes and elements *)

GetAttr(v, n, s) ==
  LET c == ClassOf(v, s)
      k == s.P.cls[c]
  IN IF n \in DOMAIN k.ix THEN R(Obj(v, s).f[k.ix[n]], s)
     ELSE IF n \in DOMAIN k.pr THEN Call([k |-> "f", d |-> k.pr[n], fr |-> 1, dv |-> <<NoDef>>], <<v>>, <<>>, s)
     ELSE R([k |-> "bm", f |-> [k |-> "f", d |-> k.m[n], fr |-> 1, dv |-> k.m[n].dv], me |-> v], s)

SetAttr(v, n, x, s) ==
  LET k == s.P.cls[ClassOf(v, s)]
  IN IF n \in DOMAIN k.ix THEN Store(v.id, k.ix[n], x, s)
     ELSE Call([k |-> "f", d |-> k.st[n], fr |-> 1, dv |-> <<NoDef, NoDef>>], <<v, x>>, <<>>, s).s

GetItem(v, i, s) ==
  LET p == Pos(i.v, ItLen(v, s))
  IN IF p = 0 THEN R(None, Sg(s, "halt")) ELSE R(ItAt(v, p, s), s)
SetItem(v, i, x, s) ==
  LET p == Pos(i.v, ItLen(v, s))
  IN IF p = 0 THEN Sg(s, "halt")
     ELSE IF v.k = "rev" THEN Store(v.id, Len(s.h[v.id].f) + 1 - p, x, s) ELSE Store(v.id, p, x, s)

RECURSIVE AssignAll(_, _, _, _)
AssignAll(ts, vs, i, s) ==
  IF i > Len(ts) \/ ~Ok(s) THEN s ELSE AssignAll(ts, vs, i + 1, Assign(ts[i], vs[i], s))
Assign(t, v, s) ==
  IF ~Ok(s) THEN s
  ELSE CASE t.k = "v" -> Bind(t.n, v, s)
         [] t.k = "at" -> LET r == E(t.e, s) IN IF Ok(r.s) THEN SetAttr(r.v, t.n, v, r.s) ELSE r.s
         [] t.k = "ix" -> LET r == E(t.e, s)
                              i == E(t.i, r.s)
                          IN IF ~Ok(r.s) THEN r.s ELSE IF ~Ok(i.s) THEN i.s ELSE SetItem(r.v, i.v, v, i.s)
         [] OTHER -> AssignAll(t.a, v.a, 1, s)

RECURSIVE AssignEach(_, _, _, _)
AssignEach(ts, v, i, s) == IF i > Len(ts) THEN s ELSE AssignEach(ts, v, i + 1, Assign(ts[i], v, s))

\* x op= y : a record updates itself in place (by __iadd__, or by copying the result of __add__)
InplaceName(op) ==
  CASE op = "+" -> "__iadd__" [] op = "-" -> "__isub__" [] op = "*" -> "__imul__" [] op = "/" -> "__itruediv__"
    [] OTHER -> "__imod__"
Aug(op, x, y, s) ==
  IF ~Ok(s) THEN R(None, s)
  ELSE IF op = "@" THEN R(x, CopyInto(x.id, y.id, s))
  ELSE IF x.k = "r" /\ Has(ClassOf(x, s), InplaceName(op), s) THEN CallMethod(x, InplaceName(op), <<y>>, s)
  ELSE IF x.k = "r" /\ Has(ClassOf(x, s), DunderOf(op), s)
  THEN LET r == CallMethod(x, DunderOf(op), <<y>>, s)
       IN IF Ok(r.s) THEN R(x, CopyInto(x.id, r.v.id, r.s)) ELSE r
  ELSE Bin(op, x, y, s)

------------------------------------------------------------------------------
(* Iteration.  A source pushes its elements into a handler, which may stop it. *)

Stop(hd, why, s) == [s EXCEPT !.sg = "gstop", !.gd = hd.id, !.po = why]

YieldTo(v, s) ==
  LET n == Len(s.hs)
      z == Handle(s.hs[n], v, [s EXCEPT !.hs = SubSeq(@, 1, n - 1)])
  IN [z EXCEPT !.hs = s.hs, !.cf = s.cf]

\* generator expressions: clause i of node nd, running in frame fr
RECURSIVE Ifs(_, _, _)
Ifs(cs, i, s) ==
  IF i > Len(cs) \/ ~Ok(s) THEN R(B(TRUE), s)
  ELSE LET r == E(cs[i], s) IN IF Ok(r.s) /\ Truth(r.v) THEN Ifs(cs, i + 1, r.s) ELSE R(B(FALSE), r.s)
Clause(nd, i, fr, v, s) ==
  LET g == nd.gens[i]
      s1 == Assign(g.t, v, [s EXCEPT !.cf = fr])
      c == Ifs(g.ifs, 1, s1)
  IN IF ~Ok(c.s) \/ ~Truth(c.v) THEN c.s
     ELSE IF i = Len(nd.gens)
     THEN LET r == E(nd.elt, c.s) IN IF Ok(r.s) THEN YieldTo(r.v, r.s) ELSE r.s
     ELSE LET r == E(nd.gens[i + 1].it, c.s)
          IN IF Ok(r.s) THEN Iter(r.v, [k |-> "gen", nd |-> nd, i |-> i + 1, fr |-> fr], r.s) ELSE r.s

Better(op, x, y) == IF op = "max" THEN FGt(x, y) = "1" ELSE FLt(x, y) = "1"

Handle(hd, v, s) ==
  IF s.f = 0 THEN Sg(s, "fuel") ELSE
  LET s0 == [s EXCEPT !.f = @ - 1] IN
  CASE hd.k = "for" ->
         LET z == Block(hd.b, 1, Assign(hd.t, v, [s0 EXCEPT !.cf = hd.fr]))
         IN CASE z.sg = "cont" -> [z EXCEPT !.sg = "run"]
              [] z.sg \in {"brk", "ret"} -> Stop(hd, z.sg, z)
              [] OTHER -> z
    [] hd.k = "gen" -> [Clause(hd.nd, hd.i, hd.fr, v, s0) EXCEPT !.cf = s.cf]
    [] hd.k = "yield" -> YieldTo(v, s0)
    [] hd.k = "enum" -> LET n == s0.h[hd.id].f[1]
                        IN Handle(hd.n, Tup(<<n, v>>), SetF(hd.id, 1, N(FAdd(n.v, "1")), s0))
    [] hd.k = "map" -> LET r == Call(hd.f, IF hd.sp THEN v.a ELSE <<v>>, <<>>, s0)
                       IN IF Ok(r.s) THEN Handle(hd.n, r.v, r.s) ELSE r.s
    [] hd.k = "filter" -> IF hd.f.k = "z" THEN (IF Truth(v) THEN Handle(hd.n, v, s0) ELSE s0)
                          ELSE LET r == Call(hd.f, <<v>>, <<>>, s0)
                               IN IF Ok(r.s) /\ Truth(r.v) THEN Handle(hd.n, v, r.s) ELSE r.s
    [] hd.k = "sum" -> LET r == Bin("+", s0.h[hd.id].f[1], v, s0)
                       IN IF Ok(r.s) /\ r.v.k = "n" /\ ~Exact(r.v.v) THEN Sg(r.s, "stuck")
                          ELSE SetF(hd.id, 1, r.v, r.s)
    [] hd.k = "any" -> IF Truth(v) THEN Stop(hd, "brk", SetF(hd.id, 1, B(TRUE), s0)) ELSE s0
    [] hd.k = "all" -> IF Truth(v) THEN s0 ELSE Stop(hd, "brk", SetF(hd.id, 1, B(FALSE), s0))
    [] hd.k \in {"min", "max"} ->
         LET r == IF hd.f.k = "z" THEN R(v, s0) ELSE Call(hd.f, <<v>>, <<>>, s0)
             best == s0.h[hd.id].f
         IN IF ~Ok(r.s) THEN r.s
            ELSE IF best[1].k = "z" \/ Better(hd.k, r.v.v, best[2].v)
            THEN SetF(hd.id, 1, v, SetF(hd.id, 2, r.v, r.s)) ELSE r.s
    [] OTHER -> Sg(s0, "stuck")

RECURSIVE IterAt(_, _, _, _)
IterAt(it, i, hd, s) ==          \* asks for the length and the element at every step
  IF ~Ok(s) \/ i > ItLen(it, s) THEN s ELSE IterAt(it, i + 1, hd, Handle(hd, ItAt(it, i, s), s))
RECURSIVE IterZip(_, _, _, _)
IterZip(its, i, hd, s) ==
  IF ~Ok(s) \/ \E j \in 1..Len(its) : i > ItLen(its[j], s) THEN s
  ELSE IterZip(its, i + 1, hd, Handle(hd, Tup([j \in 1..Len(its) |-> ItAt(its[j], i, s)]), s))
\* an iterator object: a cell [it, position]
RECURSIVE IterCell(_, _, _)
IterCell(id, hd, s) ==
  LET it == s.h[id].f[1]
      i == s.h[id].f[2]
  IN IF ~Ok(s) \/ i > ItLen(it, s) THEN s
     ELSE IterCell(id, hd, Handle(hd, ItAt(it, i, s), SetF(id, 2, i + 1, s)))

Iter(it, hd, s) ==
  CASE Indexed(it) -> IterAt(it, 1, hd, s)
    [] it.k = "it" -> IterCell(it.id, hd, s)
    [] it.k = "zip" -> IterZip(it.a, 1, hd, s)
    [] it.k = "enum" -> LET c == New("cell", <<it.n>>, s) IN Iter(it.i, [k |-> "enum", id |-> c.v.id, n |-> hd], c.s)
    [] it.k = "map" -> Iter(it.i, [k |-> "map", f |-> it.f, sp |-> it.sp, n |-> hd], s)
    [] it.k = "filter" -> Iter(it.i, [k |-> "filter", f |-> it.f, n |-> hd], s)
    [] it.k = "ge" ->
         LET z == Iter(it.first, [k |-> "gen", nd |-> it.nd, i |-> 1, fr |-> it.fr],
                       [s EXCEPT !.hs = Append(@, hd), !.cf = it.fr])
         IN [z EXCEPT !.hs = s.hs, !.cf = s.cf]
    [] it.k = "g" ->
         LET z == Block(it.d.b, 1, [s EXCEPT !.hs = Append(@, hd), !.cf = it.fr])
         IN [z EXCEPT !.hs = s.hs, !.cf = s.cf, !.sg = IF z.sg = "ret" THEN "run" ELSE @]
    [] OTHER -> Sg(s, "stuck")

\* Run an iteration to its end with an accumulating handler; its cell's content, and state.
Fold(k, it, f, init, s) ==
  LET c == New("cell", init, s)
      hd == [k |-> k, id |-> c.v.id, f |-> f]
      z == Iter(it, hd, c.s)
      y == IF z.sg = "gstop" /\ z.gd = hd.id THEN [z EXCEPT !.sg = "run", !.cf = s.cf, !.hs = s.hs] ELSE z
  IN [c |-> y.h[c.v.id].f, s |-> y]

------------------------------------------------------------------------------
(* Built-in functions on evaluated arguments *)

KwOr(ks, n, d) == IF Kw(ks, n) = {} THEN d ELSE ks[CHOOSE i \in Kw(ks, n) : TRUE][2]
ToInt(v) == FToInt(v.v)

RECURSIVE Pick(_, _, _, _, _, _)
Pick(op, f, a, i, best, s) ==     \* min/max over arguments: the first of the best; best = <<value, key>>
  IF i > Len(a) \/ ~Ok(s) THEN R(best[1], s)
  ELSE LET r == IF f.k = "z" THEN R(a[i], s) ELSE Call(f, <<a[i]>>, <<>>, s)
       IN IF ~Ok(r.s) THEN r
          ELSE Pick(op, f, a, i + 1, IF Len(best) = 0 \/ Better(op, r.v.v, best[2].v) THEN <<a[i], r.v>> ELSE best, r.s)

RoundOp(n) ==
  CASE n = "abs" -> "Abs" [] n = "floor" -> "Floor" [] n = "ceil" -> "Ceil" [] n = "trunc" -> "Trunc"
    [] n = "int" -> "Trunc" [] n = "round" -> "Round" [] OTHER -> "?"

Builtin(n, a, ks, s) ==
  IF ~Ok(s) THEN R(None, s) ELSE
  CASE n = "log" -> R(N("0"), [s EXCEPT !.tr = Append(@, a[1].v)])
    [] n \in {"floor", "ceil", "trunc", "int", "round"} -> Num(PureOp(RoundOp(n), <<a[1].v>>), s)
    [] n = "abs" -> IF a[1].k = "n" THEN Num(FAbs(a[1].v), s) ELSE CallMethod(a[1], "__abs__", <<>>, s)
    [] n = "float" -> R(a[1], s)
    [] n = "bool" -> R(B(Truth(a[1])), s)
    [] n = "len" -> IF a[1].k = "r" /\ Has(ClassOf(a[1], s), "__len__", s) THEN CallMethod(a[1], "__len__", <<>>, s)
                    ELSE R(NI(ItLen(a[1], s)), s)
    [] n = "copy" -> Copy(a[1], s)
    [] n = "swap" -> LET t == Copy(a[1], s) IN R(None, CopyInto(a[2].id, t.v.id, CopyInto(a[1].id, a[2].id, t.s)))
    [] n = "range" ->
         R(IF Len(a) = 1 THEN [k |-> "rg", a |-> 0, b |-> ToInt(a[1]), c |-> 1]
           ELSE [k |-> "rg", a |-> ToInt(a[1]), b |-> ToInt(a[2]), c |-> IF Len(a) = 3 THEN ToInt(a[3]) ELSE 1], s)
    [] n = "reversed" -> IF a[1].k = "t" THEN R(Tup([i \in 1..Len(a[1].a) |-> a[1].a[Len(a[1].a) + 1 - i]]), s)
                         ELSE IF a[1].k = "rg"
                         THEN LET m == RangeLen(a[1].a, a[1].b, a[1].c)
                              IN R([k |-> "rg", a |-> a[1].a + (m - 1) * a[1].c, b |-> a[1].a - a[1].c, c |-> -a[1].c], s)
                         ELSE R([k |-> "rev", id |-> a[1].id], s)
    [] n = "enumerate" -> R([k |-> "enum", i |-> a[1], n |-> IF Len(a) = 2 THEN a[2] ELSE KwOr(ks, "start", N("0"))], s)
    [] n = "zip" -> R([k |-> "zip", a |-> a], s)
    [] n = "map" -> IF Len(a) = 2 THEN R([k |-> "map", f |-> a[1], i |-> a[2], sp |-> FALSE], s)
                    ELSE R([k |-> "map", f |-> a[1], i |-> [k |-> "zip", a |-> Tail(a)], sp |-> TRUE], s)
    [] n = "filter" -> R([k |-> "filter", f |-> a[1], i |-> a[2]], s)
    [] n = "iter" -> IF Indexed(a[1])
                     THEN LET c == New("cell", <<a[1], 1>>, s) IN R([k |-> "it", id |-> c.v.id], c.s) ELSE R(a[1], s)
    [] n = "next" ->
         LET c == s.h[a[1].id].f
         IN IF c[2] > ItLen(c[1], s) THEN R(None, Sg(s, "halt"))
            ELSE R(ItAt(c[1], c[2], s), SetF(a[1].id, 2, c[2] + 1, s))
    [] n = "sum" -> LET r == Fold("sum", a[1], None, <<IF Len(a) = 2 THEN a[2] ELSE N("0")>>, s) IN R(r.c[1], r.s)
    [] n = "any" -> LET r == Fold("any", a[1], None, <<B(FALSE)>>, s) IN R(r.c[1], r.s)
    [] n = "all" -> LET r == Fold("all", a[1], None, <<B(TRUE)>>, s) IN R(r.c[1], r.s)
    [] n \in {"min", "max"} ->
         LET f == KwOr(ks, "key", None) IN
         IF Len(a) > 1 THEN Pick(n, f, a, 1, <<>>, s)
         ELSE LET r == Fold(n, a[1], f, <<None, None>>, s)
                  d == KwOr(ks, "default", None)
              IN IF ~Ok(r.s) \/ r.c[1].k # "z" THEN R(r.c[1], r.s)
                 ELSE IF d.k # "z" THEN R(d, r.s) ELSE R(None, Sg(r.s, "halt"))
    [] OTHER -> R(None, Sg(s, "stuck"))

------------------------------------------------------------------------------
(* Expressions *)

E(e, s) ==
  IF ~Ok(s) THEN R(None, s) ELSE
  CASE e.k = "n" -> R(N(e.v), s)
    [] e.k = "v" -> R(Look(e.n, s.cf, s), s)
    [] e.k = "z" -> R(None, s)
    [] e.k = "undef" -> R(NoDef, s)
    [] e.k = "b" -> LET x == E(e.l, s)
                        y == E(e.r, x.s)
                    IN Bin(e.op, x.v, y.v, y.s)
    [] e.k = "u" ->
         LET x == E(e.e, s) IN
         IF ~Ok(x.s) THEN x
         ELSE CASE e.op = "not" -> R(B(~Truth(x.v)), x.s)
                [] x.v.k = "n" -> IF e.op = "-" THEN Num(FNeg(x.v.v), x.s) ELSE x
                [] e.op = "-" -> CallMethod(x.v, "__neg__", <<>>, x.s)
                [] OTHER -> Copy(x.v, x.s)
    [] e.k = "and" -> Logic(e.a, 1, FALSE, s)
    [] e.k = "or" -> Logic(e.a, 1, TRUE, s)
    [] e.k = "c" -> LET l == E(e.a[1], s) IN IF Ok(l.s) THEN Chain(e, 1, l.v, l.s) ELSE l
    [] e.k = "if" -> LET c == E(e.c, s) IN IF Ok(c.s) THEN E(IF Truth(c.v) THEN e.t ELSE e.e, c.s) ELSE c
    [] e.k = "w" -> LET r == E(e.e, s) IN R(r.v, IF Ok(r.s) THEN Bind(e.n, r.v, r.s) ELSE r.s)
    [] e.k = "at" -> LET r == E(e.e, s) IN IF Ok(r.s) THEN GetAttr(r.v, e.n, r.s) ELSE r
    [] e.k = "ix" -> LET r == E(e.e, s)
                         i == E(e.i, r.s)
                     IN IF Ok(i.s) THEN GetItem(r.v, i.v, i.s) ELSE i
    [] e.k = "t" -> LET r == EA(e.a, 1, <<>>, s) IN R(Tup(r.a), r.s)
    [] e.k = "arr" -> LET r == EA(e.a, 1, <<>>, s)    \* arrays hold copies of what they are made from
                          c == CopyAll(r.a, 1, <<>>, r.s)
                      IN IF Ok(r.s) THEN New("arr", c.a, c.s) ELSE R(None, r.s)
    [] e.k = "fn" -> Closure(e.d, s)
    [] e.k = "bi" -> LET r == EA(e.a, 1, <<>>, s)
                         q == EK(e.kw, 1, <<>>, r.s)
                     IN Builtin(e.n, r.a, q.a, q.s)
    [] e.k = "call" -> LET f == E(e.f, s)
                           r == EA(e.a, 1, <<>>, f.s)
                           q == EK(e.kw, 1, <<>>, r.s)
                       IN IF Ok(q.s) THEN Call(f.v, r.a, q.a, q.s) ELSE R(None, q.s)
    [] e.k = "ge" ->
         LET r == E(e.gens[1].it, s)      \* the first iterable is evaluated at once, in the enclosing frame
             z == Frame(s.cf, <<>>, r.s)
         IN R([k |-> "ge", nd |-> e, first |-> r.v, fr |-> Len(z.fr)], z)
    [] OTHER -> R(None, Sg(s, "stuck"))

------------------------------------------------------------------------------
(* Patterns: whether v matches, binding names on the way *)

RECURSIVE PAll(_, _, _, _)
PAll(ps, vs, i, s) ==
  IF i > Len(ps) THEN R(B(TRUE), s)
  ELSE LET r == PMatch(ps[i], vs[i], s) IN IF Ok(r.s) /\ Truth(r.v) THEN PAll(ps, vs, i + 1, r.s) ELSE r
RECURSIVE PAny(_, _, _, _)
PAny(ps, v, i, s) ==
  LET r == PMatch(ps[i], v, s) IN IF ~Ok(r.s) \/ Truth(r.v) \/ i = Len(ps) THEN r ELSE PAny(ps, v, i + 1, r.s)
RECURSIVE PAttrs(_, _, _, _)
PAttrs(ps, v, i, s) ==
  IF i > Len(ps) THEN R(B(TRUE), s)
  ELSE LET x == GetAttr(v, ps[i][1], s)
           r == PMatch(ps[i][2], x.v, x.s)
       IN IF Ok(r.s) /\ Truth(r.v) THEN PAttrs(ps, v, i + 1, r.s) ELSE r

PMatch(p, v, s) ==
  IF ~Ok(s) THEN R(B(FALSE), s) ELSE
  CASE p.k = "pw" -> R(B(TRUE), s)
    [] p.k = "pc" -> R(B(TRUE), Bind(p.n, v, s))
    [] p.k = "pv" -> LET r == E(p.e, s) IN Cmp("==", v, r.v, r.s)
    [] p.k = "pz" -> R(B(v.k = "z"), s)
    [] p.k = "po" -> PAny(p.ps, v, 1, s)
    [] p.k = "pas" -> LET r == PMatch(p.p, v, s) IN IF Ok(r.s) /\ Truth(r.v) THEN R(r.v, Bind(p.n, v, r.s)) ELSE r
    [] p.k = "ps" -> IF ~Indexed(v) \/ (v.k = "r" /\ Obj(v, s).c # "arr") \/ ItLen(v, s) # Len(p.ps) THEN R(B(FALSE), s)
                     ELSE PAll(p.ps, [i \in 1..ItLen(v, s) |-> ItAt(v, i, s)], 1, s)
    [] p.k = "pn" -> R(B(v.k = "n"), s)
    [] p.k = "pcls" -> IF ClassOf(v, s) # p.c THEN R(B(FALSE), s) ELSE PAttrs(p.ps, v, 1, s)
    [] OTHER -> R(B(FALSE), Sg(s, "stuck"))

------------------------------------------------------------------------------
(* Statements *)

Block(b, i, s) == IF i > Len(b) \/ ~Ok(s) THEN s ELSE Block(b, i + 1, Ex(b[i], s))

RECURSIVE While(_, _)
While(st, s) ==
  IF s.f = 0 THEN Sg(s, "fuel")
  ELSE LET c == E(st.c, [s EXCEPT !.f = @ - 1]) IN
       IF ~Ok(c.s) THEN c.s
       ELSE IF ~Truth(c.v) THEN Block(st.o, 1, c.s)
       ELSE LET z == Block(st.b, 1, c.s)
            IN CASE z.sg = "brk" -> [z EXCEPT !.sg = "run"]
                 [] z.sg \in {"cont", "run"} -> While(st, [z EXCEPT !.sg = "run"])
                 [] OTHER -> z

RECURSIVE Cases_(_, _, _, _)
Cases_(cs, i, v, s) ==
  IF i > Len(cs) THEN s
  ELSE LET r == PMatch(cs[i].p, v, s) IN
       IF ~Ok(r.s) THEN r.s
       ELSE IF ~Truth(r.v) THEN Cases_(cs, i + 1, v, r.s)
       ELSE LET g == IF cs[i].g.k = "u" THEN R(B(TRUE), r.s) ELSE E(cs[i].g, r.s) IN
            IF ~Ok(g.s) THEN g.s
            ELSE IF Truth(g.v) THEN Block(cs[i].b, 1, g.s) ELSE Cases_(cs, i + 1, v, g.s)

Ex(st, s) ==
  CASE st.k = "as" -> LET r == E(st.e, s) IN IF Ok(r.s) THEN AssignEach(st.ts, r.v, 1, r.s) ELSE r.s
    [] st.k = "aug" ->
         (CASE st.t.k = "v" ->
                 LET y == E(st.e, s)
                     z == Aug(st.op, Look(st.t.n, s.cf, s), y.v, y.s)
                 IN IF Ok(z.s) THEN Bind(st.t.n, z.v, z.s) ELSE z.s
            [] st.t.k = "at" ->
                 LET o == E(st.t.e, s)
                     x == IF Ok(o.s) THEN GetAttr(o.v, st.t.n, o.s) ELSE o
                     y == E(st.e, x.s)
                     z == Aug(st.op, x.v, y.v, y.s)
                 IN IF Ok(z.s) THEN SetAttr(o.v, st.t.n, z.v, z.s) ELSE z.s
            [] OTHER ->
                 LET o == E(st.t.e, s)
                     i == E(st.t.i, o.s)
                     x == IF Ok(i.s) THEN GetItem(o.v, i.v, i.s) ELSE i
                     y == E(st.e, x.s)
                     z == Aug(st.op, x.v, y.v, y.s)
                 IN IF Ok(z.s) THEN SetItem(o.v, i.v, z.v, z.s) ELSE z.s)
    [] st.k = "ex" -> E(st.e, s).s
    [] st.k = "if" -> LET c == E(st.c, s) IN IF Ok(c.s) THEN Block(IF Truth(c.v) THEN st.b ELSE st.o, 1, c.s) ELSE c.s
    [] st.k = "wh" -> While(st, s)
    [] st.k = "for" ->
         LET it == E(st.it, s)
             id == it.s.nx
             z == Iter(it.v, [k |-> "for", t |-> st.t, b |-> st.b, fr |-> s.cf, id |-> id], [it.s EXCEPT !.nx = @ - 1])
         IN IF ~Ok(it.s) THEN it.s
            ELSE IF z.sg = "gstop" /\ z.gd = id
            THEN [z EXCEPT !.sg = IF z.po = "brk" THEN "run" ELSE "ret", !.cf = s.cf, !.hs = s.hs]
            ELSE IF Ok(z) THEN Block(st.o, 1, [z EXCEPT !.cf = s.cf]) ELSE z
    [] st.k = "br" -> Sg(s, "brk")
    [] st.k = "co" -> Sg(s, "cont")
    [] st.k = "re" -> LET r == E(st.e, s) IN IF Ok(r.s) THEN [r.s EXCEPT !.sg = "ret", !.rv = r.v] ELSE r.s
    [] st.k = "pa" -> s
    [] st.k = "ma" -> LET r == E(st.e, s) IN IF Ok(r.s) THEN Cases_(st.cs, 1, r.v, r.s) ELSE r.s
    [] st.k = "def" -> LET r == Closure(st.d, s) IN Bind(st.n, r.v, r.s)
    [] st.k = "assert" -> LET r == E(st.e, s) IN IF Ok(r.s) /\ ~Truth(r.v) THEN Sg(r.s, "halt") ELSE r.s
    [] st.k = "yi" -> LET r == E(st.e, s) IN IF Ok(r.s) THEN YieldTo(r.v, r.s) ELSE r.s
    [] st.k = "yf" -> LET r == E(st.e, s) IN IF Ok(r.s) THEN Iter(r.v, [k |-> "yield"], r.s) ELSE r.s
    [] OTHER -> Sg(s, "stuck")

------------------------------------------------------------------------------
(* A run of the program's main function on the numbers a. *)

State(P, fuel) ==
  [P |-> P, h |-> <<>>, fr |-> <<[p |-> 1, b |-> <<>>]>>, cf |-> 1, hs |-> <<>>, tr |-> <<>>, sg |-> "run",
   rv |-> None, gd |-> 0, po |-> "", nx |-> -1, f |-> fuel]
\* the module's definitions: classes, then functions (in order)
RECURSIVE Define(_, _, _)
Define(fs, i, s) ==
  IF i > Len(fs) THEN s
  ELSE LET d == fs[i][2]
           r == IF d.k = "global" THEN E(d.e, s) ELSE Closure(d.d, s)
       IN Define(fs, i + 1, Bind(fs[i][1], r.v, r.s))
Module(P, fuel) ==
  LET s == State(P, fuel)
      cs == [c \in DOMAIN P.cls |-> [k |-> "ty", c |-> c]]
  IN Define(P.fns, 1, [s EXCEPT !.fr[1].b = cs])
Main(P, a, fuel) ==
  LET s == Module(P, fuel)
  IN Call(Look("main", 1, s), [i \in 1..Len(a) |-> N(a[i])], <<>>, s).s
=============================================================================
