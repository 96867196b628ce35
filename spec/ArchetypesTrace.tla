--------------------------- MODULE ArchetypesTrace ---------------------------
(* Packaged engines and levels, and what their callbacks did, judged by       *)
(* Archetypes.tla.                                                            *)
EXTENDS Archetypes, IOUtils

Cases == JsonDeserialize(IOEnv.ARCH_CASES)

\* k: 0 the engine itself, h > 0 the h-th history
VARIABLES c, o, k, done
vars == <<c, o, k, done>>
Tally(i, n) == TLCSet(i, TLCGet(i) + n)

\* o = 0: the level
Init == /\ \A i \in 1..5 : TLCSet(i, 0)
        /\ c \in 1..Len(Cases) /\ o \in 0..Len(Cases[c].obs)
        /\ k \in (IF o = 0 THEN {0} ELSE 0..Len(Cases[c].P.hist))
        /\ done = FALSE

Fail(prop, clause, data) ==
  /\ PrintT(<<"FAIL", ToJson([prop |-> prop, id |-> Cases[c].id, cfg |-> IF o = 0 THEN "" ELSE Cases[c].obs[o].cfg,
                              at |-> k, clause |-> clause, data |-> data])>>)
  /\ Tally(5, 1)
Judge(ok, prop, clause, data) == IF ok THEN TRUE ELSE Fail(prop, clause, data)

\* ---- the engine -----------------------------------------------------------------
ImportsOk(T, x, a, w) ==
  LET fs == SelectSeq(T.fields[x], LAMBDA f : f.st = "imported")
      entry(cell) == {e \in Range(a.imports) : e[2] = cell}
  IN /\ Len(a.imports) = Len(Flat([i \in 1..Len(fs) |-> w[fs[i].n]]))
     /\ Distinct([i \in 1..Len(a.imports) |-> a.imports[i][1]])
     /\ \A f \in Range(fs) : \A j \in 1..f.np :
          LET E == entry(w[f.n][j])
          IN /\ Cardinality(E) = 1
             /\ LET e == CHOOSE e \in E : TRUE
                IN /\ e[3] = f.def
                   /\ f.num = 1 => e[1] = (IF f.dn = "" THEN f.n ELSE f.dn)
ExportsOk(T, x, a, w) ==
  LET fs == SelectSeq(T.fields[x], LAMBDA f : f.st = "exported")
  IN /\ Len(a.exports) = Len(Flat([i \in 1..Len(fs) |-> w[fs[i].n]]))
     /\ Distinct(a.exports)
     /\ \A f \in Range(fs) : f.num = 1 => (w[f.n][1] + 1 \in DOMAIN a.exports) /\ a.exports[w[f.n][1] + 1] = (IF f.dn = "" THEN f.n ELSE f.dn)
Names(pairs) == [i \in 1..Len(pairs) |-> pairs[i][1]]
Ids(pairs) == [i \in 1..Len(pairs) |-> pairs[i][2]]
AllNames(res) == Flat([i \in 1..Len(res) |-> res[i].names])
\* every name once, every id once
Registry(pairs, names) == /\ Range(Names(pairs)) = Range(names) /\ Distinct(Names(pairs)) /\ Distinct(Ids(pairs))

Arch(P, T, m, i, a) ==
  LET x == P.modes[m][i]
      want == {b \in Callbacks[m] : Defined(P, T, x, b)}
  IN /\ Judge(a.name = NameOf(P, x), "C14", "an archetype's name", [class |-> x, name |-> a.name])
     /\ Judge(a.hasInput = T.scored[x], "C14", "whether an archetype is scored", [class |-> x])
     /\ Judge(DOMAIN a.cbs = want, "C14", "the callbacks an archetype has", [class |-> x, has |-> DOMAIN a.cbs, wants |-> want])
     /\ Judge(\A b \in want \cap DOMAIN a.cbs : a.cbs[b] = (IF b = Probe[m] THEN 0 ELSE Order(P, T, x, b)), "C14", "the order of a callback",
              [class |-> x, has |-> a.cbs])

Sane(w) == ~Has(w, "!")
EngineMode(C, O, P, T, m) ==
  LET E == O.eng[m]
      L == P.modes[m]
      ws == [x \in Range(L) |-> O.wit[m][x]]
      fine == \A x \in Range(L) : Sane(ws[x]) /\ Whole(T, x, ws[x])
  IN IF E.on = 0 THEN Judge(E.arch = <<>>, "C14", "a mode that is not built has archetypes", m)
     ELSE /\ IF Len(E.arch) # Len(L) THEN Fail("C14", "the archetypes of a mode", [mode |-> m])
             ELSE \A i \in 1..Len(L) : Arch(P, T, m, i, E.arch[i])
          /\ IF ~fine THEN Fail("C16", "fields cannot be read or written", [mode |-> m])
             ELSE \A i \in 1..Len(L) :
                    LET x == L[i] w == ws[x] IN
                    /\ Judge(InRange(T, x, w), "C16", "a field is outside the entity's memory", [class |-> x, where |-> w])
                    /\ Judge(Apart(T, x, w), "C16", "fields overlap", [class |-> x, where |-> w])
                    /\ IF Len(E.arch) # Len(L) THEN TRUE
                       ELSE /\ Judge(ImportsOk(T, x, E.arch[i], w), "C14", "the imports of an archetype", [class |-> x, imports |-> E.arch[i].imports, where |-> w])
                            /\ m = "play" => Judge(ExportsOk(T, x, E.arch[i], w), "C14", "the exports of an archetype",
                                                   [class |-> x, exports |-> E.arch[i].exports, where |-> w])
          /\ IF fine THEN \A x \in {x \in 1..Len(P.cls) : P.cls[x].mode = m} : Judge(Agree(T, x, ws), "C16", "a subclass moves an inherited field", [class |-> x]) ELSE TRUE
GlobalsOk(O, P, m) ==
  LET seen == O.globs[m]
      gs == SelectSeq(P.globs, LAMBDA g : m # "preview" \/ g.kind = "data")
      cells(g) == Flat([i \in 1..Len(g.fields) |-> seen[1][g.n \o "." \o g.fields[i].n]])
      of(kind) == LET q == SelectSeq(gs, LAMBDA g : g.kind = kind) IN Flat([i \in 1..Len(q) |-> cells(q[i])])
  IN seen # <<>> =>
       /\ Judge(\A i \in 1..Len(seen) : seen[i] = seen[1], "C16", "archetypes disagree on where globals are", m)
       /\ Judge(\A x \in Range(of("memory")) \cup Range(of("data")) : x >= 0, "C16", "globals are outside their block", m)
       /\ Judge(Distinct(of("memory")) /\ Distinct(of("data")), "C16", "globals overlap", m)
Engine(C, O, P, T) ==
  /\ \A m \in Modes : EngineMode(C, O, P, T, m) /\ GlobalsOk(O, P, m)
  /\ GlobalsOk(O, P, "tutorial")
  /\ \A m \in Modes \cup {"tutorial"} : IF O.eng[m].on = 0 THEN TRUE ELSE
       LET N == O.eng[m].names IN
       /\ Judge(Registry(N.draw, AllNames(P.res.draw)), "C14", "sprites", N.draw)
       /\ m # "preview" => /\ Judge(Registry(N.play, AllNames(P.res.play)), "C14", "effect clips", N.play)
                           /\ Judge(Registry(N.particle, AllNames(P.res.particle)), "C14", "particles", N.particle)
       /\ m = "tutorial" => Judge(Registry(N.text, [i \in 1..Len(P.texts) |-> "#" \o P.texts[i]]), "C14", "instructions", N.text)
       /\ m \in {"play", "watch"} => Judge(N.unit = [i \in 1..P.nbuckets |-> <<"unit" \o ToString(i - 1), i - 1>>], "C14", "buckets", N.unit)
  /\ Judge(O.opts = [i \in 1..Len(P.opts) |-> <<IF P.opts[i].name = "" THEN P.opts[i].n ELSE P.opts[i].name, i - 1>>], "C14", "options", O.opts)

\* ---- histories -------------------------------------------------------------------
\* where the fields of a class are: as in any archetype that has them
LayOf(O, P, T, m) ==
  [x \in {x \in 1..Len(P.cls) : \E y \in Range(P.modes[m]) : IsA(T, y, x)} |->
     LET y == IF x \in Range(P.modes[m]) THEN x ELSE CHOOSE y \in Range(P.modes[m]) : IsA(T, y, x) IN O.wit[m][y]]
RECURSIVE Steps(_, _, _, _, _, _)
Steps(X, W, h, seen, i, n) ==
  IF i > Len(h.cbs) THEN n
  ELSE LET m == h.cbs[i]
           S == seen[i]
           r == IF h.cls # 0 /\ ~Defined(X.P, X.T, h.cls, m) THEN [W |-> Fresh(W), ret |-> Default(m)] ELSE TLCEval(Run(X, W, h.cls, m))
           clause ==
             CASE S.end = "absent" -> IF h.cls # 0 /\ ~Defined(X.P, X.T, h.cls, m) THEN "" ELSE "the callback is missing"
               [] S.end # "ok" -> "the callback does not end"
               [] S.log # r.W.log -> "effects"
               [] [x \in {S.exp[j][1] : j \in 1..Len(S.exp)} |-> LET q == SelectSeq(S.exp, LAMBDA e : e[1] = x) IN q[Len(q)][2]] # r.W.exp
                    /\ (S.exp # <<>> \/ DOMAIN r.W.exp # {}) -> "exported values"
               [] m \in Values /\ S.ret # r.ret -> "the result"
               [] Range(S.mem) # Changed(X, r.W) -> "memory"
               [] OTHER -> ""
       IN IF clause = "" THEN Steps(X, r.W, h, seen, i + 1, n + 1)
          ELSE IF Fail("run", clause, [mode |-> h.mode, class |-> h.cls, cb |-> m, step |-> i, saw |-> S, want |-> r.W.log, ret |-> r.ret,
                       mem |-> Changed(X, r.W) \ Range(S.mem), extra |-> Range(S.mem) \ Changed(X, r.W), end |-> S.end]) THEN n + 1 ELSE n
Judged(O, P, T, h) ==
  /\ O.hist[k] # <<>>
  /\ P.globs = <<>> \/ O.globs[h.mode] # <<>>
  /\ h.mode \in Modes => \A x \in Range(P.modes[h.mode]) : Sane(O.wit[h.mode][x]) /\ Whole(T, x, O.wit[h.mode][x])
History(O, P, T, h) ==
  LET X == TLCEval([P |-> P, T |-> T, mode |-> h.mode, mine |-> IF h.cls = 0 THEN 0 ELSE At(P.modes[h.mode], h.cls) - 1, seed |-> h.seed,
            lay |-> IF h.mode = "tutorial" THEN <<>> ELSE TLCEval(LayOf(O, P, T, h.mode)),
            globs |-> IF O.globs[h.mode] = <<>> THEN <<>> ELSE O.globs[h.mode][1],
            names |-> O.eng[h.mode].names, opts |-> O.opts])
  IN Steps(X, Start, h, O.hist[k], 1, 0)

\* ---- the level -------------------------------------------------------------------
Final(e, f) ==
  LET q == SelectSeq(e.later, LAMBDA x : x[1] = f)
  IN IF q # <<>> THEN q[Len(q)][2] ELSE IF f \in DOMAIN e.vals THEN e.vals[f] ELSE <<>>
Level(C, P, T) ==
  LET L == C.level
      V == P.level
      n == Len(V.ents)
      \* some configuration says what the imports of the archetype are called
      O == IF \E i \in 1..Len(C.obs) : C.obs[i].eng.play.on = 1
           THEN CHOOSE i \in 1..Len(C.obs) : C.obs[i].eng.play.on = 1 /\ \A j \in 1..(i - 1) : C.obs[j].eng.play.on = 0 ELSE 0
      entity(i) ==
        LET e == V.ents[i]
            s == L.ents[i]
            x == L.ext[i]
            w == C.obs[O].wit.play[e.cls]
            imports == C.obs[O].eng.play.arch[At(P.modes.play, e.cls)].imports
            named(name) == SelectSeq(s.data, LAMBDA d : d[1] = name)
            outer(name) == SelectSeq(x.data, LAMBDA d : d[1] = name)
            entryName(cell) == (CHOOSE im \in Range(imports) : im[2] = cell)[1]
            number(f, j, vs) ==
              LET cell == w[f.n][j]
                  q == named(entryName(cell))
              IN IF vs = <<>> THEN \/ q = <<>> \/ f.def # Absent
                                   \/ (q[1][2] = "n" /\ q[1][3] = 0 /\ Len(q) = 1)
                 ELSE /\ Len(q) = 1
                      /\ IF vs[j][1] = "n" THEN q[1][2] = "n" /\ q[1][3] = vs[j][2]
                         ELSE q[1][2] = "@" /\ q[1][4] = L.ents[vs[j][2] + 1].name
            outside(d) == LET q == outer(d[1])
                          IN Len(q) = 1 /\ q[1][2] = (IF d[2] = "n" THEN d[3]
                                                      ELSE LET j == CHOOSE j \in 1..n : L.ents[j].name = d[4] IN j - 1)
        IN /\ Judge(s.arch = NameOf(P, e.cls) /\ x.arch = s.arch, "C16", "the archetype of an entity", [entity |-> i, saw |-> s.arch])
           /\ Judge(Distinct([j \in 1..Len(s.data) |-> s.data[j][1]]), "C16", "an entity has an entry twice", [entity |-> i, data |-> s.data])
           /\ Judge(\A d \in Range(s.data) : d[2] = "n" \/ \E j \in 1..n : L.ents[j].name = d[4], "C16", "a reference to nothing", [entity |-> i])
           /\ Judge(Len(x.data) = Len(s.data) /\ \A d \in Range(s.data) : outside(d), "C16", "reading a level back", [entity |-> i, data |-> s.data, ext |-> x.data])
           /\ IF O = 0 THEN TRUE
              ELSE IF ~(Sane(w) /\ Whole(T, e.cls, w)) \/ ~ImportsOk(T, e.cls, C.obs[O].eng.play.arch[At(P.modes.play, e.cls)], w) THEN TRUE
              ELSE \A f \in Range(T.fields[e.cls]) :
                   f.st = "imported" => \A j \in 1..f.np :
                     Judge(number(f, j, Final(e, f.n)), "C16", "a value of an entity", [entity |-> i, field |-> f.n, number |-> j, given |-> Final(e, f.n), data |-> s.data])
  IN IF L.error # "" THEN Fail("C16", "the level is not built", L.error)
     ELSE IF Len(L.ents) # n \/ Len(L.ext) # n THEN Fail("C16", "the entities of a level", [n |-> Len(L.ents)])
     ELSE /\ Judge(L.bgm = V.bgm, "C16", "the offset of a level", L.bgm)
          /\ Judge(Distinct([i \in 1..n |-> L.ents[i].name]), "C16", "two entities have one name", L.ents)
          /\ \A i \in 1..n : entity(i)

Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<c, o, k>>
  /\ LET C == Cases[c]
         P == C.P
         T == Tab(P)
     IN IF o = 0
        THEN /\ Judge(\A x \in 1..Len(P.cls) : T.mro[x] = P.cls[x].mro, "model", "the order of classes", T.mro)
             /\ Level(C, P, T) /\ Tally(1, Len(P.level.ents))
        ELSE LET O == C.obs[o] IN
             IF k = 0 THEN Engine(C, O, P, T) /\ Tally(2, Len(P.cls))
             ELSE IF Judged(O, P, T, P.hist[k]) THEN Tally(3, History(O, P, T, P.hist[k])) ELSE Tally(4, 1)
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"STATS", ToJson([entities |-> TLCGet(1), classes |-> TLCGet(2), callbacks |-> TLCGet(3), unjudged |-> TLCGet(4), failed |-> TLCGet(5)])>>)
=============================================================================
