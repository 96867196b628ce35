---------------------------- MODULE CollectionTrace ----------------------------
(***************************************************************************)
(* Acceptor for observed histories of collections: every operation with    *)
(* its arguments and what it returned, and the files of every site written.*)
(***************************************************************************)
EXTENDS Collection, IOUtils

Cases == JsonDeserialize(IOEnv.COL_CASES)

VARIABLES c, i, K, on
tvars == <<c, i, K, on, col, shelf, hist>>

Tally(k, n) == TLCSet(k, TLCGet(k) + n)
TInit == /\ \A k \in 1..5 : TLCSet(k, 0)
         /\ c \in 1..Len(Cases) /\ i = 1 /\ on = TRUE
         /\ K = [j \in 1..Cases[c].n |-> New]
         /\ col = <<>> /\ shelf = <<>> /\ hist = <<>>

Range(q) == {q[j] : j \in 1..Len(q)}
\* the list of items a listing or section shows, if it has that form
Shows(v) == IF Has(v, "items") THEN Get(v, "items")
            ELSE IF Has(v, "sections") /\ Len(Get(v, "sections")[2]) = 1 THEN Get(Get(v, "sections")[2][1], "items")
            ELSE <<"z">>
Bare(v) == IF Has(v, "items") THEN Set(v, "items", Empty)
           ELSE IF Has(v, "sections") /\ Len(Get(v, "sections")[2]) = 1
                THEN Set(v, "sections", Arr(<<Set(Get(v, "sections")[2][1], "items", Empty)>>))
           ELSE v
\* files up to the order of items where that is not specified
File(C, f) == IF Len(f.p) = 2 /\ f.p[1] \in C.loose /\ f.p[2] \in {"info", "list"} /\ Shows(f.v)[1] = "a"
              THEN [p |-> f.p, v |-> Bare(f.v), s |-> Range(Shows(f.v)[2]), n |-> Len(Shows(f.v)[2])]
              ELSE [p |-> f.p, v |-> f.v, s |-> {}, n |-> 0]
SiteVerdict(C, s) ==
  LET E == {File(C, f) : f \in Site(C)}
      O == {File(C, f) : f \in Range(s.site)}
      miss == {f \in E : f.p \notin {g.p : g \in O}}
      more == {g \in O : g.p \notin {f.p : f \in E}}
  IN CASE miss # {} -> "a file is missing from the site"
       [] s.fresh /\ more # {} -> "the site has a file of nothing in the collection"
       [] E \subseteq O -> "ok"
       [] OTHER -> "a file of the site differs"

\* what an operation makes of the collections
After(s) ==
  CASE s.o = "add"    -> [K EXCEPT ![s.c] = AddItem(@, s.cat, s.n, s.v)]
    [] s.o = "asset"  -> [K EXCEPT ![s.c] = AddAsset(@, s.n)]
    [] s.o = "source" -> [K EXCEPT ![s.c] = LoadSource(@, s.src, 1)]
    [] s.o = "load"   -> [K EXCEPT ![s.c] = LoadPackage(@, s.es, 1)]
    [] s.o = "update" -> [K EXCEPT ![s.c] = Update(@, K[s.d])]
    [] s.o = "name"   -> [K EXCEPT ![s.c].name = s.n]
    [] s.o \in {"link", "write"} -> IF Linkable(K[s.c]) THEN [K EXCEPT ![s.c] = Link(@)] ELSE K
    [] OTHER -> K
Verdict(s, L) ==
  CASE s.o = "asset" -> IF s.r = <<"srl", s.n>> THEN "ok" ELSE "the asset returned is not the one added"
    [] s.o = "get" ->
         LET q == K[s.c].items[s.cat]
         IN IF s.n \in Names(q) THEN IF s.r = Get(Find(q, s.n), "item") THEN "ok" ELSE "not the item of that name"
            ELSE IF s.r = <<"error">> THEN "ok" ELSE "an item is found that was never added"
    [] s.o = "default" ->
         LET q == K[s.c].items[s.cat]
         IN IF q = <<>> THEN IF s.r = <<"error">> THEN "ok" ELSE "an item is found that was never added"
            ELSE IF s.cat \in K[s.c].loose /\ \E j \in 1..Len(q) : s.r = Get(q[j].d, "item") THEN "ok"
            ELSE IF s.r = Get(q[1].d, "item") THEN "ok" ELSE "not the first item"
    [] s.o \in {"link", "write"} ->
         IF s.r # <<"ok">> THEN IF Linkable(K[s.c]) THEN "linking or writing failed" ELSE "ok"
         ELSE IF ~Linkable(K[s.c]) THEN "a level without its engine was linked"
         ELSE IF s.o = "write" THEN SiteVerdict(L[s.c], s) ELSE "ok"
    [] OTHER -> IF s.r = <<"ok">> THEN "ok" ELSE "the operation failed"

TNext ==
  /\ on /\ i <= Len(Cases[c].steps)
  /\ LET s == Cases[c].steps[i]
         L == After(s)
         v == Verdict(s, L)
     IN /\ IF v = "ok" THEN TRUE
           ELSE PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, step |-> i, clause |-> v,
                  ops |-> [j \in 1..i |-> LET t == Cases[c].steps[j] IN <<t.o, t.c, t.cat, t.n>>]])>>) /\ Tally(2, 1)
        /\ K' = L /\ i' = i + 1 /\ on' = (v = "ok")
        /\ Tally(1, 1) /\ Tally(3, IF s.o = "write" THEN 1 ELSE 0) /\ Tally(4, IF s.o = "write" THEN Len(s.site) ELSE 0)
  /\ UNCHANGED <<c, col, shelf, hist>>
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"STATS", ToJson([operations |-> TLCGet(1), failed |-> TLCGet(2), sites |-> TLCGet(3), files |-> TLCGet(4)])>>)
=============================================================================
