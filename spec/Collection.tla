------------------------------ MODULE Collection ------------------------------
(***************************************************************************)
(* A resource collection: named items in categories, assets identified by  *)
(* their content, and the site written from them.                          *)
(*                                                                         *)
(* Values are JSON in tagged form: <<"s", text>>, <<"n", number>>,         *)
(* <<"b", "true">>, <<"z">>, <<"a", sequence>>, <<"o", record>>, and       *)
(* <<"srl", d>> for a reference to the asset with content d.               *)
(*                                                                         *)
(* The operators say what every operation does to a collection (a value    *)
(* of its own: no two collections share anything).  The module is also a   *)
(* small machine over two collections and a shelf of written packages,     *)
(* whose histories TLC enumerates; they are replayed into the code.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Categories == {"posts", "playlists", "levels", "replays", "skins", "backgrounds", "effects", "particles", "engines"}
Singular == [posts |-> "post", playlists |-> "playlist", levels |-> "level", replays |-> "replay", skins |-> "skin",
             backgrounds |-> "background", effects |-> "effect", particles |-> "particle", engines |-> "engine"]
\* the order in which the main page shows the categories
Shown == <<"levels", "engines", "skins", "effects", "particles", "backgrounds", "posts", "playlists", "replays">>
Localized == {"title", "subtitle", "author", "description", "artists"}
\* languages in alphabetical order
Languages == <<"de", "en", "es", "fr", "ja", "ko", "zh-hans", "zh-hant">>
Uses == [useSkin |-> "skins", useBackground |-> "backgrounds", useEffect |-> "effects", useParticle |-> "particles"]

\* ---- JSON ------------------------------------------------------------------
Str(t) == <<"s", t>>
Arr(q) == <<"a", q>>
Obj(r) == <<"o", r>>
Empty == <<"a", <<>>>>
IsStr(v) == v[1] = "s"
IsObj(v) == v[1] = "o"
Has(v, k) == IsObj(v) /\ k \in DOMAIN v[2]
Get(v, k) == v[2][k]
Set(v, k, x) == Obj((k :> x) @@ v[2])
Drop(v, k) == Obj([j \in DOMAIN v[2] \ {k} |-> v[2][j]])

\* ---- localisation: English if there is any, else the first language, else nothing --------------
Text(v) ==
  CASE IsStr(v) -> v
    [] Has(v, "en") -> Get(v, "en")
    [] IsObj(v) /\ DOMAIN v[2] # {} ->
         LET i == CHOOSE i \in 1..Len(Languages) : /\ Languages[i] \in DOMAIN v[2]
                                                    /\ \A j \in 1..(i - 1) : Languages[j] \notin DOMAIN v[2]
         IN Get(v, Languages[i])
    [] OTHER -> Str("")
Localize(item) ==
  LET o == item[2]
  IN Obj([k \in DOMAIN o \ {"meta"} |->
            IF k \in Localized THEN Text(o[k])
            ELSE IF k = "tags" THEN Arr([i \in 1..Len(o[k][2]) |-> Set(o[k][2][i], "title", Text(Get(o[k][2][i], "title")))])
            ELSE o[k]])

\* ---- collections ---------------------------------------------------------------------------------
\* items: per category the items in order; loose: categories whose order is not specified
New == [name |-> "Unnamed", items |-> [c \in Categories |-> <<>>], repo |-> {}, loose |-> {}]

Names(q) == {q[i].n : i \in 1..Len(q)}
Put(q, n, d) ==
  IF n \in Names(q) THEN [i \in 1..Len(q) |-> IF q[i].n = n THEN [n |-> n, d |-> d] ELSE q[i]]
  ELSE Append(q, [n |-> n, d |-> d])
Find(q, n) == q[CHOOSE i \in 1..Len(q) : q[i].n = n].d
Details(item) == Obj([item |-> item, actions |-> Empty, hasCommunity |-> <<"b", "false">>, leaderboards |-> Empty, sections |-> Empty])

AddItem(C, cat, n, item) == [C EXCEPT !.items[cat] = Put(@, n, Details(Localize(item)))]
AddAsset(C, a) == [C EXCEPT !.repo = @ \cup {a}]

RECURSIVE PutAll(_, _, _)
PutAll(q, new, i) == IF i > Len(new) THEN q ELSE PutAll(Put(q, new[i].n, new[i].d), new, i + 1)
Update(C, D) == [C EXCEPT !.items = [c \in Categories |-> PutAll(C.items[c], D.items[c], 1)],
                          !.repo = @ \cup D.repo, !.loose = @ \cup D.loose]

\* a directory of unpacked items: src is a sequence of [cat, n, item (or <<"bad">>), res: sequence of [k, a]],
\* read in no particular order
RECURSIVE WithResources(_, _, _)
WithResources(v, res, i) == IF i > Len(res) THEN v ELSE WithResources(Set(v, res[i].k, <<"srl", res[i].a>>), res, i + 1)
RECURSIVE LoadSource(_, _, _)
LoadSource(C, src, i) ==
  IF i > Len(src) THEN C
  ELSE LET e == src[i]
           D == IF e.cat \notin Categories \/ e.item = <<"bad">> THEN C
                ELSE LET v == WithResources(Set(Localize(e.item), "name", Str(e.n)), e.res, 1)
                     IN [AddItem(C, e.cat, e.n, v) EXCEPT !.repo = @ \cup {e.res[j].a : j \in 1..Len(e.res)}, !.loose = @ \cup {e.cat}]
       IN LoadSource(D, src, i + 1)

\* a package: the entries of a written site in some order: [cat, n, d] items ("bad": not JSON) and assets
RECURSIVE LoadPackage(_, _, _)
LoadPackage(C, es, i) ==
  IF i > Len(es) THEN C
  ELSE LET e == es[i]
       IN LoadPackage(CASE e.cat = "repository" -> AddAsset(C, e.n)
                        [] e.cat \in Categories /\ e.d # <<"bad">> -> [C EXCEPT !.items[e.cat] = Put(@, e.n, e.d)]
                        [] OTHER -> C, es, i + 1)

\* ---- links: an engine given by name, and the resources a level uses, become the current items of their
\* ---- names (an engine that came with the level stays: whether to override it is the project's choice)
LinkName(v) == IF IsStr(v) THEN v[2] ELSE IF Has(v, "name") /\ IsStr(Get(v, "name")) THEN Get(v, "name")[2] ELSE ""
Current(C, cat, v) == IF LinkName(v) \in Names(C.items[cat]) THEN Get(Find(C.items[cat], LinkName(v)), "item") ELSE v
LinkUse(C, v, k) == IF ~Has(Get(v, k), "item") THEN v
                    ELSE Set(v, k, Set(Get(v, k), "item", Current(C, Uses[k], Get(Get(v, k), "item"))))
LinkLevel(C, v) ==
  LinkUse(C, LinkUse(C, LinkUse(C, LinkUse(C, Set(v, "engine", IF IsStr(Get(v, "engine")) THEN Current(C, "engines", Get(v, "engine")) ELSE Get(v, "engine")),
    "useSkin"), "useBackground"), "useEffect"), "useParticle")
\* an engine named by a level must exist
Linkable(C) == \A i \in 1..Len(C.items["levels"]) :
                 LET e == Get(Get(C.items["levels"][i].d, "item"), "engine") IN IsStr(e) => e[2] \in Names(C.items["engines"])
Link(C) == [C EXCEPT !.items["levels"] = [i \in 1..Len(@) |-> [@[i] EXCEPT !.d = Set(@, "item", LinkLevel(C, Get(@, "item")))]]]

\* ---- the site: its files, by path --------------------------------------------------------------------
ItemsOf(C, c) == Arr([i \in 1..Len(C.items[c]) |-> Get(C.items[c][i].d, "item")])
Present(C) == SelectSeq(Shown, LAMBDA c : C.items[c] # <<>>)
Main(C) == Obj([title |-> Str(C.name),
                buttons |-> Arr([i \in 1..Len(Present(C)) |-> Obj([type |-> Str(Singular[Present(C)[i]])])]),
                configuration |-> Obj([options |-> Empty])])
Section(C, c) == Obj([sections |-> Arr(<<Obj([itemType |-> Str(Singular[c]), title |-> Str("Items"), items |-> ItemsOf(C, c)])>>)])
Listing(C, c) == Obj([pageCount |-> <<"n", "1">>, items |-> ItemsOf(C, c)])
\* of a linked collection; repository files are [p |-> <<"repository", a>>, v |-> <<"asset">>] by content
Site(C) ==
  {[p |-> <<"info">>, v |-> Main(C)]}
  \cup UNION {{[p |-> <<c, "info">>, v |-> Section(C, c)], [p |-> <<c, "list">>, v |-> Listing(C, c)]}
              \cup {[p |-> <<c, C.items[c][i].n>>, v |-> C.items[c][i].d] : i \in 1..Len(C.items[c])}
              : c \in {x \in Categories : C.items[x] # <<>>}}
  \cup {[p |-> <<"repository", a>>, v |-> <<"asset">>] : a \in C.repo}

\* the entries a package made from a site consists of, items in the given order
RECURSIVE Entries(_, _, _)
Entries(C, cs, i) == IF i > Len(cs) THEN <<>>
                     ELSE [j \in 1..Len(C.items[cs[i]]) |-> [cat |-> cs[i], n |-> C.items[cs[i]][j].n, d |-> C.items[cs[i]][j].d]]
                          \o Entries(C, cs, i + 1)
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
Pack(C) == Entries(C, Shown, 1) \o SetToSeq({[cat |-> "repository", n |-> a, d |-> <<"asset">>] : a \in C.repo})

\* ---- the machine -------------------------------------------------------------------------------------
VARIABLES col, shelf, hist
vars == <<col, shelf, hist>>

Use0 == Obj([useDefault |-> <<"b", "true">>])
UseS == Obj([useDefault |-> <<"b", "false">>, item |-> Str("s")])
Item(cat, v) ==
  CASE cat = "levels" -> Obj([name |-> Str("l"), version |-> <<"n", v>>, engine |-> Str("e"),
                              useSkin |-> IF v = "1" THEN UseS ELSE Use0, useBackground |-> Use0, useEffect |-> Use0, useParticle |-> Use0])
    [] cat = "engines" -> Obj([name |-> Str("e"), version |-> <<"n", v>>])
    [] OTHER -> Obj([name |-> Str("s"), version |-> <<"n", v>>])
NameOf == [levels |-> "l", engines |-> "e", skins |-> "s"]
None == <<>>

Log(r) == hist' = Append(hist, r)
\* histories start from nothing, or from a collection with a level, its engine and its skin
Start == <<[o |-> "add", c |-> 1, cat |-> "levels", v |-> "1"], [o |-> "add", c |-> 1, cat |-> "engines", v |-> "1"],
           [o |-> "add", c |-> 1, cat |-> "skins", v |-> "1"]>>
Added(C, cat, v) == AddItem(C, cat, NameOf[cat], Item(cat, v))
Init == /\ shelf = None
        /\ \/ col = [c \in {1, 2} |-> New] /\ hist = <<>>
           \/ col = [c \in {1, 2} |-> IF c = 1 THEN Added(Added(Added(New, "levels", "1"), "engines", "1"), "skins", "1") ELSE New]
              /\ hist = Start
DoAdd(c, cat, v) == /\ col' = [col EXCEPT ![c] = Added(@, cat, v)]
                    /\ Log([o |-> "add", c |-> c, cat |-> cat, v |-> v]) /\ UNCHANGED shelf
DoUpdate(c) == /\ col' = [col EXCEPT ![c] = Update(@, col[3 - c])]
               /\ Log([o |-> "update", c |-> c, cat |-> "", v |-> ""]) /\ UNCHANGED shelf
DoWrite(c) == /\ Linkable(col[c])
              /\ col' = [col EXCEPT ![c] = Link(@)] /\ shelf' = Pack(Link(col[c]))
              /\ Log([o |-> "write", c |-> c, cat |-> "", v |-> ""])
DoLoad(c) == /\ shelf # None
             /\ col' = [col EXCEPT ![c] = LoadPackage(@, shelf, 1)]
             /\ Log([o |-> "load", c |-> c, cat |-> "", v |-> ""]) /\ UNCHANGED shelf
CONSTANT Depth
More == Len(hist) < (IF Len(hist) >= 3 /\ SubSeq(hist, 1, 3) = Start THEN Depth + 3 ELSE Depth)
Next == /\ More
        /\ \E c \in (IF hist = <<>> THEN {1} ELSE {1, 2}) :
             \/ \E cat \in {"levels", "engines", "skins"}, v \in {"1", "2"} :
                  (v = "2" => \E i \in 1..Len(hist) : hist[i].o = "add" /\ hist[i].cat = cat) /\ DoAdd(c, cat, v)
             \/ DoUpdate(c) \/ DoWrite(c) \/ DoLoad(c)
Spec == Init /\ [][Next]_vars

\* ---- what collections promise ------------------------------------------------------------------------
\* a written site lists and describes exactly the items present, once each
Exact(C) == \A c \in Categories : Cardinality(Names(C.items[c])) = Len(C.items[c])
\* no level is linked to an outdated engine, no level of a written site shows an outdated skin
Fresh(C) == \A i \in 1..Len(C.items["levels"]) :
              LET o == Get(C.items["levels"][i].d, "item")
                  l == Get(Link(C).items["levels"][i].d, "item") IN
                /\ \A j \in 1..Len(C.items["engines"]) :
                     Get(o, "engine") = Str(C.items["engines"][j].n) => Get(l, "engine") = Get(C.items["engines"][j].d, "item")
                /\ Has(Get(l, "useSkin"), "item") => \A j \in 1..Len(C.items["skins"]) :
                     LinkName(Get(Get(l, "useSkin"), "item")) = C.items["skins"][j].n
                       => Get(Get(l, "useSkin"), "item") = Get(C.items["skins"][j].d, "item")
\* a package of a written site loads to the same collection again
RoundTrip(C) == Linkable(C) => LET L == Link(C) IN Site([LoadPackage(New, Pack(L), 1) EXCEPT !.name = L.name]) = Site(L)
Idempotent(C) == Linkable(C) => Link(Link(C)) = Link(C)
Inv == \A c \in {1, 2} : Exact(col[c]) /\ Fresh(col[c]) /\ RoundTrip(col[c]) /\ Idempotent(col[c])
Emit == ~More => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
