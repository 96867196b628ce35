------------------------------- MODULE DevServer -------------------------------
(***************************************************************************)
(* The development server: a project is edited, rebuilt on command, and    *)
(* served.  The site must always be the one a fresh build of the project   *)
(* as it was at the last successful build would give.                      *)
(*                                                                         *)
(* The server keeps the resources as it loaded them, and loads them again  *)
(* when a file is newer than the start of the last build or the project    *)
(* points elsewhere.  Time is a counter; every edit stamps what it edits.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Depth

Dirs == {"r1", "r2"}

\* ---- what a fresh build of project p over resources r serves ----------------------------------
\* p: code, engine, levels (sequence of [n, v]), conv ("none", "named", "any"), k, dir, fault
\* r: skin, levels
Level(n, v, p, r) == [n |-> n, v |-> v, engine |-> p.engine, code |-> p.code, skin |-> r.skin]
Names(q) == {q[i].n : i \in 1..Len(q)}
\* a level of the resources, converted if the project says so
Converted(p, v) == IF p.conv = "none" THEN v ELSE 10 * v + p.k
Own(p, r) == {Level(p.levels[i].n, p.levels[i].v, p, r) : i \in 1..Len(p.levels)}
Theirs(p, r) == {Level(r.levels[i].n, Converted(p, r.levels[i].v), p, r) : i \in {i \in 1..Len(r.levels) : r.levels[i].n \notin Names(p.levels)}}
Fresh(p, r) ==
  [title |-> p.engine,
   levels |-> Own(p, r) \cup Theirs(p, r),
   engines |-> {[n |-> p.engine, code |-> p.code, skin |-> r.skin], [n |-> "other", code |-> 0, skin |-> 0]},
   skins |-> {[n |-> "s", v |-> r.skin]}]
Message(p) == 1000 + p.code
\* which faults of the project make its build fail
Fails(p, r) == CASE p.fault \in {"import", "compile", "missing"} -> TRUE
                 [] p.fault = "level" -> p.levels # <<>>
                 [] p.fault = "converter" -> p.conv # "none" /\ r.levels # <<>>
                 [] OTHER -> FALSE

\* ---- the server ---------------------------------------------------------------------------------
\* res: per directory [skin, levels, t]; loaded, from, since: the resources as loaded, where from, and
\* when the last build started; site, msgs: what is served and which messages decode
VARIABLES prj, res, now, loaded, from, since, site, msgs, want, hist
vars == <<prj, res, now, loaded, from, since, site, msgs, want, hist>>

P0 == [code |-> 1, engine |-> "eng", levels |-> <<[n |-> "l1", v |-> 3]>>, conv |-> "none", k |-> 0, dir |-> "r1", fault |-> "none"]
R0(d) == [skin |-> IF d = "r1" THEN 1 ELSE 5, levels |-> IF d = "r1" THEN <<[n |-> "rl", v |-> 2]>> ELSE <<>>, t |-> 0]
Contents(r) == [skin |-> r.skin, levels |-> r.levels]

Init == /\ prj \in {P0, [P0 EXCEPT !.conv = "any", !.k = 1]}
        /\ res = [d \in Dirs |-> R0(d)] /\ now = 2
        /\ loaded = Contents(res["r1"]) /\ from = "r1" /\ since = 1
        /\ site = Fresh(prj, Contents(res["r1"])) /\ msgs = Message(prj) /\ want = site
        /\ hist = <<[a |-> "start", p |-> prj, d |-> "r1", r |-> Contents(res["r1"])]>>

Step(a, p, d, r) == hist' = Append(hist, [a |-> a, p |-> p, d |-> d, r |-> r])

LevelChoices == {<<>>, <<[n |-> "l1", v |-> 3]>>, <<[n |-> "l1", v |-> 4]>>, <<[n |-> "l1", v |-> 3], [n |-> "l2", v |-> 7]>>,
                 <<[n |-> "rl", v |-> 9]>>}
Faults == {"none", "import", "compile", "missing", "level", "converter"}
ProjectEdits ==
  {[prj EXCEPT !.code = 3 - @], [prj EXCEPT !.engine = IF @ = "eng" THEN "eng2" ELSE "eng"], [prj EXCEPT !.dir = IF @ = "r1" THEN "r2" ELSE "r1"]}
  \cup {[prj EXCEPT !.levels = q] : q \in LevelChoices}
  \cup {[prj EXCEPT !.conv = c, !.k = k] : c \in {"none", "named", "any"}, k \in {0, 1}}
  \cup {[prj EXCEPT !.fault = f] : f \in Faults}
ResourceEdits(r) ==
  {[r EXCEPT !.skin = @ + 1], [r EXCEPT !.levels = <<>>], [r EXCEPT !.levels = <<[n |-> "rl", v |-> 2]>>],
   [r EXCEPT !.levels = <<[n |-> "rl", v |-> 6], [n |-> "l1", v |-> 8]>>]}

EditProject == \E p \in ProjectEdits \ {prj} :
  /\ prj' = p /\ now' = now + 1 /\ Step("project", p, "", <<>>)
  /\ UNCHANGED <<res, loaded, from, since, site, msgs, want>>
EditResources(d, r) == res' = [res EXCEPT ![d] = [skin |-> r.skin, levels |-> r.levels, t |-> now]]
EditRes == \E d \in Dirs : \E r \in {Contents(x) : x \in ResourceEdits(res[d])} : r # Contents(res[d]) /\
  /\ EditResources(d, r) /\ now' = now + 1 /\ Step("resources", prj, d, r)
  /\ UNCHANGED <<prj, loaded, from, since, site, msgs, want>>

\* one rebuild; resources may be edited after the server has looked at them
Build ==
  LET l == IF prj.dir # from \/ res[prj.dir].t > since THEN Contents(res[prj.dir]) ELSE loaded
  IN IF prj.fault = "import" THEN UNCHANGED <<loaded, from, since, site, msgs>>
     ELSE /\ loaded' = l /\ from' = prj.dir
          /\ IF Fails(prj, l) THEN UNCHANGED <<since, site, msgs>>
             ELSE since' = now /\ site' = Fresh(prj, l) /\ msgs' = Message(prj)
Wanted == LET r == Contents(res[prj.dir]) IN want' = IF Fails(prj, r) THEN want ELSE Fresh(prj, r)
Rebuild == /\ Build /\ Wanted /\ Step("rebuild", prj, "", <<>>) /\ now' = now + 2 /\ UNCHANGED <<prj, res>>
\* (the edit happens while the project's levels are read: only if the build gets that far)
RebuildMeanwhile == \E d \in Dirs : \E r \in {Contents(x) : x \in ResourceEdits(res[d])} :
  /\ ~Fails(prj, Contents(res[prj.dir])) /\ r # Contents(res[d])
  /\ Build /\ Wanted /\ Step("meanwhile", prj, d, r) /\ now' = now + 2 /\ UNCHANGED prj
  /\ res' = [res EXCEPT ![d] = [skin |-> r.skin, levels |-> r.levels, t |-> now + 1]]

\* at most two edits in a row: there is one action per kind of edit, and rebuilds would be rare otherwise
Edits == {"project", "resources"}
CanEdit == LET n == Len(hist) IN IF n < 2 THEN TRUE ELSE ~(hist[n].a \in Edits /\ hist[n - 1].a \in Edits)
Next == Len(hist) < Depth /\ ((CanEdit /\ (EditProject \/ EditRes)) \/ Rebuild \/ RebuildMeanwhile)
Spec == Init /\ [][Next]_vars

Current == site = want
Emit == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
