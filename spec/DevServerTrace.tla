---------------------------- MODULE DevServerTrace ----------------------------
(***************************************************************************)
(* Acceptor for histories observed at the real server: after every command *)
(* what a client following the site's lists finds, and what the messages   *)
(* of the served engine decode to.                                         *)
(***************************************************************************)
EXTENDS DevServer, IOUtils

Cases == JsonDeserialize(IOEnv.DEV_CASES)
VARIABLES c, i, p, r, s, m, on
tvars == <<c, i, p, r, s, m, on, prj, res, now, loaded, from, since, site, msgs, want, hist>>
Dead == /\ prj = 0 /\ res = 0 /\ now = 0 /\ loaded = 0 /\ from = 0 /\ since = 0 /\ site = 0 /\ msgs = 0 /\ want = 0 /\ hist = 0

Tally(k, n) == TLCSet(k, TLCGet(k) + n)
TInit == /\ \A k \in 1..4 : TLCSet(k, 0)
         /\ c \in 1..Len(Cases) /\ i = 1 /\ on = TRUE
         /\ p = Cases[c].p0 /\ r = Cases[c].r0 /\ s = Fresh(p, r[p.dir]) /\ m = Message(p)
         /\ Dead

Range(q) == {q[j] : j \in 1..Len(q)}
AsSite(o) == [title |-> o.title, levels |-> Range(o.levels), engines |-> Range(o.engines), skins |-> Range(o.skins)]

TNext ==
  /\ on /\ i <= Len(Cases[c].steps)
  /\ LET st == Cases[c].steps[i]
         build == st.a \in {"start", "rebuild", "meanwhile"}
         good == build /\ ~Fails(p, r[p.dir])
         s2 == IF good THEN Fresh(p, r[p.dir]) ELSE s
         m2 == IF good THEN Message(p) ELSE m
         v == CASE ~build -> "ok"
                [] "error" \in DOMAIN st.obs -> "the site is broken"
                [] AsSite(st.obs) # s2 ->
                     IF good THEN "the site is not that of a fresh build of the project" ELSE "a failed rebuild changed the site"
                [] st.msgs # m2 -> "a message of the served engine does not decode"
                [] OTHER -> "ok"
     IN /\ IF v = "ok" THEN TRUE
           ELSE PrintT(<<"FAIL", ToJson([id |-> Cases[c].id, step |-> i, clause |-> v, expected |-> s2, got |-> st.obs, msgs |-> st.msgs,
                                         acts |-> [j \in 1..i |-> Cases[c].steps[j].a]])>>) /\ Tally(2, 1)
        /\ s' = s2 /\ m' = m2
        /\ p' = IF st.a = "project" THEN st.p ELSE p
        /\ r' = IF st.a \in {"resources", "meanwhile"} THEN [r EXCEPT ![st.d] = st.r] ELSE r
        /\ i' = i + 1 /\ on' = (v = "ok")
        /\ Tally(1, IF build THEN 1 ELSE 0) /\ Tally(3, IF good THEN 1 ELSE 0) /\ Tally(4, 1)
  /\ UNCHANGED <<c, prj, res, now, loaded, from, since, site, msgs, want, hist>>
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"STATS", ToJson([builds |-> TLCGet(1), failed |-> TLCGet(2), successful |-> TLCGet(3), steps |-> TLCGet(4)])>>)
=============================================================================
