----------------------------- MODULE TraceRunMap -----------------------------
(***************************************************************************)
(* Judges recorded histories of processes opening runs (RunMap.tla) on a   *)
(* real directory: complete calls (open), calls interleaved with others    *)
(* (begin .. end or crash), changes of the data files (put) and of the map *)
(* (setmap) by the environment.  After every event the maps on disk are    *)
(* observed.                                                               *)
(***************************************************************************)
EXTENDS EuXFEL, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
vars == <<sc, l, st>>
S == Trace[sc]
V == S.versions        \* [f, tids, C, I, ok]
If(b, x) == IF b THEN {x} ELSE {}

NF == Len(S.names)
Matching(inc) == {f \in 1..NF : Glob(inc, S.names[f])}

Content(v) == [tids |-> V[v].tids, C |-> Rng(V[v].C), I |-> Rng(V[v].I)]
Seen(x) == [tids |-> x.tids, C |-> Rng(x.C), I |-> Rng(x.I)]

\* a map is untouched, or absent, or complete with entries telling the truth
MapFails(m) ==
    IF m.same = 1 \/ m.k = "absent" THEN {}
    ELSE IF m.k # "ok" THEN {"map_incomplete"}
    ELSE If(\E i \in 1..Len(m.ents) : m.ents[i].v # 0 /\
              (V[m.ents[i].v].f # m.ents[i].f \/ Content(m.ents[i].v) # Seen(m.ents[i])),
            "map_lies")

\* a result, given the versions each listed file may have been read as
\* (0: it may be missing)
RunFails(cand, o) ==
    LET usable(f) == {v \in cand[f] : v # 0 /\ V[v].ok = 1}
        may == {f \in DOMAIN cand : usable(f) # {}}
        must == {f \in DOMAIN cand : cand[f] = usable(f)}
        got == IF o.k = "run" THEN {o.files[i].f : i \in 1..Len(o.files)} ELSE {}
        file(f) == o.files[CHOOSE i \in 1..Len(o.files) : o.files[i].f = f]
        all(n) == UNION {Rng(o.files[i][n]) : i \in 1..Len(o.files)}
    IN  IF o.k = "exc" THEN If(must # {}, "failed")
        ELSE IF o.k # "run" THEN {"failed"}
        ELSE IF may = {} THEN {"not_raised"}
        ELSE If(Len(o.files) # Cardinality(got), "duplicate_file")
             \cup If(~ (must \subseteq got), "file_missing")
             \cup If(~ (got \subseteq may), "file_extra")
             \cup If(\E f \in got \cap may : Seen(file(f)) \notin {Content(v) : v \in usable(f)},
                     "file_contents")
             \cup If(o.tids # SortedInts(all("tids")), "train_ids")
             \cup If(Rng(o.C) # all("C") \/ Rng(o.I) # all("I"), "sources")

Listed(inc) == {f \in Matching(inc) : st.disk[f] # 0}

Eval(e) ==
    CASE e.op = "open" ->
            LET L == Listed(e.inc) IN RunFails([f \in L |-> {st.disk[f]}], e.obs)
      [] e.op = "end" ->
            LET p == st.proc[e.p]
            IN  RunFails([f \in {x \in Matching(p.inc) : p.seen[x] # {0}} |-> p.seen[f]], e.obs)
      [] OTHER -> {}

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == /\ sc \in 1..Len(Trace)
        /\ l = 1
        /\ st = [disk |-> [f \in 1..Len(Trace[sc].names) |-> 0], proc |-> <<>>]

Next ==
    /\ l <= Len(S.ev)
    /\ l' = l + 1 /\ UNCHANGED sc
    /\ LET e == S.ev[l] IN
       /\ Report(e, Eval(e)
                    \cup (IF e.op = "setmap" THEN {}
                          ELSE UNION {MapFails(e.maps[i]) : i \in 1..Len(e.maps)})
                    \cup If(e.debris > 0, "debris"))
       /\ st' = CASE e.op = "put" ->
                       [st EXCEPT !.disk[e.f] = e.v,
                                  !.proc = [i \in 1..Len(st.proc) |->
                                    IF st.proc[i].live THEN [st.proc[i] EXCEPT !.seen[e.f] = @ \cup {e.v}]
                                    ELSE st.proc[i]]]
                  [] e.op = "begin" ->
                       [st EXCEPT !.proc = Append(@, [live |-> TRUE, inc |-> e.inc,
                                    seen |-> [f \in 1..NF |-> {st.disk[f]}]])]
                  [] e.op \in {"end", "crash"} /\ e.p # 0 ->
                       [st EXCEPT !.proc[e.p].live = FALSE]
                  [] OTHER -> st

Spec == Init /\ [][Next]_vars
=============================================================================
