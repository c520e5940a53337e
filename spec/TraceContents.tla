------------------------------ MODULE TraceContents ----------------------------
(***************************************************************************)
(* Judges indexes, outlines and frames taken out of files.                 *)
(***************************************************************************)
EXTENDS Contents, Json, IOUtils, TLC, FiniteSetsExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>

If(b, x) == IF b THEN {x} ELSE {}

IndexFails(N, e) ==
    LET o == e.obs x == Index(N) IN
    IF o.k = "exc" THEN {"raised"}
    ELSE If(Len(o.rows) # Len(x), "number")
         \cup If({o.rows[i].path : i \in 1..Len(o.rows)} # {x[i].path : i \in 1..Len(x)}, "datasets")
         \cup If(o.rows # x, "rows")

OutlineFails(N, e) ==
    LET o == e.obs IN
    IF o.k = "exc" THEN {"raised"}
    ELSE If(Squash(o.lines) # Outline(N, 0, 0, e.max), "lines")

FrameFails(st, e) ==
    LET o == e.obs ok == st.n > 0 /\ HasFrame(st.n, e.i) IN
    IF ~ ok THEN If(o.k # "exc", "accepted") \cup If(o.made = 1, "file_made")
    ELSE IF o.k = "exc" THEN {"raised"}
    ELSE If(o.shape # <<st.h, st.w>>, "shape")
         \cup If(o.dt # st.dt, "type")
         \cup If(o.vals # Pixels(st, e.i), "pixels")
         \cup If(\E i \in 1..Len(e.header) : ~ \E j \in 1..Len(o.header) : o.header[j] = e.header[i],
                 "header")

Fails(S, e) ==
    CASE e.op = "index" -> IndexFails(S.nodes, e)
      [] e.op = "outline" -> OutlineFails(S.nodes, e)
      [] e.op \in {"cbf", "array"} -> FrameFails(S.stack, e)

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l] IN Report(e, Fails(Trace[sc], e))
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
