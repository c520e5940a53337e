------------------------------ MODULE TraceViewer ------------------------------
(***************************************************************************)
(* Judges what viewers showed after each thing a user did.                 *)
(***************************************************************************)
EXTENDS Viewer, Json, IOUtils, TLC, FiniteSetsExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
vars == <<sc, l, st>>

If(b, x) == IF b THEN {x} ELSE {}
Is(o, c) == \E i \in 1..Len(o.t) : o.t[i] = c
New(v) == IF v \in DOMAIN st THEN st[v] ELSE Blank

\* stepping against the end does nothing, or shows the frame of the cursor
AtEnd(s, e) == e.op \in {"next", "prev"} /\ Do(s, e).s.pos = s.pos
Expect(s, e) ==
    LET r == Do(s, e).s IN
    IF AtEnd(s, e) /\ e.obs.si = s.pos THEN Show(r, s.pos) ELSE r

Fails(e) ==
    LET s == New(e.v) o == e.obs IN
    IF s.d = 0 /\ e.op # "give" THEN {}          \* nothing to look at yet
    ELSE LET r == Do(s, e) x == Expect(s, e) IN
         If(r.ref # "" /\ o.k # "exc", "accepted")
         \cup If(r.ref # "" /\ o.k = "exc" /\ ~ Is(o, r.ref), "other_error")
         \cup If(r.ref = "" /\ o.k = "exc", "raised")
         \cup If(o.d # x.d, "data")
         \cup (IF x.d = 0 THEN {} ELSE
               If(o.pos # x.pos, "cursor")
               \cup If(o.n # x.n, "length")
               \cup If(o.sd # x.sd \/ o.si # x.si, "frame_shown")
               \cup If(o.title # o.si, "title"))

\* go on from what was seen, not to report the same thing again
After(e) ==
    LET s == New(e.v) o == e.obs IN
    IF s.d = 0 /\ e.op # "give" THEN st
    ELSE (e.v :> [d |-> o.d, n |-> o.n, pos |-> o.pos, sd |-> o.sd, si |-> o.si]) @@ st

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1 /\ st = (0 :> Blank)
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l] IN Report(e, Fails(e)) /\ st' = After(e)
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
