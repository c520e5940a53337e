---------------------------- MODULE TraceProposals -----------------------------
(***************************************************************************)
(* Judges which run was opened, in a tree of directories which changes.    *)
(* A run directory is known by the train id (id) of the files in it.       *)
(***************************************************************************)
EXTENDS Proposals, Json, IOUtils, TLC, FiniteSetsExt

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, dirs
vars == <<sc, l, dirs>>

If(b, x) == IF b THEN {x} ELSE {}

\* by: "name": a search for the proposal; "path": its path was given
Right(e) ==
    IF e.by = "path" THEN {d \in dirs : d.prop = e.prop /\ d.kind = e.kind /\ d.run = RunName(e.run)}
    ELSE Meant(dirs, PropName(e.p), e.kind, RunName(e.run))

\* the files of a run which the pattern selects: all, or the one of one aggregator
Files(d, e) == IF e.inc = 0 THEN d.n ELSE IF e.inc <= d.n THEN 1 ELSE 0

AskFails(e) ==
    LET o == e.obs
        ds == Right(e)
        \* the proposal is in several places: no telling which is meant
        many == e.by = "name" /\ \E a, b \in dirs :
                    a.prop # b.prop /\ a.prop.name = PropName(e.p) /\ b.prop.name = PropName(e.p)
        full == {d \in ds : Files(d, e) > 0}
    IN  IF o.k = "exc" THEN If(full # {} /\ ~ many, "raised")
        ELSE IF o.k # "run" THEN {"kind"}
        ELSE IF full = {} THEN {"accepted"}
        ELSE If(\A d \in full : o.ids # <<d.id>>, "wrong_run")
             \cup If(\A d \in full : o.nf # Files(d, e), "files")

Fails(e) == IF e.op = "ask" THEN AskFails(e) ELSE {}
After(e) ==
    CASE e.op = "make" -> dirs \cup {e.d}
      [] e.op = "remove" -> {d \in dirs : d.id # e.id}
      [] OTHER -> dirs

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1 /\ dirs = {}
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l] IN Report(e, Fails(e)) /\ dirs' = After(e)
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
