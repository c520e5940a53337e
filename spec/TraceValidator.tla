---------------------------- MODULE TraceValidator ----------------------------
(***************************************************************************)
(* Judges what the validator said about recorded files (Validator.tla).    *)
(* A scenario has files (as found on disk by the harness; open = 0 if the  *)
(* file cannot be used at all) and a map: entries claiming something of a  *)
(* file which looks unchanged.                                             *)
(***************************************************************************)
EXTENDS Validator, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
vars == <<sc, l, st>>
S == Trace[sc]
If(b, x) == IF b THEN {x} ELSE {}

NF == Len(S.files)
Opens(f) == S.files[f].open = 1
Broken(f) == ~ Opens(f) \/ ~ FileSound(S.files[f], FALSE)
Sound(f) == Opens(f) /\ FileSound(S.files[f], TRUE)

Conflicts == {f \in 1..NF : Opens(f) /\ \E g \in 1..NF :
                 g # f /\ Opens(g) /\ Conflict(S.files[f], S.files[g])}
\* ids repeated within one file also make data ambiguous
Repeats(f) == Cardinality(Rng(Tids(S.files[f]))) # NTr(S.files[f])

\* m: [f, tids, C, I, fresh]; the map claims something wrong of file f
Wrong(m) == /\ m.fresh = 1 /\ Opens(m.f)
            /\ \/ Rng(m.C) # {s.name : s \in {x \in Rng(S.files[m.f].all) : x.cat = "C"}}
               \/ Rng(m.I) # {s.name : s \in {x \in Rng(S.files[m.f].all) : x.cat = "I"}}
               \/ m.tids # Tids(S.files[m.f])
WrongMap == {S.map[i].f : i \in {j \in 1..Len(S.map) : Wrong(S.map[j])}}

FileBad(f) == f \in 1..NF /\ Broken(f)
Named(o) == {o.problems[i].f : i \in 1..Len(o.problems)}

RunMustFail == NF = 0 \/ (\E f \in 1..NF : Broken(f)) \/ Conflicts # {} \/ WrongMap # {}
RunMustPass == NF > 0 /\ (\A f \in 1..NF : Sound(f)) /\ Conflicts = {} /\ WrongMap = {}

\* e.what: "file" (f) or "run";  e.how: "checks", "validate" or "main"
MustFail(e) == IF e.what = "file" THEN Broken(e.f) ELSE RunMustFail
MustPass(e) == IF e.what = "file" THEN Sound(e.f) ELSE RunMustPass

Eval(e) ==
    LET o == e.obs IN
    IF e.how = "checks" THEN
        IF o.k = "exc" THEN If(~ (e.what = "file" /\ ~ Opens(e.f)), "failed_itself")
        ELSE IF o.k # "problems" THEN {"failed_itself"}
        ELSE IF e.what = "file" THEN
                If(Broken(e.f) /\ Len(o.problems) = 0, "missed")
                \cup If(Sound(e.f) /\ Len(o.problems) > 0, "false_alarm")
                \cup If(\E i \in 1..Len(o.problems) : o.problems[i].f # e.f, "unnamed")
        ELSE If(RunMustFail /\ Len(o.problems) = 0, "missed")
             \cup If(RunMustPass /\ Len(o.problems) > 0, "false_alarm")
             \cup If(\E f \in 1..NF : Broken(f) /\ f \notin Named(o), "missed_file")
             \cup If(\E f \in WrongMap : f \notin Named(o), "missed_map")
             \cup If(\E f \in Named(o) \ {0} : Sound(f) /\ f \notin Conflicts \cup WrongMap
                        /\ ~ \E i \in 1..Len(o.problems) : o.problems[i].f = 0 /\ o.problems[i].n > 1,
                     "false_alarm_file")
    ELSE \* an exception of the kind meant for it, or the status of the command
        IF o.k # "status" THEN {"failed_itself"}
        ELSE If(MustFail(e) /\ o.status = 0, "missed")
             \cup If(MustPass(e) /\ o.status # 0, "false_alarm")
             \cup If(e.how = "validate" /\ o.status = 2, "failed_itself")

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.what \o "_" \o e.how \o "." \o x \o ",", "", fails) \o "@")

Init == /\ sc \in 1..Len(Trace)
        /\ l = 1
        /\ st = 0
Next == /\ l <= Len(S.ev)
        /\ l' = l + 1 /\ UNCHANGED <<sc, st>>
        /\ Report(S.ev[l], Eval(S.ev[l]))
Spec == Init /\ [][Next]_vars
=============================================================================
