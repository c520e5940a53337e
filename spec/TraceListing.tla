----------------------------- MODULE TraceListing ------------------------------
(***************************************************************************)
(* Judges what the summary of files and directories printed: one block for *)
(* each path asked about.                                                  *)
(***************************************************************************)
EXTENDS Listing, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l
vars == <<sc, l>>

If(b, x) == IF b THEN {x} ELSE {}
Bag(q, S) == Len(q) = Cardinality(S) /\ Elems(q) = S

(****************************** single files *******************************)
DetNo(name) ==       \* the digits after the name of the detector
    LET p == Part3(name) IN SelectSeq(p, IsDigit)
Class(name) ==
    IF Cardinality(Dashes(name)) # 3 THEN "other"
    ELSE IF IsDetName(name) THEN "det"
    ELSE LET p == Part3(name) IN
         IF Len(p) > 2 /\ p[1] = 68 /\ p[2] = 65 /\ \A i \in 3..Len(p) : IsDigit(p[i]) THEN "agg" ELSE "other"
Describe(name, b) ==
    If(b.name # name, "name")
    \cup If(b.cls # Class(name) /\ ~ (Class(name) = "other" /\ b.cls = "agg"), "description")
    \cup If(b.cls = "det" /\ Class(name) = "det" /\ b.no # DetNo(name), "module_number")

\* what a file of a detector module says about it; counts: frames of its trains
FrameFails(det, b, n) ==
    LET cs == Elems(det.counts) \ {0} IN
    If(~ (b.fpt \in cs \/ (cs = {} /\ b.fpt = 0)), "frames_per_train")
    \cup If(b.tot # b.fpt * n, "total_frames")

FileFails(f, b) ==
    IF b.k # "file" THEN {"kind"} ELSE
    Describe(f.name, b)
    \cup If(b.n # Len(f.data.tids), "train_count")
    \cup IF Class(f.name) = "det"
         THEN If(b.sub # "det", "kind")
              \cup (IF b.sub # "det" THEN {} ELSE
                    If(b.dims # f.data.det[1].dims, "pixels") \cup FrameFails(f.data.det[1], b, Len(f.data.tids)))
         ELSE If(b.sub # "lists", "kind")
              \cup (IF b.sub # "lists" THEN {} ELSE
                    If(~ Bag(b.I, Elems(f.data.I)) \/ b.nI # Len(f.data.I), "instrument_list")
                    \cup If(~ Bag(b.C, Elems(f.data.C)) \/ b.nC # Len(f.data.C), "control_list"))

SumFails(f, b) ==
    IF b.k # "fsum" THEN {"kind"} ELSE
    Describe(f.name, b)
    \cup If(b.n # Len(f.data.tids), "train_count")
    \cup IF Class(f.name) = "det"
         THEN IF b.sub # "det" THEN {"kind"} ELSE FrameFails(f.data.det[1], b, Len(f.data.tids))
         ELSE IF b.sub # "lists" THEN {"kind"}
              ELSE If(b.ns # Len(f.data.I) + Len(f.data.C), "source_count")

(******************************** runs **************************************)
Good(dir) == {f \in Files(dir) : IsData(f.name) /\ f.data.ok = 1}
RunLine(dir, b) ==
    IF AllSeries(dir) = {} THEN If(b.k # "norun" \/ b.name # dir.name, "kind")
    ELSE IF b.k # "run" THEN {"kind"}
    ELSE If(b.name # dir.name, "name")
         \cup If(b.n \notin TrainCounts(dir), "train_count")
         \cup If(b.det # DetFiles(dir), "detector_files")
         \cup If(b.oth # OtherFiles(dir), "other_files")

InfoFails(dir, b) ==
    LET fs == Good(dir)
        ts == TrainsIn(fs)
        C == UNION {Elems(f.data.C) : f \in fs}
        I == UNION {Elems(f.data.I) : f \in fs}
        D == UNION {Elems(f.data.dets) : f \in fs}
        of(s) == {f \in fs : \E i \in 1..Len(f.data.det) : f.data.det[i].s = s}
        info(f, s) == f.data.det[CHOOSE i \in 1..Len(f.data.det) : f.data.det[i].s = s]
        n == Cardinality(ts)
    IN
    IF b.k # "describe" THEN {"kind"} ELSE
    If(b.name # dir.name, "name")
    \cup If(b.n # n, "train_count")
    \cup If(n > 0 /\ (b.first # Min(ts) \/ b.last # Max(ts)), "train_range")
    \cup If(n > 0 /\ b.dur # Max(ts) - Min(ts), "duration")
    \cup If(~ Bag(b.C, C) \/ b.nC # Cardinality(C), "control_list")
    \cup If(~ Bag(b.I, I \ D) \/ b.nI # Cardinality(I \ D), "instrument_list")
    \cup If(b.nD # Cardinality(D), "detector_count")
    \cup If(~ Bag(b.dn, UNION {{f.data.det[i].dn : i \in 1..Len(f.data.det)} : f \in fs}), "detector_names")
    \cup IF D = {} THEN If(b.mod # <<>>, "detector_detail")
         ELSE IF b.mod = <<>> THEN {"detector_detail"}
         ELSE LET m == b.mod[1] IN
              IF m.s \notin D THEN {"detector_detail"}
              ELSE If(\A f \in of(m.s) : m.dims # info(f, m.s).dims
                          \/ m.dn # info(f, m.s).dn \/ m.no # info(f, m.s).no
                          \/ FrameFails(info(f, m.s), m, n) # {}, "detector_detail")

Runs(dir) == {d \in Elems(dir.kids) : d.k = "dir" /\ IsRunName(d.name)}
ListFails(of, dir, b) ==
    IF b.k # "list" THEN {"kind"} ELSE
    LET rs == Runs(of)
        line(r) == CHOOSE i \in 1..Len(b.runs) : b.runs[i].name = r.name
        names == {b.runs[i].name : i \in 1..Len(b.runs)}
    IN  If(b.name # dir.name, "name")
        \cup If(Len(b.runs) # Cardinality(rs) \/ names # {r.name : r \in rs}, "runs_listed")
        \cup UNION {RunLine(r, b.runs[line(r)]) : r \in {x \in rs : x.name \in names}}

(******************************* one path ***********************************)
Raw == <<114, 97, 119>>
HasData(dir) == \E f \in Elems(dir.kids) : IsData(f.name)
HasRuns(dir) == \E f \in Elems(dir.kids) : IsRunName(f.name)
RawOf(dir) == {d \in Elems(dir.kids) : d.k = "dir" /\ d.name = Raw}

PathFails(a, b, single) ==
    IF a.there = 0 THEN If(b.k # "missing", "kind")
    ELSE LET x == a.node IN
    IF x.k = "file" THEN
        IF ~ IsData(x.name) THEN If(b.k # "unfile" \/ b.name # x.name, "kind")
        ELSE IF single THEN FileFails(x, b) ELSE SumFails(x, b)
    ELSE IF HasData(x) THEN (IF single THEN InfoFails(x, b) ELSE RunLine(x, b))
    ELSE IF HasRuns(x) THEN ListFails(x, x, b)
    ELSE IF single /\ RawOf(x) # {} THEN ListFails(CHOOSE d \in RawOf(x) : TRUE, x, b)
    ELSE If(b.k # "undir" \/ b.name # x.name, "kind")

\* files which cannot be read may make a summary fail, except that of a run
Blocked(a, single) ==
    IF a.there = 0 THEN FALSE
    ELSE LET x == a.node
             bad(d) == \E f \in Files(d) : IsData(f.name) /\ f.data.ok = 0
         IN  IF x.k = "file" THEN IsData(x.name) /\ x.data.ok = 0
             ELSE IF single /\ HasData(x) THEN Good(x) = {}
             ELSE bad(x) \/ \E d \in Elems(x.kids) : d.k = "dir" /\
                     (bad(d) \/ \E e \in Elems(d.kids) : e.k = "dir" /\ bad(e))

\* an exit status tells if something could not be looked at
Failed(a) == a.there = 0 \/ (a.node.k = "file" /\ ~ IsData(a.node.name))
Unknown(a) == a.there = 1 /\ a.node.k = "dir" /\ ~ HasData(a.node) /\ ~ HasRuns(a.node)

Fails(e) ==
    LET o == e.obs
        n == Len(e.args)
        single == n = 1
    IN  IF o.k = "exc" THEN If(~ \E i \in 1..n : Blocked(e.args[i], single), "raised")
        ELSE IF Len(o.blocks) # n THEN If(~ \E i \in 1..n : Blocked(e.args[i], single), "blocks")
        ELSE UNION {IF Blocked(e.args[i], single) THEN {} ELSE PathFails(e.args[i], o.blocks[i], single) : i \in 1..n}
             \cup If((\E i \in 1..n : Failed(e.args[i])) /\ o.code = 0, "status")
             \cup If(~ (\E i \in 1..n : Failed(e.args[i]) \/ Unknown(e.args[i])) /\ o.code # 0, "status")

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l] IN Report(e, Fails(e))
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
