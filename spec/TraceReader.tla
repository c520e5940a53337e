----------------------------- MODULE TraceReader -----------------------------
(***************************************************************************)
(* Judges histories of calls recorded from the real library against        *)
(* Collections.tla.  Each scenario is one process history over one set of  *)
(* files.  Verdicts are total: an observation the specification does not   *)
(* allow is reported with the names of the failed clauses.                 *)
(***************************************************************************)
EXTENDS Collections, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)

VARIABLES sc, l, st
vars == <<sc, l, st>>

S == Trace[sc]
D == S.defs
F == st.F

(******************************* helpers ***********************************)
If(b, x) == IF b THEN {x} ELSE {}

PatSel(c, seln) ==
    CASE seln.kind = "list" ->
            LET parts == [i \in 1..Len(seln.pats) |-> GlobSel(D, F, c, seln.pats[i].s, seln.pats[i].k)]
                bad == \E i \in 1..Len(parts) : DOMAIN parts[i] = {}
            IN  [err |-> IF bad THEN {"ValueError"} ELSE {},
                 sel |-> IF bad THEN <<>> ELSE MergeSel(parts)]
      [] seln.kind = "dict" ->
            LET items == seln.d
                badsrc == \E i \in 1..Len(items) : items[i].s \notin Visible(D, F, c)
                badkey == \E i \in 1..Len(items) : items[i].s \in Visible(D, F, c)
                              /\ ~ (Rng(items[i].ks) \subseteq c.sel[items[i].s])
                errs == If(badsrc, "SourceNameError") \cup If(badkey, "PropertyNameError")
                it(s) == items[CHOOSE i \in 1..Len(items) : items[i].s = s]
            IN  [err |-> errs,
                 sel |-> IF errs # {} THEN <<>>
                         ELSE [s \in {items[i].s : i \in 1..Len(items)} |->
                                 IF Len(it(s).ks) = 0 THEN c.sel[s] ELSE Rng(it(s).ks)]]
      [] seln.kind = "bad" -> [err |-> {"TypeError"}, sel |-> <<>>]
      [] OTHER -> [err |-> {}, sel |-> c.sel]

\* must: exceptions one of which has to be raised ({}: none);
\* may: exceptions which are also acceptable
RangeOf(tids, r) ==
    CASE r.kind = "idslice" ->
            [must |-> If(ByIdMustFail(tids, r.a, r.b), "ValueError"),
             may |-> If(ByIdMayFail(tids, r.a, r.b), "ValueError"),
             tids |-> ByIdSlice(tids, r.a, r.b, r.st)]
      [] r.kind = "ixslice" ->
            [must |-> {}, may |-> {}, tids |-> ByIndexSlice(tids, r.a, r.b, r.st)]
      [] r.kind = "idlist" ->
            LET q == ByIdList(tids, Rng(r.l))
            IN  [must |-> If(Len(q) = 0, "ValueError"), may |-> {}, tids |-> q]
      [] r.kind = "ixlist" ->
            LET ok == \A i \in 1..Len(r.l) : IndexInRange(tids, r.l[i])
            IN  [must |-> If(~ ok, "IndexError"), may |-> {},
                 tids |-> IF ok THEN ByIndexList(tids, Rng(r.l)) ELSE <<>>]
      [] r.kind = "bad" -> [must |-> {"TypeError"}, may |-> {}, tids |-> <<>>]
      [] OTHER -> [must |-> {}, may |-> {}, tids |-> tids]

(************************* summaries of collections ************************)
SumFails(c, o) ==
    IF o.k # "coll" THEN {"raised"} ELSE
    LET vis == Visible(D, F, c)
        keys == [s \in {o.keys[i].s : i \in 1..Len(o.keys)} |->
                   Rng(o.keys[CHOOSE i \in 1..Len(o.keys) : o.keys[i].s = s].ks)]
    IN  If(o.tids # c.tids, "trains")
        \cup If(Rng(o.C) # {s \in vis : D[s].cat = "C"}, "control_sources")
        \cup If(Rng(o.I) # {s \in vis : D[s].cat = "I"}, "instrument_sources")
        \cup If(Rng(o.A) # vis, "all_sources")
        \cup If(Rng(o.det) # {s \in vis : D[s].det >= 0}, "detector_sources")
        \cup If(keys # [s \in vis |-> c.sel[s]], "keys")

ExcFails(o, allowed) ==
    If(o.k # "exc", "not_raised") \cup
    If(o.k = "exc" /\ Rng(o.t) \cap allowed = {}, "wrong_error")

(***************************** train reads *********************************)
OneTrainFails(c, t, o) ==
    LET vis == Visible(D, F, c)
        want == {p \in UNION {{<<s, k>> : k \in c.sel[s]} : s \in vis} :
                    NEntries(D, F, c, p[1], p[2], t) > 0}
        has(s) == {i \in 1..Len(o.src) : o.src[i].s = s}
        got == UNION {{<<o.src[i].s, o.src[i].keys[j].k>> : j \in 1..Len(o.src[i].keys)}
                        : i \in 1..Len(o.src)}
        rec(p) == LET q == o.src[CHOOSE i \in has(p[1]) : TRUE].keys
                  IN  q[CHOOSE j \in 1..Len(q) : q[j].k = p[2]]
        shape(p) == LET n == NEntries(D, F, c, p[1], p[2], t)
                        sh == D[p[1]].keys[p[2]].shape
                    IN  IF n = 1 THEN sh ELSE <<n>> \o sh
        both == want \cap got
    IN  If(o.tid # t, "tid")
        \cup If(want \ got # {}, "missing_key")
        \cup If(got \ want # {}, "extra_key")
        \cup If(\E i \in 1..Len(o.src) : o.src[i].s \notin vis, "extra_source")
        \cup If(\E i \in 1..Len(o.src) : o.src[i].meta # 1, "metadata")
        \cup If(\E p \in both : rec(p).dt # D[p[1]].keys[p[2]].dt, "dtype")
        \cup If(\E p \in both : rec(p).sh # shape(p), "shape")
        \cup If(\E p \in both : rec(p).sh = shape(p)
                    /\ rec(p).v # TrainVals(D, F, c, p[1], p[2], t), "values")

(**************************** whole-key reads ******************************)
FieldErr(c, s, k) ==
    IF s \notin Visible(D, F, c) THEN {"SourceNameError"}
    ELSE IF k \notin c.sel[s] THEN {"PropertyNameError"} ELSE {}

ArrVals(c, s, k, roi) ==
    LET offs == Offsets(D[s].keys[k].shape, roi)
        E == Entries(D, F, c, s, k)
    IN  ConcatMap(LAMBDA e : [i \in 1..Len(offs) |-> Elem(D, F[e[2]], s, k, e[3], offs[i])], E)

\* every file's data for the key, in file (= train) order
ArrFails(c, e, o) ==
    LET err == FieldErr(c, e.s, e.k) IN
    IF err # {} THEN ExcFails(o, err) ELSE
    IF o.k # "arr" THEN {"raised"} ELSE
    LET E == Entries(D, F, c, e.s, e.k)
        sh == <<Len(E)>> \o RoiShape(e.roi)
    IN  If(o.sh # sh, "shape")
        \cup If(o.dt # D[e.s].keys[e.k].dt, "dtype")
        \cup If(o.lab = 1 /\ o.tids # [i \in 1..Len(E) |-> E[i][1]], "labels")
        \cup If(o.lab = 1 /\ o.dims # <<"trainId">> \o e.dims, "dims")
        \cup If(o.sh = sh /\ o.v # ArrVals(c, e.s, e.k, e.roi), "values")

\* a lazy array of data too large to load: its shape, and a few of its elements
LazyFails(c, e, o) ==
    LET err == FieldErr(c, e.s, e.k) IN
    IF err # {} THEN ExcFails(o, err) ELSE
    IF o.k # "lazy" THEN {"raised"} ELSE
    LET E == Entries(D, F, c, e.s, e.k)
        want(p) == Elem(D, F[E[p.row + 1][2]], e.s, e.k, E[p.row + 1][3], p.e)
    IN  If(o.sh # <<Len(E)>> \o D[e.s].keys[e.k].shape, "shape")
        \cup If(o.dt # D[e.s].keys[e.k].dt, "dtype")
        \cup If(\E i \in 1..Len(o.pts) : o.pts[i].row < Len(E) /\ o.pts[i].v # want(o.pts[i]), "values")

(* series: one value per entry, labelled by train (and pulse) *)
PidKey(s, g) == LET K == {k \in 1..Len(D[s].keys) : D[s].keys[k].g = g /\ D[s].keys[k].pid = 1}
                IN  IF K = {} THEN 0 ELSE CHOOSE k \in K : TRUE

SeriesFails(c, e, o) ==
    LET err == FieldErr(c, e.s, e.k) IN
    IF err # {} THEN ExcFails(o, err) ELSE
    IF o.k # "series" THEN {"raised"} ELSE
    LET E == Entries(D, F, c, e.s, e.k)
        g == D[e.s].keys[e.k].g
        pk == PidKey(e.s, g)
        multi == \E i, j \in 1..Len(E) : i # j /\ E[i][1] = E[j][1]
        anymulti == D[e.s].cat = "I" /\ \E f \in FilesWith(F, c.fs, e.s) :
                       \E i \in 1..Len(F[f].tids) : F[f].src[e.s].idx[g].count[i] > 1
    IN  If(o.tids # [i \in 1..Len(E) |-> E[i][1]], "labels")
        \cup If(o.v # [i \in 1..Len(E) |-> Elem(D, F[E[i][2]], e.s, e.k, E[i][3], 0)], "values")
        \cup If(o.name # e.name, "name")
        \cup If(o.dt # D[e.s].keys[e.k].dt, "dtype")
        \cup If(multi /\ o.multi = 0, "no_pulse_index")
        \cup If(~ anymulti /\ o.multi = 1, "needless_pulse_index")
        \cup If(o.multi = 1 /\ pk # 0
                /\ o.pids # [i \in 1..Len(E) |-> Elem(D, F[E[i][2]], e.s, pk, E[i][3], 0)],
                "pulse_labels")

CountsFails(c, e, o) ==
    LET err == FieldErr(c, e.s, e.k) IN
    IF err # {} THEN ExcFails(o, err) ELSE
    IF o.k # "series" THEN {"raised"} ELSE
    LET ts == SelectSeq(c.tids, LAMBDA t : FileFor(F, c, e.s, t) # 0)
    IN  If(o.tids # ts, "labels")
        \cup If(o.v # [i \in 1..Len(ts) |-> NEntries(D, F, c, e.s, e.k, ts[i])], "values")

\* data frame: a column per selected key (timestamps only on request); a row
\* for each train with a value in any column; NaN where there is no value
NaN == -2000000001
FrameFails(c0, e, o) ==
    LET ps == PatSel(c0, e.seln) IN
    IF ps.err # {} THEN ExcFails(o, ps.err) ELSE
    LET c == IF e.seln.kind = "none" THEN c0 ELSE RestrictTo(D, F, c0, ps.sel)
        cols == {p \in UNION {{<<s, k>> : k \in c.sel[s]} : s \in Visible(D, F, c)} :
                   e.ts = 1 \/ D[p[1]].keys[p[2]].ts = 0}
        got == {<<o.cols[i].s, o.cols[i].k>> : i \in 1..Len(o.cols)}
        rows == {t \in Rng(c.tids) : \E p \in cols : NEntries(D, F, c, p[1], p[2], t) > 0}
        val(p, t) == IF NEntries(D, F, c, p[1], p[2], t) = 0 THEN NaN
                     ELSE TrainVals(D, F, c, p[1], p[2], t)[1]
        col(p) == o.cols[CHOOSE i \in 1..Len(o.cols) : <<o.cols[i].s, o.cols[i].k>> = p].v
    IN  IF cols = {} THEN {} ELSE
        IF o.k # "frame" THEN {"raised"} ELSE
        If(got # cols \/ Len(o.cols) # Cardinality(cols), "columns")
        \cup If(Rng(o.tids) # rows \/ Len(o.tids) # Cardinality(rows), "rows")
        \cup If(\E p \in cols \cap got : Len(o.tids) = Len(col(p)) /\ Rng(o.tids) \subseteq rows
                   /\ col(p) # [i \in 1..Len(o.tids) |-> val(p, o.tids[i])], "values")

(*************************** text summaries ********************************)
InfoFails(c, o) ==
    IF o.k # "info" THEN {"raised"} ELSE
    LET vis == Visible(D, F, c)
        det == {s \in vis : D[s].det >= 0}
    IN  If(o.n # Len(c.tids), "train_count")
        \cup If(IF Len(c.tids) = 0 THEN o.first # 0 \/ o.last # 0
                ELSE o.first # c.tids[1] \/ o.last # c.tids[Len(c.tids)], "train_range")
        \cup If(Rng(o.inst) # {s \in vis : D[s].cat = "I"} \ det
                \/ Len(o.inst) # Cardinality({s \in vis : D[s].cat = "I"} \ det), "instrument_list")
        \cup If(Rng(o.ctrl) # {s \in vis : D[s].cat = "C"}
                \/ Len(o.ctrl) # Cardinality({s \in vis : D[s].cat = "C"}), "control_list")
        \cup If(o.ninst # Cardinality({s \in vis : D[s].cat = "I"} \ det)
                \/ o.nctrl # Cardinality({s \in vis : D[s].cat = "C"}), "source_count")
        \cup If(o.ndet # Cardinality(det), "detector_count")

TrainInfoFails(c, e, o) ==
    IF e.t \notin Rng(c.tids) THEN ExcFails(o, {"ValueError"}) ELSE
    IF o.k # "tinfo" THEN {"raised"} ELSE
    LET has == {s \in Sources(D) : FileFor(F, c, s, e.t) # 0}
        must == has \cap Visible(D, F, c)
    IN  \* everything recorded in the files; at least what is selected
        If(~ (Rng(o.inst) \subseteq {s \in has : D[s].cat = "I"})
           \/ ~ ({s \in must : D[s].cat = "I"} \subseteq Rng(o.inst)), "instrument_list")
        \cup If(~ (Rng(o.ctrl) \subseteq {s \in has : D[s].cat = "C"})
           \/ ~ ({s \in must : D[s].cat = "C"} \subseteq Rng(o.ctrl)), "control_list")

DetInfoFails(c, e, o) ==
    IF o.k # "dinfo" THEN {"raised"} ELSE
    LET fs == FilesWith(F, c.fs, e.s)
        cnts(f) == {F[f].src[e.s].idx[1].count[i] : i \in 1..Len(F[f].tids)} \ {0}
        all == UNION {cnts(f) : f \in fs}
        sh == D[e.s].keys[e.k].shape
    IN  If(o.dims # SubSeq(sh, Len(sh) - 1, Len(sh)), "dims")
        \cup If(all = {} /\ o.fpt # 0, "frames_per_train")
        \cup If(all # {} /\ o.fpt \notin (all \cup If(\E f \in fs : cnts(f) = {}, 0)),
                "frames_per_train")
        \cup If(o.total # o.fpt * Len(c.tids), "total_frames")

(******************************** events ***********************************)
Res(c, fails) == [fails |-> fails, new |-> <<c>>, nf |-> <<>>]
NoRes(fails) == [fails |-> fails, new |-> <<>>, nf |-> <<>>]
\* an operation which should give collection c, or raise one of `must`
Op(c, must, may, o) ==
    IF must # {} THEN NoRes(ExcFails(o, must \cup may))
    ELSE IF o.k = "exc" /\ Rng(o.t) \cap may # {} THEN NoRes({})
    ELSE IF o.k = "exc" THEN NoRes({"raised"})
    ELSE Res(c, SumFails(c, o))

DotH5 == <<46, 104, 53>>
\* files by name (RunDirectory takes *.h5 matching a pattern)
Wanted(e, f) == e.how # "dir" \/ (EndsWith(S.names[f], DotH5) /\ Glob(e.inc, S.names[f]))
OpenedFiles(e) == IF "inc" \in DOMAIN e THEN {f \in Rng(e.dir) \ Rng(e.broken) : Wanted(e, f)}
                  ELSE Rng(e.fs)

\* what the clients of serve_files() together received: each train with any
\* of the selected data once; each client gets later and later trains.
\* Single numbers are sent without their type.
ServeFails(e, o) ==
    LET fs == Rng(e.fs) IN
    IF FilesConflict(D, F, fs, Sources(D)) THEN ExcFails(o, {"ValueError"}) ELSE
    LET c0 == OpenColl(D, F, fs)
        p == PatSel(c0, e.seln)
    IN  IF p.err # {} THEN ExcFails(o, p.err) ELSE
    LET c == RestrictTo(D, F, c0, p.sel)
        \* every train, also those without any data
        want == IF Visible(D, F, c) = {} THEN <<>> ELSE c.tids
        may == Rng(c.tids)
        key(q, k) == IF k.sh = <<>> /\ k.k # 0 THEN [k EXCEPT !.dt = D[q.s].keys[k.k].dt] ELSE k
        sent(x) == [x EXCEPT !.src = [i \in 1..Len(x.src) |-> [x.src[i] EXCEPT !.keys =
                       [j \in 1..Len(x.src[i].keys) |-> key(x.src[i], x.src[i].keys[j])]]]]
    IN  IF o.k = "hang" THEN {"hangs"} ELSE
        IF o.k # "served" THEN {"raised"} ELSE
        LET got == ConcatMap(LAMBDA q : [i \in 1..Len(q) |-> q[i].tid], o.parts) IN
        If(\E t \in Rng(want) \ Rng(got) : TRUE, "missing_train")
        \cup If(\E t \in Rng(got) \ may : TRUE, "extra_train")
        \cup If(Cardinality(Rng(got)) # Len(got), "train_twice")
        \cup If(\E q \in Rng(o.parts) : \E i \in 1..Len(q) - 1 : q[i].tid >= q[i + 1].tid, "order")
        \cup UNION {UNION {IF q[i].tid \in may THEN OneTrainFails(c, q[i].tid, sent(q[i])) ELSE {}
                            : i \in 1..Len(q)} : q \in Rng(o.parts)}

Eval(e) ==
  LET C == st.colls
      o == e.obs
  IN CASE e.op = "open" ->
        LET fs == OpenedFiles(e)
            srcs == Sources(D)
        IN  IF fs = {} THEN NoRes(ExcFails(o, {"Exception"}))
            ELSE IF FilesConflict(D, F, fs, srcs) THEN NoRes(ExcFails(o, {"ValueError"}))
            ELSE LET c == OpenColl(D, F, fs)
                     r == Op(c, {}, {}, o)
                     listed == {f \in Rng(e.broken) : Wanted(e, f)}
                 IN  IF "warned" \in DOMAIN e
                     THEN [r EXCEPT !.fails = @ \cup If(~ (listed \subseteq Rng(e.warned)), "no_warning")
                                                \cup If(fs \cap Rng(e.warned) # {}, "warns_of_good_file")]
                     ELSE r
    [] e.op = "select" ->
        LET c == C[e.c]
            p == PatSel(c, e.seln)
        IN  IF p.err # {} THEN NoRes(ExcFails(o, p.err))
            ELSE Op(RestrictTo(D, F, c, p.sel), {}, {}, o)
    [] e.op = "deselect" ->
        LET c == C[e.c]
            p == PatSel(c, e.seln)
        IN  IF p.err # {} THEN NoRes(ExcFails(o, p.err))
            ELSE Op(RestrictTo(D, F, c, Subtract(c.sel, p.sel)), {}, {}, o)
    [] e.op = "trange" ->
        LET c == C[e.c]
            r == RangeOf(c.tids, e.rng)
        IN  Op(WithTrains(D, F, c, r.tids), r.must, r.may, o)
    [] e.op = "union" ->
        LET cs == [i \in 1..Len(e.cs) |-> C[e.cs[i]]]
            u == UnionColl(cs)
            hard == FilesConflict(D, F, u.fs, Visible(D, F, u))
            soft == FilesConflict(D, F, u.fs, Sources(D))
        IN  Op(u, If(hard, "ValueError"), If(soft, "ValueError"), o)
    [] e.op = "observe" -> NoRes(SumFails(C[e.c], o))
    [] e.op = "with" ->
        IF C[e.c].own THEN NoRes(If(o.k # "with", "raised") \cup
                                 If(o.k = "with" /\ o.fds # 0, "left_open"))
        ELSE NoRes(ExcFails(o, {"Exception"}))
    [] e.op \in {"train", "train_ix"} ->
        LET c == C[e.c]
            n == Len(c.tids)
            p == PatSel(c, e.seln)
            cc == IF e.seln.kind = "none" THEN c ELSE RestrictTo(D, F, c, p.sel)
            bad == IF e.op = "train" THEN If(e.t \notin Rng(c.tids), "KeyError")
                   ELSE If(~ IndexInRange(c.tids, e.t), "IndexError")
            t == IF e.op = "train" THEN e.t
                 ELSE c.tids[IF e.t < 0 THEN n + e.t + 1 ELSE e.t + 1]
        IN  IF bad \cup p.err # {} THEN NoRes(ExcFails(o, bad \cup p.err))
            ELSE IF o.k # "train" THEN NoRes({"raised"})
            ELSE NoRes(OneTrainFails(cc, t, o))
    [] e.op = "trains" ->
        LET c == C[e.c]
            p == PatSel(c, e.seln)
            c1 == IF e.seln.kind = "none" \/ p.err # {} THEN c ELSE RestrictTo(D, F, c, p.sel)
            r == RangeOf(c1.tids, e.rng)
            c2 == IF e.rng.kind = "none" THEN c1 ELSE WithTrains(D, F, c1, r.tids)
            want == IF e.req = 1 THEN SelectSeq(c2.tids, LAMBDA t : Complete(D, F, c2, t))
                    ELSE c2.tids
        IN  IF p.err # {} THEN NoRes(ExcFails(o, p.err))
            ELSE IF r.must # {} THEN NoRes(ExcFails(o, r.must \cup r.may))
            ELSE IF o.k = "exc" /\ Rng(o.t) \cap r.may # {} THEN NoRes({})
            ELSE IF o.k # "trains" THEN NoRes({"raised"})
            ELSE IF [i \in 1..Len(o.items) |-> o.items[i].tid] # want THEN NoRes({"which_trains"})
            ELSE NoRes(UNION {OneTrainFails(c2, want[i], o.items[i]) : i \in 1..Len(want)})
    [] e.op = "serve" -> NoRes(ServeFails(e, o))
    [] e.op \in {"array", "dask"} -> NoRes(ArrFails(C[e.c], e, o))
    [] e.op = "lazy" -> NoRes(LazyFails(C[e.c], e, o))
    [] e.op = "series" -> NoRes(SeriesFails(C[e.c], e, o))
    [] e.op = "counts" -> NoRes(CountsFails(C[e.c], e, o))
    [] e.op = "frame" -> NoRes(FrameFails(C[e.c], e, o))
    [] e.op = "info" -> NoRes(InfoFails(C[e.c], o))
    [] e.op = "tinfo" -> NoRes(TrainInfoFails(C[e.c], e, o))
    [] e.op = "dinfo" -> NoRes(DetInfoFails(C[e.c], e, o))
    [] e.op \in {"write", "vwrite", "vds"} ->
        LET c == C[e.c]
            err == IF e.op = "vds" THEN FieldErr(c, e.s, e.k) ELSE {}
        IN  IF err # {} THEN NoRes(ExcFails(o, err)) ELSE
            LET c0 == IF e.op = "vds" THEN [c EXCEPT !.sel = [s \in {e.s} |-> {e.k}]]
                      ELSE [c EXCEPT !.sel = [s \in Visible(D, F, c) |-> c.sel[s]]]
                data(s) == {k \in c0.sel[s] : Len(Entries(D, F, c0, s, k)) > 0}
                nodata == \E s \in DOMAIN c0.sel : data(s) # c0.sel[s]
                \* a virtual file need not mention keys without any data
                lean == DropEmpty([s \in DOMAIN c0.sel |-> data(s)])
                seen == IF o.k # "write" THEN <<>>
                        ELSE [s \in {o.sum.keys[i].s : i \in 1..Len(o.sum.keys)} |->
                                Rng(o.sum.keys[CHOOSE i \in 1..Len(o.sum.keys) : o.sum.keys[i].s = s].ks)]
                ok == seen = c0.sel
                      \/ (e.op = "vwrite" /\ DOMAIN lean \subseteq DOMAIN seen
                          /\ DOMAIN seen \subseteq DOMAIN c0.sel
                          /\ \A s \in DOMAIN seen :
                               (IF s \in DOMAIN lean THEN lean[s] ELSE {}) \subseteq seen[s]
                               /\ seen[s] \subseteq c0.sel[s])
            IN  IF e.op = "vds" /\ data(e.s) = {} /\ o.k = "exc" THEN NoRes({})
                ELSE IF o.k # "write" THEN NoRes({"raised"})
                ELSE IF ~ ok THEN NoRes({"contents"})
                ELSE LET c1 == [c0 EXCEPT !.sel = seen]
                         w == Written(D, F, c1)
                     IN  [fails |-> If(o.sum.tids # c.tids, "trains")
                                    \cup If(o.valid # 0, "invalid_file")
                                    \cup If(o.meta # 1, "metadata")
                                    \cup If(Rng(o.sum.C) \cup Rng(o.sum.I) # DOMAIN seen
                                            \/ Rng(o.sum.C) # {s \in DOMAIN seen : D[s].cat = "C"},
                                            "sources")
                                    \cup (IF e.op = "vds" THEN
                                            LET E == Entries(D, F, c0, e.s, e.k) IN
                                            If(o.arr.k # "arr", "raised")
                                            \cup (IF o.arr.k # "arr" THEN {} ELSE
                                            If(o.arr.sh # <<Len(E)>> \o D[e.s].keys[e.k].shape, "shape")
                                            \cup If(o.arr.v # ConcatMap(LAMBDA x :
                                                     RowVals(D, F[x[2]], e.s, e.k, x[3]), E), "values")
                                            \cup If(o.arr.dt # D[e.s].keys[e.k].dt, "dtype"))
                                          ELSE {}),
                          nf |-> <<w>>,
                          new |-> <<[fs |-> {Len(F) + 1}, sel |-> seen, tids |-> c.tids, own |-> TRUE]>>]
    [] OTHER -> NoRes({"unknown_event"})

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

\* which collections an event works on
Inputs(e) == IF e.op = "open" THEN {}
             ELSE IF e.op \in {"again", "serve"} THEN {}
             ELSE IF e.op = "union" THEN Rng(e.cs) ELSE {e.c}

\* did the real call return a new collection?
Made(e) == e.obs.k \in {"coll", "write"} /\ e.op \notin {"observe", "again"}

(* Repeating an earlier call must repeat its observation: results depend   *)
(* on the collection and the arguments only, not on what happened between. *)
AgainFails(e) == If(e.obs # S.ev[e.ref].obs, "differs")

Init == /\ sc \in 1..Len(Trace)
        /\ l = 1
        /\ st = [colls |-> <<>>, F |-> Trace[sc].files, bad |-> {}]

\* Collections made by a call which broke the specification are not judged
\* any further (st.bad), everything else is.
Next ==
    /\ l <= Len(S.ev)
    /\ l' = l + 1 /\ UNCHANGED sc
    /\ LET e == S.ev[l]
           n == Len(st.colls) + 1
           argf == IF "same" \in DOMAIN e /\ e.same = 0 THEN {"argument_changed"} ELSE {}
       IN IF Inputs(e) \cap st.bad # {}
          THEN st' = IF Made(e) THEN [st EXCEPT !.colls = Append(@, [bad |-> TRUE]), !.bad = @ \cup {n}]
                     ELSE st
          ELSE LET r == IF e.op = "again" THEN NoRes(AgainFails(e)) ELSE Eval(e)
               IN  /\ Report(e, r.fails \cup argf)
                   /\ st' = IF ~ Made(e) THEN st
                            ELSE IF r.fails # {} \/ Len(r.new) # 1
                            THEN [st EXCEPT !.colls = Append(@, [bad |-> TRUE]), !.bad = @ \cup {n}]
                            ELSE [st EXCEPT !.colls = @ \o r.new, !.F = @ \o r.nf]

Spec == Init /\ [][Next]_vars
=============================================================================
