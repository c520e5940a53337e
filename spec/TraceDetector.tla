---------------------------- MODULE TraceDetector ----------------------------
(***************************************************************************)
(* Judges what was recorded from the interfaces to multi-module detectors  *)
(* against Detector.tla.  Each scenario is one run; its events open a      *)
(* detector in a collection of that run ("open") and then read from it     *)
(* ("array", "trains", "cxi"), or let the command line tool make a CXI     *)
(* file ("cli").                                                           *)
(***************************************************************************)
EXTENDS Detector, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, st
vars == <<sc, l, st>>
S == Trace[sc]
D == S.defs
F == S.files
FS == 1..Len(F)
If(b, x) == IF b THEN {x} ELSE {}
NONE == -999999
MaxPulses == 2700

Exc(o, allowed) == If(o.k # "exc", "not_raised")
                   \cup If(o.k = "exc" /\ Rng(o.t) \cap allowed = {}, "wrong_error")

(****************************** opening ************************************)
\* sources of the collection belonging to detector n
ModulesOf(sel, n) == {s \in DOMAIN sel : D[s].cat = "I" /\ D[s].dn = n}
DetsOf(sel, cls) == {D[s].dn : s \in {x \in DOMAIN sel : D[x].cat = "I" /\ D[x].dc = cls}}

Opened(e) ==
    LET sel == [s \in {e.sel[i].s : i \in 1..Len(e.sel)} |->
                   Rng(e.sel[CHOOSE i \in 1..Len(e.sel) : e.sel[i].s = s].ks)]
        dets == IF e.dn # 0 THEN {e.dn} ELSE DetsOf(sel, e.cls)
        n == CHOOSE n \in dets : TRUE
        srcs == {s \in ModulesOf(sel, n) : e.hasmods = 0 \/ D[s].det \in Rng(e.mods)}
        X == [D |-> D, F |-> F, fs |-> FS, tids |-> e.tids,
              src |-> [m \in {D[s].det : s \in srcs} |-> CHOOSE s \in srcs : D[s].det = m],
              keys |-> [m \in {D[s].det : s \in srcs} |-> sel[CHOOSE s \in srcs : D[s].det = m]]]
        counts == FrameCounts(X)
        ts == TrainsFor(X, e.minmod)
        \* modules without any of these trains in a file are left out
        held == {m \in Mods(X) : \E t \in Rng(ts) : FileOf(X, m, t) # 0}
    IN  IF dets = {} THEN [err |-> {"SourceNameError"}]
        ELSE IF Cardinality(dets) > 1 THEN [err |-> {"ValueError"}]
        ELSE IF srcs = {} THEN [err |-> {"SourceNameError"}]
        ELSE IF Cardinality(counts) # 1 THEN [err |-> {"ValueError"}]
        ELSE IF Len(ts) = 0 THEN [err |-> {"ValueError"}]
        ELSE [err |-> {}, dn |-> n, fpt |-> CHOOSE c \in counts : TRUE,
              X |-> [X EXCEPT !.tids = ts, !.src = [m \in held |-> X.src[m]],
                                  !.keys = [m \in held |-> X.keys[m]]]]

OpenFails(r, o) ==
    IF r.err # {} THEN Exc(o, r.err)
    ELSE IF o.k # "det" THEN {"raised"}
    ELSE If(o.tids # r.X.tids, "train_ids")
         \cup If({<<o.mods[i][1], o.mods[i][2]>> : i \in 1..Len(o.mods)}
                   # {<<m, r.X.src[m]>> : m \in Mods(r.X)}, "modules")
         \cup If(o.fpt # r.fpt, "frames_per_train")
         \cup If(o.dn # r.dn, "detector_name")

(****************************** selections *********************************)
QSet(q) ==
    IF q.form = "slice"
    THEN LET a == IF q.a = NONE THEN 0 ELSE q.a
             b == IF q.b = NONE THEN MaxPulses ELSE q.b
             s == IF q.st = NONE THEN 1 ELSE q.st
         IN  {x \in a..(b - 1) : (x - a) % s = 0}
    ELSE Rng(q.l)
Q(q) == [kind |-> q.kind, v |-> IF q.kind = "all" THEN {} ELSE QSet(q)]

(******************************* arrays ************************************)
KeyNamed(X, m, c) == CHOOSE k \in KeysOf(D, X.src[m]) : D[X.src[m]].keys[k].c = c
IsImage(c) == Len(c) > 6 /\ SubSeq(c, 1, 6) = <<105, 109, 97, 103, 101, 46>>
\* raw files have a spurious extra dimension
Inner(sh) == IF Len(sh) > 0 /\ sh[1] = 1 THEN Tail(sh) ELSE sh
InnerDims(sh) == CASE Len(sh) = 0 -> <<>>
                   [] Len(sh) = 2 -> <<"slow_scan", "fast_scan">>
                   [] Len(sh) = 3 -> <<"data_gain", "slow_scan", "fast_scan">>

Ascending(q) == \A i \in 1..(Len(q) - 1) : q[i] < q[i + 1]

\* an array o of frames of key c (by name) of modules M in trains ts
FrameFails(X, M, q, c, ts, o) ==
    LET T == Rng(ts)
        PT == TLCEval([m \in M |-> TLCEval([t \in T |-> Pulses(X, m, t)])])
        CH == TLCEval([m \in M |-> TLCEval([t \in T |->
                 {i \in 1..Len(PT[m][t]) : Chosen(q, PT[m][t][i], i)}])])
        k(m) == KeyNamed(X, m, c)
        key == D[X.src[CHOOSE m \in M : TRUE]].keys[k(CHOOSE m \in M : TRUE)]
        sh == Inner(key.shape)
        needT == {t \in T : \E m \in M : CH[m][t] # {}}
        needP == UNION {{PT[m][t][i] : i \in CH[m][t]} : m \in M, t \in T}
        cell(m, t, p) ==
            LET s == {i \in CH[m][t] : PT[m][t][i] = p}
            IN  IF s = {} THEN Flat(key.esz) ELSE FrameVals(X, m, k(m), t, CHOOSE i \in s : TRUE)
    IN  IF o.k # "arr" THEN {"raised"}
        ELSE If(o.dims # <<"module", "train", "pulse">> \o InnerDims(sh), "dims")
             \cup If(o.mods # SortedInts(M), "modules")
             \cup If(~ (Ascending(o.trains) /\ needT \subseteq Rng(o.trains) /\ Rng(o.trains) \subseteq T),
                     "trains")
             \cup If(~ (Ascending(o.pulses) /\ needP \subseteq Rng(o.pulses)
                        /\ (q.kind = "id" => Rng(o.pulses) \subseteq q.v)), "pulses")
             \cup If(o.sh # <<Len(o.mods), Len(o.trains), Len(o.pulses)>> \o sh, "shape")
             \cup If(o.dt \notin {key.dt, "float64"} \cup
                         (IF key.dt \in {"uint8", "uint16", "int16"} THEN {"float32"} ELSE {}), "dtype")
             \cup (IF ~ (Rng(o.mods) \subseteq M /\ Rng(o.trains) \subseteq T) THEN {}
                   ELSE If(o.v # ConcatMap(LAMBDA m : ConcatMap(LAMBDA t : ConcatMap(LAMBDA p :
                                    cell(m, t, p), o.pulses), o.trains), o.mods), "values"))

\* one entry per train: modules by trains
SlowArrayFails(X, M, c, o) ==
    LET k(m) == KeyNamed(X, m, c)
        m0 == CHOOSE m \in M : TRUE
        key == D[X.src[m0]].keys[k(m0)]
        T == {t \in Rng(X.tids) : \E m \in M : NRowsOf(X, m, k(m), t) > 0}
        cell(m, t) == IF NRowsOf(X, m, k(m), t) = 0 THEN Flat(key.esz)
                      ELSE FrameVals(X, m, k(m), t, 1)
    IN  IF \E m \in M, t \in T : NRowsOf(X, m, k(m), t) > 1 THEN {}
        ELSE IF o.k # "arr" THEN If(T # {}, "slow_raised")
        ELSE If(Len(o.dims) # 2 + Len(key.shape), "dims")
             \cup If(o.mods # SortedInts(M), "modules")
             \cup If(~ (Ascending(o.trains) /\ T \subseteq Rng(o.trains)
                        /\ Rng(o.trains) \subseteq Rng(X.tids)), "trains")
             \cup If(o.sh # <<Len(o.mods), Len(o.trains)>> \o key.shape, "shape")
             \cup (IF ~ (Rng(o.mods) \subseteq M /\ Rng(o.trains) \subseteq Rng(X.tids)) THEN {}
                   ELSE If(o.v # ConcatMap(LAMBDA m : ConcatMap(LAMBDA t : cell(m, t), o.trains), o.mods),
                           "slow_values"))

ArrayFails(X, e) ==
    IF e.q.bad = 1 THEN If(e.obs.k # "exc", "not_raised")
    ELSE IF IsImage(e.key) THEN FrameFails(X, Mods(X), Q(e.q), e.key, X.tids, e.obs)
    ELSE SlowArrayFails(X, Mods(X), e.key, e.obs)

(******************************* trains ************************************)
AllKeys(X) == UNION {{D[X.src[m]].keys[k].c : k \in X.keys[m]} : m \in Mods(X)}
ModsWith(X, c) == {m \in Mods(X) : \E k \in X.keys[m] : D[X.src[m]].keys[k].c = c}

SlowTrainFails(X, M, c, t, o) ==
    LET k(m) == KeyNamed(X, m, c)
        m0 == CHOOSE m \in M : TRUE
        key == D[X.src[m0]].keys[k(m0)]
        n(m) == NRowsOf(X, m, k(m), t)
    IN  IF \E m \in M : n(m) # n(m0) THEN {}
        ELSE IF o.k # "arr" THEN {"raised"}
        ELSE If(o.mods # SortedInts(M), "modules")
             \cup If(o.sh # <<Cardinality(M)>> \o (IF n(m0) = 1 THEN <<>> ELSE <<n(m0)>>) \o key.shape, "shape")
             \cup If(o.dt # key.dt, "dtype")
             \cup If(o.v # ConcatMap(LAMBDA m : Concat([i \in 1..n(m) |-> FrameVals(X, m, k(m), t, i)]),
                                     SortedInts(M)), "slow_values")

TrainFails(X, q, t, keys) ==
    LET names == {keys[i].c : i \in 1..Len(keys)} IN
    If(names # AllKeys(X) \/ Len(keys) # Cardinality(names), "keys")
    \cup UNION {IF keys[i].c \notin AllKeys(X) THEN {}
                ELSE IF IsImage(keys[i].c)
                THEN FrameFails(X, ModsWith(X, keys[i].c), q, keys[i].c, <<t>>, keys[i].o)
                ELSE SlowTrainFails(X, ModsWith(X, keys[i].c), keys[i].c, t, keys[i].o)
                : i \in 1..Len(keys)}

TrainsFails(X, e) ==
    LET want == SelectSeq(X.tids, LAMBDA t : Complete(X, t))
        o == e.obs
        q == Q(e.q)
    IN  IF e.q.bad = 1 THEN If(o.k # "exc", "not_raised")
        ELSE IF o.k # "trains" THEN {"raised"}
        ELSE If([i \in 1..Len(o.l) |-> o.l[i].t] # want, "order")
             \cup UNION {IF o.l[i].t \notin Rng(want) THEN {}
                         ELSE TrainFails(X, q, o.l[i].t, o.l[i].keys) : i \in 1..Len(o.l)}

(********************************* CXI *************************************)
Name(n) == CASE n = "data" -> <<105, 109, 97, 103, 101, 46, 100, 97, 116, 97>>
             [] n = "gain" -> <<105, 109, 97, 103, 101, 46, 103, 97, 105, 110>>
             [] n = "mask" -> <<105, 109, 97, 103, 101, 46, 109, 97, 115, 107>>
             [] n = "cellId" -> <<105, 109, 97, 103, 101, 46, 99, 101, 108, 108, 73, 100>>
HasKey(X, m, c) == \E k \in KeysOf(D, X.src[m]) : D[X.src[m]].keys[k].c = c

LayerFails(X, ents, a) ==
    LET c == Name(a.name)
        m0 == CHOOSE m \in Mods(X) : TRUE
        key(m) == KeyNamed(X, m, c)
        kd == D[X.src[m0]].keys[key(m0)]
        inner == IF a.name = "cellId" THEN <<>> ELSE kd.shape
        fill == [i \in 1..kd.esz |-> a.fill]
        cell(e, m) == IF m \notin Mods(X) THEN fill
                      ELSE IF NFrames(X, m, e[1]) = 0 THEN fill
                      ELSE FrameVals(X, m, key(m), e[1], e[2])
    IN  If(a.sh # <<Len(ents), 16>> \o inner, "layer_shape")
        \cup If(a.axes # <<"experiment_identifier", "module_identifier">> \o
                           (IF Len(inner) = 3 THEN <<"data_gain">> ELSE <<>>) \o
                           (IF a.name = "cellId" THEN <<>> ELSE <<"y", "x">>), "axes")
        \cup If(a.dt # kd.dt, "layer_dtype")
        \cup If(kd.dt \in {"float32", "float64"} /\ a.fill # NaN, "fill")
        \cup If(a.v # ConcatMap(LAMBDA e : ConcatMap(LAMBDA m : cell(e, m - 1), [i \in 1..16 |-> i]), ents),
                "layer_values")

CXIFails(X, fpt, o) ==
    LET ents == CXIEntries(X, X.tids, fpt)
        layers == {o.layers[i].name : i \in 1..Len(o.layers)}
        want == {n \in {"data", "gain", "mask", "cellId"} : HasKey(X, CHOOSE m \in Mods(X) : TRUE, Name(n))}
    IN  IF ~ CXIConsistent(X, X.tids, fpt) THEN If(o.k = "cxi", "inconsistent_accepted")
        ELSE IF o.k # "cxi" THEN {"raised"}
        ELSE LET pul == [i \in 1..Len(ents) |-> CHOOSE p \in EntryPulses(X, ents[i]) : TRUE]
                 tr == [i \in 1..Len(ents) |-> ents[i][1]]
                 m0 == CHOOSE m \in Mods(X) : TRUE
                 dsh == D[X.src[m0]].keys[KeyNamed(X, m0, Name("data"))].shape
             IN  If(o.trains # tr, "trains")
                 \cup If(o.gains # (IF Len(dsh) < 3 THEN <<>> ELSE IF dsh[1] = 2 THEN <<"data", "gain">>
                                    ELSE <<"data">>), "data_gain")
                 \cup If(o.pulses # pul, "pulses")
                 \cup If(o.ids # [i \in 1..Len(ents) |-> <<tr[i], pul[i]>>], "identifiers")
                 \cup If(o.mods # SortedInts(Mods(X)), "module_identifier")
                 \cup If(o.links # 1, "links")
                 \cup If(layers # want, "layers")
                 \cup UNION {LayerFails(X, ents, o.layers[i]) : i \in 1..Len(o.layers)}

\* the command line tool takes AGIPD, else LPD data of the whole run
CliOpened(e) ==
    LET base == [sel |-> e.sel, tids |-> e.tids, dn |-> 0, hasmods |-> 0, mods |-> <<>>,
                 minmod |-> e.minmod]
        a == Opened(base @@ [cls |-> 0])
    IN  IF "SourceNameError" \in a.err THEN Opened(base @@ [cls |-> 1]) ELSE a

CliFails(e) ==
    LET r == CliOpened(e)
    IN  IF r.err # {} THEN If(e.obs.k = "cxi", "not_raised") ELSE CXIFails(r.X, r.fpt, e.obs)

(***************************************************************************)
Eval(e) ==
    CASE e.op = "open" -> OpenFails(Opened(e), e.obs)
      [] e.op = "array" -> ArrayFails(st.X, e)
      [] e.op = "trains" -> TrainsFails(st.X, e)
      [] e.op = "cxi" -> CXIFails(st.X, st.fpt, e.obs)
      [] e.op = "cli" -> CliFails(e)

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1 /\ st = [ok |-> FALSE]

Next ==
    /\ l <= Len(S.ev)
    /\ l' = l + 1 /\ UNCHANGED sc
    /\ LET e == S.ev[l] IN
       /\ (e.op \in {"array", "trains", "cxi"} /\ ~ st.ok) \/ Report(e, Eval(e))
       /\ st' = IF e.op # "open" THEN st
                ELSE LET r == Opened(e)
                     IN  IF r.err # {} \/ e.obs.k # "det" THEN [ok |-> FALSE]
                         ELSE [ok |-> TRUE, X |-> r.X, fpt |-> r.fpt]

Spec == Init /\ [][Next]_vars
=============================================================================
