------------------------------- MODULE Detector -------------------------------
(***************************************************************************)
(* Multi-module detectors.  Module m's data is an instrument source with a *)
(* group "image" of one entry (frame) per pulse, whose key pulseId says    *)
(* which pulse, and possibly other groups with one entry per train.        *)
(*                                                                         *)
(* X is a detector view: [D, F, fs, tids, src, keys]  with  fs the files,  *)
(* tids the selected trains, src a function module number -> source and    *)
(* keys the keys selected of each source (sets).                           *)
(***************************************************************************)
EXTENDS EuXFEL

NaN == -2000000001

Mods(X) == DOMAIN X.src
\* group of frames is the one of the pulse ids
PidKey(X, m) == CHOOSE k \in KeysOf(X.D, X.src[m]) : X.D[X.src[m]].keys[k].pid = 1
ImgGroup(X, m) == X.D[X.src[m]].keys[PidKey(X, m)].g

FileOf(X, m, t) ==
    LET S == {f \in FilesWith(X.F, X.fs, X.src[m]) : t \in Rng(X.F[f].tids)}
    IN  IF S = {} THEN 0 ELSE CHOOSE f \in S : TRUE

NRowsOf(X, m, k, t) ==
    LET f == FileOf(X, m, t) IN IF f = 0 THEN 0 ELSE CountIn(X.D, X.F[f], X.src[m], k, t)

NFrames(X, m, t) == NRowsOf(X, m, PidKey(X, m), t)

\* pulses of the frames of module m in train t, in order
Pulses(X, m, t) ==
    LET f == FileOf(X, m, t) IN
    IF f = 0 THEN <<>>
    ELSE LET rows == RowsIn(X.D, X.F[f], X.src[m], PidKey(X, m), t)
         IN  [i \in 1..Len(rows) |-> Elem(X.D, X.F[f], X.src[m], PidKey(X, m), rows[i], 0)]

\* the values (flat) of entry i of key k
FrameVals(X, m, k, t, i) ==
    LET f == FileOf(X, m, t)
    IN  RowVals(X.D, X.F[f], X.src[m], k, RowsIn(X.D, X.F[f], X.src[m], k, t)[i])

\* trains where enough modules have frames
Present(X, t) == {m \in Mods(X) : NFrames(X, m, t) > 0}
TrainsFor(X, minmod) == SelectSeq(X.tids, LAMBDA t : Cardinality(Present(X, t)) >= minmod)
FrameCounts(X) == {NFrames(X, m, X.tids[i]) : m \in Mods(X), i \in 1..Len(X.tids)} \ {0}

(***************************************************************************)
(* Selections of pulses: [kind, v] with v a set of numbers, by pulse id    *)
(* ("id") or by position within the train ("ix"), or "all".                *)
(***************************************************************************)
Chosen(q, p, i) ==      \* frame i (1-based) with pulse p
    CASE q.kind = "all" -> TRUE
      [] q.kind = "id"  -> p \in q.v
      [] q.kind = "ix"  -> (i - 1) \in q.v

ChosenIn(X, q, m, t) ==
    LET p == Pulses(X, m, t) IN {i \in 1..Len(p) : Chosen(q, p[i], i)}

\* axes of an array of frames over trains ts
AxisTrains(X, q, ts) ==
    SortedInts({t \in Rng(ts) : \E m \in Mods(X) : ChosenIn(X, q, m, t) # {}})
AxisPulses(X, q, ts) ==
    SortedInts(UNION {{Pulses(X, m, t)[i] : i \in ChosenIn(X, q, m, t)} : m \in Mods(X), t \in Rng(ts)})
AxisMods(X) == SortedInts(Mods(X))

Flat(n) == [i \in 1..n |-> NaN]

CellVals(X, q, m, k, t, p) ==
    LET ps == Pulses(X, m, t)
        S == {i \in ChosenIn(X, q, m, t) : ps[i] = p}
    IN  IF S = {} THEN Flat(X.D[X.src[m]].keys[k].esz)
        ELSE FrameVals(X, m, k, t, CHOOSE i \in S : TRUE)

\* an array of frames, flat: module, train, pulse, rest
FrameArray(X, q, keyOf(_), ts) ==
    LET T == AxisTrains(X, q, ts)
        P == AxisPulses(X, q, ts)
        M == AxisMods(X)
    IN  ConcatMap(LAMBDA m : ConcatMap(LAMBDA t : ConcatMap(LAMBDA p :
            CellVals(X, q, m, keyOf(m), t, p), P), T), M)

\* trains for which every module has all its data
Complete(X, t) == \A m \in Mods(X) : \A k \in X.keys[m] : NRowsOf(X, m, k, t) > 0

(***************************************************************************)
(* CXI: one entry per train and position, 16 modules, a fixed number of    *)
(* frames per train.                                                       *)
(***************************************************************************)
CXIEntries(X, ts, fpt) == ConcatMap(LAMBDA t : [i \in 1..fpt |-> <<t, i>>], ts)
\* pulse of entry <<t, i>>; modules must agree
EntryPulses(X, e) == {Pulses(X, m, e[1])[e[2]] : m \in Present(X, e[1])}
CXIConsistent(X, ts, fpt) ==
    \A t \in Rng(ts) : \A i \in 1..fpt : Cardinality(EntryPulses(X, <<t, i>>)) = 1
=============================================================================
