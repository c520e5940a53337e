------------------------------- MODULE EuXFEL -------------------------------
(***************************************************************************)
(* The data model: what a set of EuXFEL HDF5 files *means*.                *)
(*                                                                         *)
(* A source definition  D[s]  has a category ("C" control, "I"             *)
(* instrument), a number of index groups, and a sequence of keys, each     *)
(* belonging to one group.  A file  F[f]  has an ascending sequence of     *)
(* train ids and, for each source it holds, one index (first, count) per   *)
(* group and one dataset per key.  The rows of a dataset which belong to   *)
(* train F[f].tids[i] are  first[i] .. first[i]+count[i]-1  (0-based).     *)
(*                                                                         *)
(* Dataset contents are integers, either listed (vals, row-major) or given *)
(* by the formula (b + a*row + e) % m for element e of a row.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

Rng(q) == {q[i] : i \in 1..Len(q)}

RECURSIVE SumSeq(_)
SumSeq(q) == IF Len(q) = 0 THEN 0 ELSE q[1] + SumSeq(Tail(q))

SortedInts(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* concatenate a sequence of sequences
Concat(qq) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, qq)
ConcatMap(op(_), q) == Concat([i \in 1..Len(q) |-> op(q[i])])

HasSrc(f, s) == f.src[s].has = 1
Sources(D) == 1..Len(D)
KeysOf(D, s) == 1..Len(D[s].keys)
FilesWith(F, fs, s) == {f \in fs : HasSrc(F[f], s)}

\* position (1-based) of train t in file f; only meaningful if present
PosIn(f, t) == CHOOSE i \in 1..Len(f.tids) : f.tids[i] = t

\* the rows (0-based) of key k of source s for train t in file f
RowsIn(D, f, s, k, t) ==
    LET ix == f.src[s].idx[D[s].keys[k].g]
        p  == PosIn(f, t)
    IN  [j \in 1..ix.count[p] |-> ix.first[p] + j - 1]

CountIn(D, f, s, k, t) == f.src[s].idx[D[s].keys[k].g].count[PosIn(f, t)]

\* element e (0-based) of row r
Elem(D, f, s, k, r, e) ==
    LET kf == f.src[s].keys[k]
    IN  IF Len(kf.vals) > 0 THEN kf.vals[r * D[s].keys[k].esz + e + 1]
        ELSE (kf.b + kf.a * r + e) % kf.m

RowVals(D, f, s, k, r) ==
    [e \in 1..D[s].keys[k].esz |-> Elem(D, f, s, k, r, e - 1)]

(***************************************************************************)
(* Region of interest: a sequence, one record per inner dimension, of the  *)
(* 0-based indices selected (ix) and whether the dimension disappears.     *)
(***************************************************************************)
RECURSIVE Offsets(_, _)
Offsets(shape, roi) ==   \* row-major flat offsets selected by roi
    IF Len(shape) = 0 THEN <<0>>
    ELSE LET rest == Offsets(Tail(shape), Tail(roi))
             stride == FoldSeq(LAMBDA x, acc : acc * x, 1, Tail(shape))
         IN  ConcatMap(LAMBDA i : [j \in 1..Len(rest) |-> i * stride + rest[j]],
                       roi[1].ix)

RoiShape(roi) == Concat([i \in 1..Len(roi) |->
                           IF roi[i].drop = 1 THEN <<>> ELSE <<Len(roi[i].ix)>>])

FullRoi(shape) == [i \in 1..Len(shape) |->
                     [ix |-> [j \in 1..shape[i] |-> j - 1], drop |-> 0]]

(***************************************************************************)
(* Glob patterns, on sequences of character codes.                         *)
(* 42 '*'  63 '?'  91 '['  93 ']'  33 '!'  45 '-'                          *)
(***************************************************************************)
\* index of the ']' closing the bracket opened at i, or 0
CloseBracket(p, i) ==
    LET j0 == IF i + 1 <= Len(p) /\ p[i + 1] = 33 THEN i + 2 ELSE i + 1
        j1 == IF j0 <= Len(p) /\ p[j0] = 93 THEN j0 + 1 ELSE j0
        S  == {j \in j1..Len(p) : p[j] = 93}
    IN  IF S = {} THEN 0 ELSE Min(S)

RECURSIVE InClass(_, _, _, _)
InClass(p, i, j, c) ==   \* c in the class made of p[i..j]
    IF i > j THEN FALSE
    ELSE IF i + 2 <= j /\ p[i + 1] = 45
         THEN (p[i] <= c /\ c <= p[i + 2]) \/ InClass(p, i + 3, j, c)
         ELSE p[i] = c \/ InClass(p, i + 1, j, c)

RECURSIVE GlobFrom(_, _, _, _)
GlobFrom(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE IF p[i] = 42 THEN
        IF i = Len(p) THEN TRUE
        ELSE \E x \in j..(Len(s) + 1) : GlobFrom(p, i + 1, s, x)
    ELSE IF j > Len(s) THEN FALSE
    ELSE IF p[i] = 63 THEN GlobFrom(p, i + 1, s, j + 1)
    ELSE IF p[i] = 91 /\ CloseBracket(p, i) # 0 THEN
        LET e == CloseBracket(p, i)
            neg == p[i + 1] = 33
            m == InClass(p, IF neg THEN i + 2 ELSE i + 1, e - 1, s[j])
        IN  (m # neg) /\ GlobFrom(p, e + 1, s, j + 1)
    ELSE p[i] = s[j] /\ GlobFrom(p, i + 1, s, j + 1)

Glob(p, s) == GlobFrom(p, 1, s, 1)

DotValue == <<46, 118, 97, 108, 117, 101>>      \* ".value"
EndsWith(q, x) == Len(q) >= Len(x) /\ SubSeq(q, Len(q) - Len(x) + 1, Len(q)) = x

\* For control sources the ".value" suffix of a key may be left out of the
\* pattern, unless the pattern ends with ".value" or "*".
KeyGlob(p, name, cat) ==
    \/ Glob(p, name)
    \/ /\ cat = "C"
       /\ ~ EndsWith(p, DotValue) /\ ~ EndsWith(p, <<42>>)
       /\ EndsWith(name, DotValue)
       /\ Glob(p, SubSeq(name, 1, Len(name) - 6))
=============================================================================
