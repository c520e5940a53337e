----------------------------- MODULE Collections -----------------------------
(***************************************************************************)
(* A collection of data: which files it draws on, which keys of which      *)
(* sources are selected, and which trains.                                 *)
(*   [fs |-> set of file indices, sel |-> [source -> set of keys],         *)
(*    tids |-> ascending sequence of train ids, own |-> opened directly]   *)
(* Every operation makes a new collection; none changes an existing one.   *)
(***************************************************************************)
EXTENDS EuXFEL

FilesConflict(D, F, fs, srcs) ==
    \E s \in srcs : \E f, g \in fs :
        f # g /\ HasSrc(F[f], s) /\ HasSrc(F[g], s)
        /\ Rng(F[f].tids) \cap Rng(F[g].tids) # {}

AllTids(F, fs) == UNION {Rng(F[f].tids) : f \in fs}

OpenColl(D, F, fs) ==
    LET srcs == {s \in Sources(D) : FilesWith(F, fs, s) # {}}
    IN  [fs |-> fs, sel |-> [s \in srcs |-> KeysOf(D, s)],
         tids |-> SortedInts(AllTids(F, fs)), own |-> TRUE]

\* sources which can be used: selected, and some file of the collection has them
Visible(D, F, c) == {s \in DOMAIN c.sel : FilesWith(F, c.fs, s) # {}}

(***************************** Selecting ***********************************)
\* which keys does one (source pattern, key pattern) pair pick?
GlobSel(D, F, c, sp, kp) ==
    LET srcs == {s \in Visible(D, F, c) : Glob(sp, D[s].c)}
        keys(s) == IF kp = <<42>> THEN c.sel[s]
                   ELSE {k \in c.sel[s] : KeyGlob(kp, D[s].keys[k].c, D[s].cat)}
        hit == {s \in srcs : kp = <<42>> \/ keys(s) # {}}
    IN  [s \in hit |-> keys(s)]

MergeSel(sels) ==   \* a sequence of selections
    LET dom == UNION {DOMAIN sels[i] : i \in 1..Len(sels)}
    IN  [s \in dom |-> UNION {sels[i][s] : i \in {j \in 1..Len(sels) : s \in DOMAIN sels[j]}}]

DropEmpty(sel) == [s \in {x \in DOMAIN sel : sel[x] # {}} |-> sel[s]]

RestrictTo(D, F, c, sel) ==
    [c EXCEPT !.sel = sel, !.own = FALSE,
              !.fs = {f \in c.fs : \E s \in DOMAIN sel : HasSrc(F[f], s)}]

Subtract(sel, minus) ==
    LET keep(s) == IF s \in DOMAIN minus THEN sel[s] \ minus[s] ELSE sel[s]
    IN  [s \in {x \in DOMAIN sel : keep(x) # {}} |-> keep(s)]

(************************** Selecting trains *******************************)
\* the slots of an already resolved python slice: start, stop, step (>= 1)
RECURSIVE EveryNth(_, _, _)
EveryNth(q, i, step) == IF i > Len(q) THEN <<>>
                        ELSE <<q[i]>> \o EveryNth(q, i + step, step)

ClampIx(n, v) == IF v < 0 THEN (IF n + v < 0 THEN 0 ELSE n + v)
                 ELSE (IF v > n THEN n ELSE v)

NONE == -999999

ByIndexSlice(tids, a, b, st) ==
    LET n  == Len(tids)
        lo == IF a = NONE THEN 0 ELSE ClampIx(n, a)
        hi == IF b = NONE THEN n ELSE ClampIx(n, b)
    IN  EveryNth(SubSeq(tids, lo + 1, hi), 1, IF st = NONE THEN 1 ELSE st)

ByIdSlice(tids, a, b, st) ==
    EveryNth(SelectSeq(tids, LAMBDA t : (a = NONE \/ t >= a) /\ (b = NONE \/ t < b)),
             1, IF st = NONE THEN 1 ELSE st)

\* must a slice by id raise ValueError?  must it not?
ByIdMustFail(tids, a, b) ==
    Len(tids) > 0 /\ (\/ a # NONE /\ a > tids[Len(tids)]
                      \/ b # NONE /\ b < tids[1])
ByIdMayFail(tids, a, b) ==
    (a # NONE \/ b # NONE) /\ Len(ByIdSlice(tids, a, b, NONE)) = 0

ByIdList(tids, L) == SelectSeq(tids, LAMBDA t : t \in L)

ByIndexList(tids, L) ==   \* L: set of python indices, all in range
    SortedInts({tids[IF i < 0 THEN Len(tids) + i + 1 ELSE i + 1] : i \in L})
IndexInRange(tids, i) == -Len(tids) <= i /\ i < Len(tids)

WithTrains(D, F, c, tids) ==
    [c EXCEPT !.tids = tids, !.own = FALSE,
              !.fs = {f \in c.fs : Rng(F[f].tids) \cap Rng(tids) # {}}]

(******************************** Union ************************************)
UnionColl(cs) ==   \* sequence of collections
    [fs |-> UNION {cs[i].fs : i \in 1..Len(cs)},
     sel |-> MergeSel([i \in 1..Len(cs) |-> cs[i].sel]),
     tids |-> SortedInts(UNION {Rng(cs[i].tids) : i \in 1..Len(cs)}),
     own |-> FALSE]

(******************************* Reading ***********************************)
\* The file holding source s for train t (at most one: no conflicts)
FileFor(F, c, s, t) ==
    LET S == {f \in FilesWith(F, c.fs, s) : t \in Rng(F[f].tids)}
    IN  IF S = {} THEN 0 ELSE CHOOSE f \in S : TRUE

NEntries(D, F, c, s, k, t) ==
    LET f == FileFor(F, c, s, t)
    IN  IF f = 0 THEN 0 ELSE CountIn(D, F[f], s, k, t)

\* flat values of all entries of one train
TrainVals(D, F, c, s, k, t) ==
    LET f == FileFor(F, c, s, t)
        rows == RowsIn(D, F[f], s, k, t)
    IN  ConcatMap(LAMBDA r : RowVals(D, F[f], s, k, r), rows)

\* <<file, row>> of every entry in the collection, in train order
Entries(D, F, c, s, k) ==
    ConcatMap(LAMBDA t : LET f == FileFor(F, c, s, t) IN
                 IF f = 0 THEN <<>>
                 ELSE LET rows == RowsIn(D, F[f], s, k, t)
                      IN  [j \in 1..Len(rows) |-> <<t, f, rows[j]>>],
              c.tids)

\* does the train have data for everything selected?
Complete(D, F, c, t) ==
    \A s \in Visible(D, F, c) : \A k \in c.sel[s] : NEntries(D, F, c, s, k, t) > 0

(******************************* Writing ***********************************)
\* the contents of a file to which the collection is copied
Written(D, F, c) ==
    LET vis == Visible(D, F, c)
        grp(s, g) == {k \in c.sel[s] : D[s].keys[k].g = g}
        cnt(s, g) == [i \in 1..Len(c.tids) |->
                        IF grp(s, g) = {} THEN 0
                        ELSE NEntries(D, F, c, s, CHOOSE k \in grp(s, g) : TRUE, c.tids[i])]
        fst(q) == [i \in 1..Len(q) |-> SumSeq(SubSeq(q, 1, i - 1))]
        one(s) == [has |-> 1,
                   idx |-> [g \in 1..D[s].ng |-> [count |-> cnt(s, g), first |-> fst(cnt(s, g))]],
                   keys |-> [k \in 1..Len(D[s].keys) |->
                       [a |-> 0, b |-> 0, m |-> 1, n |-> 0, pad |-> 0,
                        vals |-> IF k \in c.sel[s]
                                 THEN LET E == Entries(D, F, c, s, k) IN
                                      ConcatMap(LAMBDA e : RowVals(D, F[e[2]], s, k, e[3]), E)
                                 ELSE <<>>]]]
    IN  [tids |-> c.tids,
         src |-> [s \in 1..Len(D) |-> IF s \in vis THEN one(s)
                                      ELSE [has |-> 0, idx |-> <<>>, keys |-> <<>>]]]
=============================================================================
