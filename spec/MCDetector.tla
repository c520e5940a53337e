------------------------------ MODULE MCDetector ------------------------------
(***************************************************************************)
(* The algorithms which put frames in their place, explored for every      *)
(* pattern of modules missing trains or frames:                            *)
(*  - reading a module in chunks of consecutive trains of a file           *)
(*  - mapping chunks into the CXI layout (one region at a time)            *)
(* A pattern says for each module and train whether the train is absent    *)
(* from the module's file (0), has no frames (1) or frames (2), and after  *)
(* which train the module's first file ends.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC, Json
CONSTANTS M, Ids, Fpt, MinMod, Mutant, Emit
VARIABLE pat       \* [has: module -> position -> 0..2, cut: module -> position]
vars == <<pat>>

T == Len(Ids)      \* train ids (the gaps between them matter)
IdsA == <<1, 2, 4, 5>>     \* values for Ids
IdsB == <<1, 2, 4>>
Init == \E h \in [1..M -> [1..T -> 0..2]], c \in [1..M -> 0..T] :
            pat = [has |-> h, cut |-> c]
Next == UNCHANGED pat
Spec == Init /\ [][Next]_vars

Concat(qq) == FoldSeq(LAMBDA x, acc : acc \o x, <<>>, qq)
SelTrains == SelectSeq([i \in 1..T |-> i],
                       LAMBDA i : Cardinality({m \in 1..M : pat.has[m][i] = 2}) >= MinMod)
Sel(i) == \E j \in 1..Len(SelTrains) : SelTrains[j] = i

\* the files of module m: sequences of positions into Ids
FilesOf(m) == << SelectSeq([i \in 1..T |-> i], LAMBDA i : i <= pat.cut[m] /\ pat.has[m][i] # 0),
                 SelectSeq([i \in 1..T |-> i], LAMBDA i : i > pat.cut[m] /\ pat.has[m][i] # 0) >>
Cnt(m, i) == IF pat.has[m][i] = 2 THEN Fpt ELSE 0
First(m, f, j) == FoldSeq(LAMBDA i, a : a + Cnt(m, i), 0, SubSeq(f, 1, j - 1))

\* maximal runs of positions in file f of selected trains: <<from, to>>
RECURSIVE RunsFrom(_, _)
RunsFrom(f, j) ==
    IF j > Len(f) THEN <<>>
    ELSE IF ~ Sel(f[j]) THEN RunsFrom(f, j + 1)
    ELSE LET stop == {x \in j..Len(f) : ~ Sel(f[x])} \cup {Len(f) + 1}
             e == Min(stop)
         IN  <<<<j, e - 1>>>> \o RunsFrom(f, e)

\* a chunk: rows lo.. and a label per row; rows are identified by [m, file, row]
Chunk(m, fi, run) ==
    LET f == FilesOf(m)[fi]
    IN  [m |-> m, f |-> fi, lo |-> First(m, f, run[1]),
         lab |-> IF Mutant = "arange_labels"
                 THEN \* labels made from the first and last train id
                      LET ids == [x \in 1..(Ids[f[run[2]]] - Ids[f[run[1]]] + 1) |-> Ids[f[run[1]]] + x - 1]
                      IN  Concat([x \in 1..(run[2] - run[1] + 1) |->
                                    [z \in 1..Cnt(m, f[run[1] + x - 1]) |-> ids[x]]])
                 ELSE Concat([x \in 1..(run[2] - run[1] + 1) |->
                                [z \in 1..Cnt(m, f[run[1] + x - 1]) |-> Ids[f[run[1] + x - 1]]]])]
ChunksOf(m) ==
    Concat([fi \in 1..2 |->
              LET f == FilesOf(m)[fi] r == RunsFrom(f, 1)
              IN  [x \in 1..Len(r) |-> Chunk(m, fi, r[x])]])

\* what is really in row (0-based) of a file
Truth(m, fi, row) ==
    LET f == FilesOf(m)[fi]
        j == CHOOSE j \in 1..Len(f) : First(m, f, j) <= row /\ row < First(m, f, j) + Cnt(m, f[j])
    IN  <<Ids[f[j]], row - First(m, f, j) + 1>>

Labelled == \A m \in 1..M : LET cs == ChunksOf(m) IN \A x \in 1..Len(cs) :
                \A z \in 1..Len(cs[x].lab) :
                    cs[x].lab[z] = Truth(m, cs[x].f, cs[x].lo + z - 1)[1]
AllRead == \A m \in 1..M : LET cs == ChunksOf(m) IN
    FoldSeq(LAMBDA c, a : a + Len(c.lab), 0, cs)
        = FoldSeq(LAMBDA i, a : a + Cnt(m, i), 0, SelTrains)

(*********************** mapping chunks into the CXI layout ****************)
PerFrame == Concat([j \in 1..Len(SelTrains) |-> [x \in 1..Fpt |-> Ids[SelTrains[j]]]])
Pos(id) == Fpt * ((CHOOSE j \in 1..Len(SelTrains) : Ids[SelTrains[j]] = id) - 1)

RECURSIVE MapFrom(_, _, _)
\* set of <<entry (0-based), file, row>> for the labels lab starting at row
MapFrom(c, lab, row) ==
    IF Len(lab) = 0 THEN {}
    ELSE LET at == Pos(lab[1])
             mis == {i \in 1..Len(lab) : at + i > Len(PerFrame) \/ PerFrame[at + i] # lab[i]}
             n == IF mis = {} \/ Mutant = "one_region" THEN Len(lab) ELSE Min(mis) - 1
         IN  {<<at + i - 1, c.f, row + i - 1>> : i \in 1..n}
             \cup MapFrom(c, SubSeq(lab, n + 1, Len(lab)),
                          IF Mutant = "restart" THEN c.lo ELSE row + n)
Mapped(m) == LET cs == ChunksOf(m) IN UNION {MapFrom(cs[x], cs[x].lab, cs[x].lo) : x \in 1..Len(cs)}

CXIPlaced ==
    \A m \in 1..M :
        LET A == Mapped(m) IN
        /\ \A a \in A : LET t == Truth(m, a[2], a[3]) IN
              /\ a[1] < Len(PerFrame)
              /\ PerFrame[a[1] + 1] = t[1] /\ a[1] - Pos(t[1]) + 1 = t[2]
        /\ Cardinality({a[1] : a \in A}) = Cardinality(A)
        /\ Cardinality(A) = FoldSeq(LAMBDA i, s : s + Cnt(m, i), 0, SelTrains)

Printed == ~ Emit \/ PrintT("@H@" \o ToJson(pat) \o "@")
=============================================================================
