-------------------------------- MODULE Listing --------------------------------
(***************************************************************************)
(* What a summary of a directory tree should say.                          *)
(*                                                                         *)
(* A node is [k |-> "dir", name, kids] or [k |-> "file", name, data];      *)
(* names are sequences of character codes.  data: [ok, tids, C, I, det]:   *)
(* train ids, control and instrument sources, and about the images of a    *)
(* detector module [fpt, dims, tot], if any (a sequence of at most one).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Elems(q) == {q[i] : i \in 1..Len(q)}
IsDigit(c) == c \in 48..57
IsUpper(c) == c \in 65..90
EndsIn(s, t) == Len(s) >= Len(t) /\ SubSeq(s, Len(s) - Len(t) + 1, Len(s)) = t

DotH5 == <<46, 104, 53>>
IsData(name) == EndsIn(name, DotH5)
IsRunName(name) == Len(name) >= 2 /\ name[1] = 114 /\ IsDigit(name[2])

\* a segment of a series of files: XXX-S00012.h5; the XXX tell series apart
SegAt(name) == {i \in 2..Len(name) - 5 :
                  /\ name[i] = 45 /\ name[i + 1] = 83
                  /\ \A j \in i + 2..Len(name) - 3 : IsDigit(name[j])}
IsSegment(name) == IsData(name) /\ SegAt(name) # {}
Series(name) == SubSeq(name, 1, Max(SegAt(name)) - 1)

\* RAW-R0012-AGIPD03-S00000.h5: the third part tells what is inside
Dashes(name) == {i \in 1..Len(name) - 3 : name[i] = 45}
Part3(name) == LET d == SetToSortSeq(Dashes(name), LAMBDA a, b : a < b) IN SubSeq(name, d[2] + 1, d[3] - 1)
Detectors == {<<65, 71, 73, 80, 68>>, <<68, 83, 83, 67>>, <<76, 80, 68>>}
IsDetName(name) ==
    /\ Cardinality(Dashes(name)) = 3
    /\ LET p == Part3(name) IN
       \E d \in Detectors : /\ Len(p) > Len(d) /\ SubSeq(p, 1, Len(d)) = d
                            /\ \A i \in Len(d) + 1..Len(p) : IsDigit(p[i])

Files(dir) == {f \in Elems(dir.kids) : f.k = "file"}
Segments(dir) == {f \in Files(dir) : IsSegment(f.name)}
AllSeries(dir) == {Series(f.name) : f \in Segments(dir)}
Of(dir, s) == {f \in Segments(dir) : Series(f.name) = s}
TrainsIn(fs) == UNION {Elems(f.data.tids) : f \in fs}

\* All series of a run have the same trains; if not, those of any series may be given
TrainCounts(dir) == {Cardinality(TrainsIn(Of(dir, s))) : s \in AllSeries(dir)}
DetFiles(dir) == Cardinality({f \in Segments(dir) : IsDetName(f.name)})
OtherFiles(dir) == Cardinality(Segments(dir)) - DetFiles(dir)
=============================================================================
