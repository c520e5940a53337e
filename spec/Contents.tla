------------------------------- MODULE Contents --------------------------------
(***************************************************************************)
(* What an HDF5 file holds, and how it is listed.  A file is a sequence N  *)
(* of nodes [p, name, k, shape, dt]: the parent (0: the file itself; any   *)
(* other is an earlier node), the name as character codes, "g" for a group *)
(* and "d" for a dataset, and for datasets the shape and the type.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* order of names and paths: by character, a prefix before the longer one
RECURSIVE Less(_, _)
Less(a, b) ==
    IF b = <<>> THEN FALSE
    ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1] # b[1] THEN a[1] < b[1]
    ELSE Less(Tail(a), Tail(b))

Sep == 47
RECURSIVE Path(_, _)
Path(N, i) == IF N[i].p = 0 THEN N[i].name ELSE Path(N, N[i].p) \o <<Sep>> \o N[i].name

Children(N, i) ==
    SetToSortSeq({j \in 1..Len(N) : N[j].p = i}, LAMBDA a, b : Less(N[a].name, N[b].name))

(* the index: one row for each dataset, by path *)
Datasets(N) == {i \in 1..Len(N) : N[i].k = "d"}
Index(N) ==
    LET q == SetToSortSeq(Datasets(N), LAMBDA a, b : Less(Path(N, a), Path(N, b)))
    IN  [i \in 1..Len(q) |-> [path |-> Path(N, q[i]), shape |-> N[q[i]].shape, dt |-> N[q[i]].dt]]

(* the outline: the elements of each group below it, the first max of them *)
RECURSIVE Outline(_, _, _, _)
Outline(N, i, depth, max) ==
    LET c == Children(N, i)
        n == IF Len(c) < max THEN Len(c) ELSE max
        line(j) == <<[depth |-> depth, name |-> N[c[j]].name]>>
                   \o IF N[c[j]].k = "g" THEN Outline(N, c[j], depth + 1, max) ELSE <<>>
    IN  FoldSeq(LAMBDA x, acc : acc \o x, <<>>, [j \in 1..n |-> line(j)])

\* a line may be printed twice in a row
RECURSIVE Squash(_)
Squash(q) == IF Len(q) < 2 THEN q
             ELSE IF q[1] = q[2] THEN Squash(Tail(q))
             ELSE <<q[1]>> \o Squash(Tail(q))

(***************************************************************************)
(* A frame taken out of a stack of n.  Frames are counted from 0, or from  *)
(* the end by negative numbers.                                            *)
(***************************************************************************)
HasFrame(n, i) == -n <= i /\ i < n
FrameNo(n, i) == IF i < 0 THEN i + n ELSE i
\* pixels of frame i: element e has the value (b + a * e) % m, counted over the whole stack
Pixels(st, i) ==
    LET sz == st.h * st.w
    IN  [e \in 1..sz |-> (st.b + st.a * (FrameNo(st.n, i) * sz + e - 1)) % st.m]
=============================================================================
