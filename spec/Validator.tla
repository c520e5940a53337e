------------------------------ MODULE Validator ------------------------------
(***************************************************************************)
(* What a sound data file is.                                              *)
(*                                                                         *)
(* A file (as found on disk) has: raw, the train ids with their padding;   *)
(* srcs, the instrument sources it lists, each with                        *)
(*   data   1 if the file has anything stored for the source               *)
(*   groups a sequence of records: form "fc" (first, count), "fls" (first, *)
(*          last, status) or "none" (unreadable); the shapes of the index  *)
(*          datasets; their values (flat); lens, the lengths of the        *)
(*          datasets of the group.                                         *)
(***************************************************************************)
EXTENDS EuXFEL

Tids(f) == SelectSeq(f.raw, LAMBDA t : t # 0)
NTr(f) == Len(Tids(f))

\* zeros only after the last train id; ids strictly increasing
TidsSound(f) ==
    /\ \A i, j \in 1..Len(f.raw) : (f.raw[i] = 0 /\ i < j) => f.raw[j] = 0
    /\ LET t == Tids(f) IN \A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]

Cut(q, n) == SubSeq(q, 1, IF Len(q) < n THEN Len(q) ELSE n)

\* entries per train of a group whose index has the right shape
Counts(g, n) == IF g.form = "fc" THEN Cut(g.count, n)
                ELSE [i \in 1..n |-> IF g.status[i] = 0 THEN 0
                                     ELSE g.last[i] - g.first[i] + 1]

Shaped(g, n) ==
    CASE g.form = "fc"  -> /\ Len(g.shFirst) = 1 /\ Len(g.shCount) = 1
                           /\ Len(g.first) >= n /\ Len(g.count) >= n
      [] g.form = "fls" -> /\ Len(g.shFirst) = 1
                           /\ Len(g.first) >= n /\ Len(g.last) >= n /\ Len(g.status) >= n
      [] OTHER -> FALSE

\* the entries of the trains are consecutive runs of rows, from the first row
\* on, within every dataset.  strict: also where trains without entries point
Contiguous(first, count, lens, strict) ==
    LET n == Len(count)
        before(i) == FoldSeq(LAMBDA x, a : a + x, 0, SubSeq(count, 1, i - 1))
    IN  /\ \A i \in 1..n : count[i] >= 0
        /\ \A i \in 1..n : (strict \/ count[i] > 0) => first[i] = before(i)
        /\ \A i \in 1..n : count[i] > 0 => \A j \in 1..Len(lens) : first[i] + count[i] <= lens[j]
        /\ strict => \A i \in 1..n, j \in 1..Len(lens) : first[i] + count[i] <= lens[j]

GroupSound(g, n, strict) ==
    /\ Shaped(g, n)
    /\ n > 0 => Contiguous(Cut(g.first, n), Counts(g, n), g.lens, strict)

SourceSound(s, n, strict) ==
    /\ s.data = 1
    /\ \A i \in 1..Len(s.groups) : GroupSound(s.groups[i], n, strict)

FileSound(f, strict) ==
    /\ TidsSound(f)
    /\ \A i \in 1..Len(f.srcs) : SourceSound(f.srcs[i], NTr(f), strict)

\* two files of a run which disagree about a source
Conflict(f, g) ==
    \E i \in 1..Len(f.all), j \in 1..Len(g.all) :
        /\ f.all[i].name = g.all[j].name
        /\ \/ f.all[i].cat # g.all[j].cat
           \/ Rng(Tids(f)) \cap Rng(Tids(g)) # {}
=============================================================================
