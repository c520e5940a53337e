----------------------------- MODULE MCValidator -----------------------------
(***************************************************************************)
(* The checks a validator does one by one (start, gaps, overlaps, range)   *)
(* agree with the meaning of an index: every row belongs to at most one    *)
(* train, rows are in train order, nothing is out of range.  All small     *)
(* indexes are enumerated; they are also printed to be put into real files.*)
(***************************************************************************)
EXTENDS Validator, TLC, Json
CONSTANTS N, Top, DataLen, Mutant, Emit
VARIABLE ix        \* [first, count, len]
vars == <<ix>>

Init == \E n \in 1..N : \E f, c \in [1..n -> 0..Top], d \in 0..DataLen :
            ix = [first |-> f, count |-> c, len |-> d]
Next == UNCHANGED ix
Spec == Init /\ [][Next]_vars

\* the local checks
End(i) == ix.first[i] + ix.count[i]
n == Len(ix.count)
StartOk == n = 0 \/ ix.first[1] = 0
NoGap == Mutant = "no_gap_check" \/ \A i \in 1..(n - 1) : ix.first[i + 1] <= End(i)
NoOverlap == Mutant = "no_overlap_check" \/ \A i \in 1..(n - 1) : ix.first[i + 1] >= End(i)
InRange == IF Mutant = "end_minus_one" THEN \A i \in 1..n : End(i) - 1 <= ix.len
           ELSE \A i \in 1..n : End(i) <= ix.len
Checks == StartOk /\ NoGap /\ NoOverlap /\ InRange

Strict == Contiguous(ix.first, ix.count, <<ix.len>>, TRUE)
Lenient == Contiguous(ix.first, ix.count, <<ix.len>>, FALSE)

\* the meaning: rows of train i
Rows(i) == {ix.first[i] + k : k \in 0..(ix.count[i] - 1)}
Meaning ==
    /\ \A i, j \in 1..n : i < j => \A a \in Rows(i), b \in Rows(j) : a < b
    /\ UNION {Rows(i) : i \in 1..n} = {r \in 0..(ix.len - 1) :
            \E i \in 1..n : r <= Max({End(i) - 1} \cup {-1}) /\ ix.count[i] > 0}
LocalChecksSuffice == Checks <=> Strict
StrictIsLenient == Strict => Lenient
LenientMeansSound == Lenient <=> Meaning
Printed == ~Emit \/ PrintT("@H@" \o ToJson(ix) \o "@")
=============================================================================
