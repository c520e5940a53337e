------------------------------- MODULE MCListing -------------------------------
(***************************************************************************)
(* Data acquisition writes the trains of a run to several series of files, *)
(* each of which is continued in another segment at any time.  A summary   *)
(* taken afterwards says how many trains there were.                       *)
(***************************************************************************)
EXTENDS Listing, TLC
CONSTANTS Design, MaxT, MaxSeg

\* "RAW-R1-LPD0-S0000n.h5", "RAW-R1-DA1-S0000n.h5", "RAW-R1-LPD1CTRL-S0000n.h5"
Pre == <<82, 65, 87, 45, 82, 49, 45>>
Parts == {<<76, 80, 68, 48>>, <<68, 65, 49>>, <<76, 80, 68, 49, 67, 84, 82, 76>>}
Name(p, n) == Pre \o p \o <<45, 83, 48, 48, 48, 48, 48 + n>> \o DotH5
File(p, n, ts) == [k |-> "file", name |-> Name(p, n), data |-> [tids |-> ts]]

VARIABLES segs, done, said
vars == <<segs, done, said>>
Init == segs = [p \in Parts |-> <<<<>>>>] /\ done = 0 /\ said = [none |-> TRUE]

Train == /\ done < MaxT /\ "none" \in DOMAIN said
         /\ done' = done + 1
         /\ segs' = [p \in Parts |-> [segs[p] EXCEPT ![Len(segs[p])] = Append(@, done + 1)]]
         /\ UNCHANGED said
Roll(p) == /\ Len(segs[p]) < MaxSeg /\ "none" \in DOMAIN said
           /\ segs' = [segs EXCEPT ![p] = Append(@, <<>>)]
           /\ UNCHANGED <<done, said>>

Dir == [k |-> "dir", name |-> <<114, 49>>,
        kids |-> SetToSeq({File(p, n - 1, segs[p][n]) : <<p, n>> \in {<<p, n>> \in Parts \X (1..MaxSeg) : n <= Len(segs[p])}})]
Say == /\ "none" \in DOMAIN said
       /\ \E s \in AllSeries(Dir) :
            LET fs == Of(Dir, s)
                one == CHOOSE f \in fs : TRUE
            IN  said' = [n |-> IF Design = "one_segment" THEN Cardinality(Elems(one.data.tids))
                               ELSE IF Design = "every_series" THEN
                                    FoldSet(LAMBDA f, acc : acc + Len(f.data.tids), 0, Segments(Dir))
                               ELSE Cardinality(TrainsIn(fs)),
                         det |-> IF Design = "prefix" THEN Cardinality({f \in Segments(Dir) : SubSeq(f.name, 8, 10) = <<76, 80, 68>>})
                                 ELSE DetFiles(Dir),
                         oth |-> OtherFiles(Dir)]
       /\ UNCHANGED <<segs, done>>
Next == Train \/ (\E p \in Parts : Roll(p)) \/ Say
Spec == Init /\ [][Next]_vars

True == "n" \in DOMAIN said =>
          /\ said.n = done
          /\ said.det = Len(segs[<<76, 80, 68, 48>>])
          /\ said.oth = Len(segs[<<68, 65, 49>>]) + Len(segs[<<76, 80, 68, 49, 67, 84, 82, 76>>])
=============================================================================
