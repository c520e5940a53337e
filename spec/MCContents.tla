------------------------------ MODULE MCContents -------------------------------
(* Walks over all small files, listing datasets on the way. *)
EXTENDS Contents, TLC, Json
CONSTANTS Design, Size, Emit
VARIABLES N, todo, rows, done
vars == <<N, todo, rows, done>>

Names == {<<97>>, <<97, 33>>, <<98>>}
Node(p, m, k) == [p |-> p, name |-> m, k |-> k, shape |-> <<>>, dt |-> "x"]
Free(p, m) == ~ \E i \in 1..Len(N) : N[i].p = p /\ N[i].name = m
Parents == {0} \cup {i \in 1..Len(N) : N[i].k = "g"}

Insert(q, i) ==      \* keep the rows in order of their paths
    LET before == SelectSeq(q, LAMBDA j : Less(Path(N, j), Path(N, i)))
        after == SelectSeq(q, LAMBDA j : ~ Less(Path(N, j), Path(N, i)))
    IN  before \o <<i>> \o after

Init == N = <<>> /\ todo = <<-1>> /\ rows = <<>> /\ done = FALSE
Grow == /\ todo = <<-1>> /\ Len(N) < Size
        /\ \E p \in Parents, m \in Names, k \in {"g", "d"} :
               /\ Free(p, m)
               \* one order of making the nodes is enough
               /\ (Len(N) > 0 => N[Len(N)].p < p \/ (N[Len(N)].p = p /\ Less(N[Len(N)].name, m)))
               /\ N' = Append(N, Node(p, m, k))
        /\ UNCHANGED <<todo, rows, done>>
Begin == todo = <<-1>> /\ todo' = Children(N, 0) /\ UNCHANGED <<N, rows, done>>
Visit ==
    /\ Len(todo) > 0 /\ todo # <<-1>>
    /\ LET i == todo[1] IN
       IF N[i].k = "d"
       THEN /\ rows' = IF Design = "unsorted" THEN Append(rows, i) ELSE Insert(rows, i)
            /\ todo' = Tail(todo)
       ELSE /\ rows' = IF Design = "groups" /\ Children(N, i) = <<>> THEN Insert(rows, i) ELSE rows
            /\ todo' = (IF Design = "shallow" /\ N[i].p # 0 THEN <<>> ELSE Children(N, i)) \o Tail(todo)
    /\ UNCHANGED <<N, done>>
End == todo = <<>> /\ ~ done /\ done' = TRUE /\ UNCHANGED <<N, todo, rows>>
Next == Grow \/ Begin \/ Visit \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Visit \/ End)

Row(i) == [path |-> Path(N, i), shape |-> N[i].shape, dt |-> N[i].dt]
Whole == done => [i \in 1..Len(rows) |-> Row(rows[i])] = Index(N)
\* the outline has every element once, each after the group it is in
Outlined ==
    done => LET o == Outline(N, 0, 0, 100) IN
            /\ Len(o) = Len(N) /\ Squash(o) = o
            /\ \A j \in 1..Len(o) : o[j].depth > 0 => j > 1 /\ o[j].depth <= o[j - 1].depth + 1
Ends == <>done
Out == (Emit /\ done /\ N # <<>>) => PrintT("@H@" \o ToJson(N) \o "@")
=============================================================================
