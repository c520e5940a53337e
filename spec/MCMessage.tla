------------------------------- MODULE MCMessage -------------------------------
(***************************************************************************)
(* Decoding what was encoded gives the data back, for all data over a      *)
(* small universe; and for broken ways of encoding it does not.            *)
(***************************************************************************)
EXTENDS Message, TLC

CONSTANT Design

Sources == {"a", "b"}
Keys == {"x", "y"}
Values == {[k |-> "one", v |-> "1"], [k |-> "one", v |-> "2"],
           [k |-> "arr", dt |-> "i4", sh |-> <<1>>, by |-> "00"],
           [k |-> "arr", dt |-> "u1", sh |-> <<2>>, by |-> "01"]}
Maps(D, V) == UNION {[K -> V] : K \in SUBSET D}
Datas == Maps(Sources, Maps(Keys, Values))
Metas(S) == [S -> Maps({"t"}, {1, 2})]

VARIABLES data, meta, out
vars == <<data, meta, out>>

\* mutants of the encoder, working on a correct sequence of frames
Break(q) ==
    CASE Design = "meta_of_first" ->
            [i \in 1..Len(q) |-> IF q[i].content = "msgpack" THEN [q[i] EXCEPT !.meta = q[1].meta] ELSE q[i]]
      [] Design = "arrays_kept" ->
            \* the arrays of the first source are sent for the second as well
            LET second == {i \in 2..Len(q) : q[i].content = "msgpack"}
            IN  IF second = {} THEN q
                ELSE q \o [i \in 1..Cardinality({j \in 1..Len(q) : q[j].content = "array" /\ q[j].source = q[1].source})
                             |-> [q[1 + i] EXCEPT !.source = q[CHOOSE j \in second : TRUE].source]]
      [] Design = "arrays_first" ->
            SelectSeq(q, LAMBDA f : f.content = "array") \o SelectSeq(q, LAMBDA f : f.content # "array")
      [] OTHER -> q

Init == data \in Datas /\ meta \in Metas(DOMAIN data) /\ out = <<>>
Next == out = <<>> /\ out' = <<Decode(Break(Enc(data, meta, DOMAIN data)))>> /\ UNCHANGED <<data, meta>>
Spec == Init /\ [][Next]_vars

RoundTrip == out # <<>> => out[1].ok /\ out[1].data = data /\ out[1].meta = meta
=============================================================================
