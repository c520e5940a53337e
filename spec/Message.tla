------------------------------- MODULE Message --------------------------------
(***************************************************************************)
(* The messages of the streaming protocol, and what a client makes of them.*)
(* Data: source -> [key -> value]; metadata: source -> [key -> value].     *)
(* A value is [k |-> "one", v |-> text] (a number, string, list...: its    *)
(* exact contents as a text) or an array                                   *)
(* [k |-> "arr", dt |-> item type, sh |-> shape, by |-> contents].         *)
(*                                                                         *)
(* 2.2: pairs of frames <<header, payload>>; the first pair of a source    *)
(*      carries its plain values and metadata, each array has a pair after *)
(* 1.0: one frame, with the metadata of a source among its values          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

EmptyMap == [x \in {} |-> 0]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Cut(m, K) == [x \in DOMAIN m \ K |-> m[x]]

(* Encode: how a message is made (some order of sources and keys) *)
Plain(d) == [x \in {y \in DOMAIN d : d[y].k = "one"} |-> d[x]]
Arrays(d) == {y \in DOMAIN d : d[y].k = "arr"}

RECURSIVE EncArrays(_, _, _)
EncArrays(src, d, K) ==
    IF K = {} THEN <<>>
    ELSE LET x == CHOOSE x \in K : TRUE
         IN  <<[source |-> src, content |-> "array", path |-> x, dt |-> d[x].dt, sh |-> d[x].sh,
                pay |-> d[x].by]>> \o EncArrays(src, d, K \ {x})
RECURSIVE Enc(_, _, _)
Enc(data, meta, S) ==
    IF S = {} THEN <<>>
    ELSE LET x == CHOOSE x \in S : TRUE
         IN  <<[source |-> x, content |-> "msgpack", meta |-> meta[x], pay |-> Plain(data[x])]>>
             \o EncArrays(x, data[x], Arrays(data[x])) \o Enc(data, meta, S \ {x})

(* Decode: what a client does, frame by frame *)
RECURSIVE Dec(_, _, _)
Dec(frames, data, meta) ==
    IF frames = <<>> THEN [ok |-> TRUE, data |-> data, meta |-> meta]
    ELSE LET f == Head(frames) IN
         IF f.content = "msgpack"
         THEN IF f.source \in DOMAIN data THEN [ok |-> FALSE]
              ELSE Dec(Tail(frames), Put(data, f.source, f.pay), Put(meta, f.source, f.meta))
         ELSE IF f.content = "array" /\ f.source \in DOMAIN data
         THEN Dec(Tail(frames), Put(data, f.source, Put(data[f.source], f.path,
                    [k |-> "arr", dt |-> f.dt, sh |-> f.sh, by |-> f.pay])), meta)
         ELSE [ok |-> FALSE]
Decode(frames) == Dec(frames, EmptyMap, EmptyMap)

(* dummy timestamps are added to metadata without a timestamp *)
StampKeys == {"timestamp", "timestamp.sec", "timestamp.frac"}
=============================================================================
