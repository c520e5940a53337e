------------------------------ MODULE MCProposals ------------------------------
(***************************************************************************)
(* Opening a run takes a search for the proposal and then a look into it,  *)
(* while others make and remove directories.                               *)
(***************************************************************************)
EXTENDS Proposals, TLC, Json
CONSTANTS Design, Depth, Emit

Places == {1, 2}
Numbers == {12, 120}              \* p000012, p000120: easily mixed up
Kinds == {"raw", "proc"}
Runs == {1, 10}
PN(n) == PropName([k |-> "int", v |-> n])
RN(n) == RunName([k |-> "int", v |-> n])
Dir == [prop : [at : Places, name : {PN(n) : n \in Numbers}], kind : Kinds, run : {RN(n) : n \in Runs}]

VARIABLES dirs, pc, ask, found, got, memo, hist
vars == <<dirs, pc, ask, found, got, memo, hist>>
None == [none |-> TRUE]

Init == dirs = {} /\ pc = "idle" /\ ask = None /\ found = {} /\ got = None /\ memo = {} /\ hist = <<>>

H(x) == hist' = Append(hist, x)
\* a proposal is kept at one place at a time
Make(d) == /\ d \notin dirs
           /\ \A x \in dirs : x.prop.name = d.prop.name => x.prop = d.prop
           /\ dirs' = dirs \cup {d} /\ H([op |-> "make", d |-> d])
           /\ UNCHANGED <<pc, ask, found, got, memo>>
Remove(d) == dirs' = dirs \ {d} /\ H([op |-> "remove", d |-> d]) /\ UNCHANGED <<pc, ask, found, got, memo>>

Contains(a, b) == \E i \in 0..Len(b) - Len(a) : \A j \in 1..Len(a) : b[i + j] = a[j]
Short(n) == <<112>> \o Digits(n)
Search(n, k, r) ==
    /\ pc = "idle"
    /\ LET match(name) == IF Design = "contained" THEN Contains(Digits(n), name)
                          ELSE IF Design = "unpadded" THEN name = Short(n) ELSE name = PN(n)
           here == {d.prop : d \in {x \in dirs : match(x.prop.name)}}
           old == {p \in memo : p.name = PN(n)}
       IN  \E p \in (IF Design = "remembered" /\ old # {} THEN old ELSE IF here = {} THEN {None} ELSE here) :
             /\ found' = p
             /\ memo' = IF p # None THEN memo \cup {p} ELSE memo
    /\ pc' = "open" /\ ask' = [p |-> n, k |-> k, r |-> r] /\ got' = None
    /\ H([op |-> "ask", p |-> n, k |-> k, r |-> r])
    /\ UNCHANGED dirs

Open ==
    /\ pc = "open"
    /\ LET s == {d \in dirs : d.prop = found /\ d.kind = ask.k /\ d.run = RN(ask.r)}
           t == IF s = {} /\ Design = "other_kind" THEN {d \in dirs : d.prop = found /\ d.run = RN(ask.r)} ELSE s
       IN  got' = IF t = {} THEN [err |-> TRUE] ELSE CHOOSE d \in t : TRUE
    /\ pc' = "idle"
    /\ UNCHANGED <<dirs, ask, found, memo, hist>>

Next == /\ Len(hist) < Depth \/ pc = "open"
        /\ \/ \E d \in Dir : Len(hist) < Depth /\ Make(d)
           \/ \E d \in dirs : Len(hist) < Depth /\ Remove(d)
           \/ Len(hist) < Depth /\ \E n \in Numbers, k \in Kinds, r \in Runs : Search(n, k, r)
           \/ Open
Spec == Init /\ [][Next]_vars
Seen == <<dirs, pc, ask, found, got, memo, Len(hist)>>

Right == "prop" \in DOMAIN got =>
             got.prop.name = PN(ask.p) /\ got.kind = ask.k /\ got.run = RN(ask.r)
\* what has been there all the time is found
Finds == [][LET m(ds) == Meant(ds, PN(ask.p), ask.k, RN(ask.r)) IN
            pc = "open" /\ pc' = "idle" /\ m(dirs) # {} /\ hist[Len(hist)].op = "ask" => got' \in m(dirs)]_vars
Out == (Emit /\ Len(hist) = Depth /\ hist[Depth].op = "ask" /\ pc = "open") => PrintT("@H@" \o ToJson(hist) \o "@")
=============================================================================
