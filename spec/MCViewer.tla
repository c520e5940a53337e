------------------------------- MODULE MCViewer -------------------------------
EXTENDS Viewer, TLC, Json
CONSTANTS Design, Depth, Emit, MaxN
VARIABLES s, hist, moved
vars == <<s, hist, moved>>

Events == {[op |-> "give", d |-> 1, n |-> n, ok |-> 1] : n \in 1..MaxN}
          \cup {[op |-> "give", d |-> 1, n |-> 1, ok |-> 0], [op |-> "next"], [op |-> "prev"]}
          \cup {[op |-> "jump", i |-> i] : i \in -1..MaxN}

Result(e) ==
    LET r == Do(s, e).s IN
    CASE Design = "past_end" /\ e.op = "next" /\ s.d # 0 /\ s.pos < s.n -> At(s, s.pos + 1)
      [] Design = "jump_unseen" /\ e.op = "jump" -> [r EXCEPT !.si = s.si]
      [] Design = "keep_cursor" /\ e.op = "give" /\ e.ok = 1 -> [r EXCEPT !.pos = s.pos]
      [] Design = "keep_image" /\ e.op = "give" /\ e.ok = 1 /\ s.d # 0 -> [r EXCEPT !.sd = s.sd]
      [] OTHER -> r

Init == s = Blank /\ hist = <<>> /\ moved = FALSE
Step(e) ==
    LET d == IF e.op = "give" /\ e.ok = 1 THEN [e EXCEPT !.d = s.d + 1] ELSE e
        r == IF d # e /\ Design # "keep_image" THEN Give(s, d.d, d.n) ELSE Result(d)
    IN  /\ s' = IF Design = "keep_cursor" /\ d # e THEN [r EXCEPT !.pos = s.pos] ELSE r
        /\ moved' = (e.op # "show")
        /\ hist' = Append(hist, d)
Shows == {[op |-> "show", i |-> i] : i \in 0..s.n - 1}
Next == /\ Len(hist) < Depth
        /\ \E e \in (IF s.d = 0 THEN {x \in Events : x.op = "give"} ELSE Events \cup Shows) : Step(e)
Spec == Init /\ [][Next]_vars

Seen == <<s, moved, Len(hist)>>
Sound == Valid(s)
\* unless the last thing was to look at another frame, or nothing could be done
Follows == [][(\E e \in {hist'[Len(hist')]} : e.op # "show" /\ s'.pos # s.pos) => s'.si = s'.pos]_vars
Out == (Emit /\ Len(hist) = Depth) => PrintT("@H@" \o ToJson(hist) \o "@")
=============================================================================
