-------------------------------- MODULE Viewer --------------------------------
(***************************************************************************)
(* The viewer of a stack of frames.  d: number of the stack it was given   *)
(* (0: none yet), n: its frames, pos: the cursor, and what is on screen:   *)
(* frame si of stack sd.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Blank == [d |-> 0, n |-> 0, pos |-> 0, sd |-> 0, si |-> 0]

Show(s, i) == [s EXCEPT !.sd = s.d, !.si = i]
At(s, i) == Show([s EXCEPT !.pos = i], i)

\* giving it stack d of n frames
Give(s, d, n) == At([s EXCEPT !.d = d, !.n = n], 0)

Ok(s) == [s |-> s, ref |-> ""]
Refuse(s, x) == [s |-> s, ref |-> x]

\* what each thing a user does leads to
Do(s, e) ==
    CASE e.op = "give" -> IF e.ok = 1 THEN Ok(Give(s, e.d, e.n)) ELSE Refuse(s, "TypeError")
      [] e.op = "next" -> Ok(IF s.pos + 1 < s.n THEN At(s, s.pos + 1) ELSE s)
      [] e.op = "prev" -> Ok(IF s.pos > 0 THEN At(s, s.pos - 1) ELSE s)
      [] e.op = "jump" -> IF e.i \in 0..s.n - 1 THEN Ok(At(s, e.i)) ELSE Refuse(s, "ValueError")
      [] e.op = "show" -> Ok(Show(s, e.i))

Valid(s) == s.d # 0 => /\ s.pos \in 0..s.n - 1
                       /\ s.sd = s.d /\ s.si \in 0..s.n - 1
=============================================================================
