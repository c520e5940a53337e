------------------------------- MODULE Proposals -------------------------------
(***************************************************************************)
(* Where runs are kept:  instrument / cycle / proposal / kind / run.       *)
(* Names are sequences of character codes.  A person asks for a proposal   *)
(* and a run by number or by name.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))

Padded(q, w) == IF Len(q) >= w THEN q ELSE [i \in 1..w |-> IF i <= w - Len(q) THEN 48 ELSE q[i - (w - Len(q))]]

\* x: [k |-> "int", v |-> number] or [k |-> "str", c |-> codes]
NameOf(x, letter, width) ==
    IF x.k = "int" THEN <<letter>> \o Padded(Digits(x.v), width)
    ELSE IF Len(x.c) > 0 /\ x.c[1] = letter THEN x.c
    ELSE <<letter>> \o Padded(x.c, width)

PropName(x) == NameOf(x, 112, 6)       \* p002012
RunName(x) == NameOf(x, 114, 4)        \* r0045

\* run directories: records [prop, kind, run, id], prop = [at, name]
\* those which are what was asked for
Meant(dirs, propname, kind, runname) ==
    {d \in dirs : d.prop.name = propname /\ d.kind = kind /\ d.run = runname}
=============================================================================
