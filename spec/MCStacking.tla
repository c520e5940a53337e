------------------------------ MODULE MCStacking -------------------------------
(***************************************************************************)
(* All histories of indexing a lazy stack give the same as an eager one.   *)
(***************************************************************************)
EXTENDS Stacking, TLC, Json

CONSTANTS Design, Depth, Emit
NM == 3
Shapes == {<<2>>, <<2, 3>>, <<0, 2>>}
Fill == -1

Num(m, n) == 10 * (m + 1) + n
Mods(sh, M) == [m \in M |-> [sh |-> sh, v |-> [n \in 1..Prod(sh) |-> Num(m, n)]]]

S(a, b, c) == [k |-> "s", a |-> a, b |-> b, c |-> c]
I(i) == [k |-> "i", i |-> i]
Parts == {I(0), I(1), I(-1), I(-4), All, S(<<>>, <<>>, <<-1>>), S(<<1>>, <<>>, <<>>), [k |-> "e"]}
OneE(ix) == Cardinality({i \in 1..Len(ix) : ix[i].k = "e"}) <= 1
Indices(nd) == {ix \in UNION {[1..n -> Parts] : n \in 1..(IF nd > 2 THEN 2 ELSE nd)} : OneE(ix)}
Supported(f, axis) == f[axis + 1].k = "i" \/ f[axis + 1] = All

VARIABLES w, e, hist
vars == <<w, e, hist>>

\* mutants of the lazy form
Get(f) ==
    LET r == ViewPick(w, f) IN
    IF Design = "axis_kept" /\ r.view
    THEN [r EXCEPT !.w.axis = IF w.axis > Len(r.w.sh) THEN Len(r.w.sh) ELSE w.axis]
    ELSE IF Design = "blank_dropped" /\ ~ r.view /\ f[w.axis + 1].i \notin DOMAIN w.mods
    THEN [r EXCEPT !.a = Blank(w)]
    ELSE r

Init == \E sh \in Shapes, M \in SUBSET (0..NM - 1), axis \in 0..2 :
            /\ M # {} /\ axis <= Len(sh)
            /\ w = View(Mods(sh, M), NM, sh, axis, Fill)
            /\ e = Whole(w)
            /\ hist = [sh |-> sh, mods |-> [i \in 1..NM |-> IF (i - 1) \in M THEN 1 ELSE 0], axis |-> axis,
                       nm |-> NM, ix |-> <<>>]

Index(ix) ==
    LET f == Full(ix, Len(e.sh)) IN
    /\ ~ ManyDims(ix, Len(e.sh))
    /\ Supported(f, w.axis)
    /\ hist' = [hist EXCEPT !.ix = Append(@, ix)]
    /\ IF ~ InRange(f, e.sh) THEN
          IF Design = "wraps_twice" /\ f[w.axis + 1].k = "i" /\ f[w.axis + 1].i < -NM
                /\ InRange([f EXCEPT ![w.axis + 1] = I(0)], e.sh)
          THEN /\ w' = [w EXCEPT !.mods = [m \in DOMAIN w.mods \cup {f[w.axis + 1].i + 2 * NM} |->
                            IF m = f[w.axis + 1].i + 2 * NM THEN Blank(w) ELSE w.mods[m]]]
               /\ UNCHANGED e
          ELSE UNCHANGED <<w, e>>
       ELSE LET r == Get(f) IN
            IF r.view THEN w' = r.w /\ e' = Pick(e, f)
            ELSE /\ Assert(r.a = Pick(e, f), "one module differs")
                 /\ UNCHANGED <<w, e>>
Next == Len(hist.ix) < Depth /\ \E ix \in Indices(Len(e.sh)) : Index(ix)
Spec == Init /\ [][Next]_vars

Seen == <<w, e, Len(hist.ix)>>
Same == Whole(w) = e
Out == (Emit /\ Len(hist.ix) > 0) => PrintT("@H@" \o ToJson(hist) \o "@")
=============================================================================
