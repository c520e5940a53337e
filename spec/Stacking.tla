------------------------------- MODULE Stacking --------------------------------
(***************************************************************************)
(* Stacking data of detector modules, eagerly and lazily.                  *)
(* An array is [sh |-> shape, v |-> values in row-major order].            *)
(* Indexing is a sequence of [k |-> "i", i], [k |-> "s", a, b, c] (a slice *)
(* start:stop:step, each <<>> or <<number>>) and [k |-> "e"] (ellipsis).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

\* the index (from 0) in each dimension of the n-th value (n from 0)
RECURSIVE Unflat(_, _)
Unflat(sh, n) ==
    IF sh = <<>> THEN <<>>
    ELSE LET p == Prod(Tail(sh)) IN <<n \div p>> \o Unflat(Tail(sh), n % p)
RECURSIVE FlatFrom(_, _, _)
FlatFrom(sh, ix, acc) ==
    IF sh = <<>> THEN acc ELSE FlatFrom(Tail(sh), Tail(ix), acc * Head(sh) + Head(ix))
At(a, ix) == a.v[1 + FlatFrom(a.sh, ix, 0)]

InsertAt(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))    \* p from 0
DropAt(s, p) == SubSeq(s, 1, p) \o SubSeq(s, p + 2, Len(s))

(* Stack: mods is a function from module numbers to arrays of shape sh *)
Stack(mods, nm, sh, axis, fill) ==
    LET out == InsertAt(sh, axis, nm)
    IN  [sh |-> out,
         v |-> [n \in 1..Prod(out) |->
                  LET ix == Unflat(out, n - 1)
                      m == ix[axis + 1]
                  IN  IF m \in DOMAIN mods THEN At(mods[m], DropAt(ix, axis)) ELSE fill]]

(* Indexing *)
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* the positions chosen by a slice from a dimension of n (as Python does)
Chosen(s, n) ==
    LET c == IF s.c = <<>> THEN 1 ELSE s.c[1]
        fix(x) == IF x < 0 THEN x + n ELSE x
        a == IF s.a = <<>> THEN (IF c > 0 THEN 0 ELSE n - 1)
             ELSE IF c > 0 THEN Clip(fix(s.a[1]), 0, n) ELSE Clip(fix(s.a[1]), -1, n - 1)
        b == IF s.b = <<>> THEN (IF c > 0 THEN n ELSE -1)
             ELSE IF c > 0 THEN Clip(fix(s.b[1]), 0, n) ELSE Clip(fix(s.b[1]), -1, n - 1)
        cnt == IF c > 0 THEN IF a < b THEN (b - a + c - 1) \div c ELSE 0
               ELSE IF b < a THEN (a - b - c - 1) \div (-c) ELSE 0
    IN  [i \in 1..cnt |-> a + (i - 1) * c]

All == [k |-> "s", a |-> <<>>, b |-> <<>>, c |-> <<>>]
Alls(n) == IF n <= 0 THEN <<>> ELSE [i \in 1..n |-> All]
\* the ellipsis and missing dimensions written out
Full(ix, nd) ==
    LET es == {i \in 1..Len(ix) : ix[i].k = "e"}
    IN  IF es = {} THEN ix \o Alls(nd - Len(ix))
        ELSE LET p == CHOOSE p \in es : TRUE
             IN  SubSeq(ix, 1, p - 1) \o Alls(nd - Len(ix) + 1) \o SubSeq(ix, p + 1, Len(ix))
ManyDims(ix, nd) == Cardinality({i \in 1..Len(ix) : ix[i].k # "e"}) > nd

InRange(f, sh) == \A d \in 1..Len(sh) : f[d].k = "i" => f[d].i >= -sh[d] /\ f[d].i < sh[d]

\* the array chosen by a full index which is in range
Pick(a, f) ==
    LET pos == [d \in 1..Len(a.sh) |->
                  IF f[d].k = "i" THEN <<IF f[d].i < 0 THEN f[d].i + a.sh[d] ELSE f[d].i>>
                  ELSE Chosen(f[d], a.sh[d])]
        all == [d \in 1..Len(a.sh) |-> Len(pos[d])]
        kept == SelectSeq([d \in 1..Len(a.sh) |-> d], LAMBDA d : f[d].k # "i")
    IN  [sh |-> [i \in 1..Len(kept) |-> Len(pos[kept[i]])],
         v |-> [n \in 1..Prod(all) |->
                  LET ix == Unflat(all, n - 1)
                  IN  At(a, [d \in 1..Len(a.sh) |-> pos[d][ix[d] + 1]])]]

\* where the stacking axis is after indexing which keeps it
NewAxis(f, axis) == axis - Cardinality({d \in 1..axis : f[d].k = "i"})

(***************************************************************************)
(* The lazy form: module arrays are kept apart until they are needed       *)
(***************************************************************************)
View(mods, nm, sh, axis, fill) == [mods |-> mods, nm |-> nm, sh |-> sh, axis |-> axis, fill |-> fill]
Whole(w) == Stack(w.mods, w.nm, w.sh, w.axis, w.fill)
Blank(w) == [sh |-> w.sh, v |-> [n \in 1..Prod(w.sh) |-> w.fill]]
\* f: an index in range, taking one module or all of them
ViewPick(w, f) ==
    LET mf == DropAt(f, w.axis)
        s == f[w.axis + 1]
        one(m) == Pick(IF m \in DOMAIN w.mods THEN w.mods[m] ELSE Blank(w), mf)
    IN  IF s.k = "i" THEN [view |-> FALSE, a |-> one(IF s.i < 0 THEN s.i + w.nm ELSE s.i)]
        ELSE [view |-> TRUE,
              w |-> View([m \in DOMAIN w.mods |-> one(m)], w.nm, Pick(Blank(w), mf).sh,
                         NewAxis(f, w.axis), w.fill)]

(* Order of devices: by the numbers in their names *)
RECURSIVE Before(_, _)
Before(p, q) ==
    IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
    ELSE Head(p) < Head(q) \/ (Head(p) = Head(q) /\ Before(Tail(p), Tail(q)))
=============================================================================
