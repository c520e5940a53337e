------------------------------ MODULE MCGeometry -------------------------------
(***************************************************************************)
(* The way images are assembled (cutting out a rectangle of the output and *)
(* copying a flipped and perhaps transposed tile into it) puts each pixel  *)
(* into the cell which the vectors of the tile say; and the layouts made   *)
(* by the constructors have each pixel of the data in one tile, and tiles  *)
(* which do not overlap.                                                   *)
(***************************************************************************)
EXTENDS Geometry, TLC

CONSTANT Design

Dirs == {<<<<a, 0>>, <<0, b>>>> : a, b \in {1, -1}} \cup {<<<<0, a>>, <<b, 0>>>> : a, b \in {1, -1}}
Sizes == {<<1, 1>>, <<1, 2>>, <<2, 3>>, <<3, 2>>}
Tile == {[c |-> c, s |-> d[1], f |-> d[2], n |-> n] : c \in {<<-2, 3>>, <<0, 0>>, <<4, -3>>}, d \in Dirs, n \in Sizes}

(* the implementation: all as <<y, x>> *)
Alg(t) ==
    LET straight == t.f[2] = 0      \* fast scan is x
        so == IF straight THEN t.s[2] ELSE t.s[1]
        fo == IF straight THEN t.f[1] ELSE t.f[2]
        neg(v) == IF v < 0 THEN v ELSE 0
        shift == IF Design = "no_shift" THEN <<0, 0>>
                 ELSE IF straight THEN <<neg(so) * t.n[1], neg(fo) * t.n[2]>>
                 ELSE <<neg(fo) * t.n[2], neg(so) * t.n[1]>>
        dims == IF straight THEN <<t.n[1], t.n[2]>> ELSE <<t.n[2], t.n[1]>>
        \* which pixel is at a, b of the flipped (and transposed) tile
        flip(o, k, n) == IF o > 0 THEN k ELSE n - 1 - k
        src(a, b) == IF straight THEN <<flip(so, a, t.n[1]), flip(fo, b, t.n[2])>>
                     ELSE IF Design = "flip_before" THEN <<flip(fo, b, t.n[1]), flip(so, a, t.n[2])>>
                     ELSE <<flip(so, b, t.n[1]), flip(fo, a, t.n[2])>>
    IN  [corner |-> <<t.c[2] + shift[1], t.c[1] + shift[2]>>, dims |-> dims,
         at |-> [i \in 0..t.n[1] - 1, j \in 0..t.n[2] - 1 |->
                    LET ab == CHOOSE ab \in (0..dims[1] - 1) \X (0..dims[2] - 1) : src(ab[1], ab[2]) = <<i, j>>
                    IN  <<t.c[2] + shift[1] + ab[1], t.c[1] + shift[2] + ab[2]>>]]

VARIABLES pair, out
vars == <<pair, out>>

Init == pair \in Tile \X {t \in Tile : t.n = <<2, 3>> /\ t.c # <<0, 0>>} /\ out = <<>>
\* assemble two tiles: place in the image of each pixel, size and centre
Assemble ==
    /\ out = <<>>
    /\ LET A == [k \in 1..2 |-> Alg(pair[k])]
           lo == [d \in 1..2 |-> Min({A[1].corner[d], A[2].corner[d]})]
           hi == [d \in 1..2 |-> Max({A[k].corner[d] + A[k].dims[d] : k \in 1..2})]
           cen == IF Design = "centre_first" THEN <<-A[1].corner[1], -A[1].corner[2]>> ELSE <<-lo[1], -lo[2]>>
       IN  out' = <<[size |-> <<hi[1] - lo[1], hi[2] - lo[2]>>, cen |-> cen,
                     at |-> [k \in 1..2 |-> [ij \in DOMAIN A[k].at |->
                                <<A[k].at[ij][1] + cen[1], A[k].at[ij][2] + cen[2]>>]]]>>
    /\ UNCHANGED pair
Spec == Init /\ [][Assemble]_vars

Placed ==
    out # <<>> =>
        \A k \in 1..2 : \A i \in 0..pair[k].n[1] - 1, j \in 0..pair[k].n[2] - 1 :
            LET c == Cell(pair[k], i, j) p == out[1].at[k][i, j]
            IN  /\ p = <<c[1] + out[1].cen[1], c[2] + out[1].cen[2]>>
                /\ p[1] \in 0..out[1].size[1] - 1 /\ p[2] \in 0..out[1].size[2] - 1

(* constants: the tiles divide the data of a module, and do not overlap in *)
(* the layouts which the constructors make                                 *)
Steps(n) == {0, 1, n - 1}
Divided(det) ==
    LET D == Dets[det]
        S == {TileStart(det, t) : t \in 0..D.nt - 1}
    IN  /\ Cardinality(S) = D.nt
        /\ \A a \in S : a[1] % D.ss = 0 /\ a[2] % D.fs = 0 /\ a[1] < D.mss /\ a[2] < D.mfs
        /\ D.nt * D.ss * D.fs = D.mss * D.mfs
Box(x, D) == LET cs == {x.c, Add(x.c, Add(Times(D.ss, x.s), Times(D.fs, x.f)))}
             IN  <<Min({p[1] : p \in cs}), Max({p[1] : p \in cs}), Min({p[2] : p \in cs}), Max({p[2] : p \in cs})>>
Apart(a, b) == a[2] <= b[1] \/ b[2] <= a[1] \/ a[4] <= b[3] \/ b[4] <= a[3]
NoOverlap(det, tiles) ==
    LET D == Dets[det]
        B == [m \in 1..NM |-> [t \in 1..D.nt |-> Box(tiles[m][t], D)]]
    IN  \A m, n \in 1..NM : \A t, u \in 1..D.nt : (m # n \/ t # u) => Apart(B[m][t], B[n][u])
P(x, y) == <<x * U, y * U>>
ASSUME \A d \in DOMAIN Dets : Divided(d)
ASSUME NoOverlap("agipd", Agipd(<<P(-525, 625), P(-550, -10), P(520, -160), P(542, 475)>>, 2 * U, 29 * U))
ASSUME NoOverlap("lpd", Lpd(<<P(22, 598), P(-23, 16), P(509, -32), P(557, 550)>>, 4 * U, 4 * U))
=============================================================================
