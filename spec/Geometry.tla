------------------------------- MODULE Geometry --------------------------------
(***************************************************************************)
(* Detector geometry.  Lengths are integers: U units make the size of a    *)
(* pixel along the axis, so that the fractions of pixels which matter here *)
(* (twelfths, and 64ths in positions and directions) are exact.            *)
(*                                                                         *)
(* A geometry is [det, tiles]: tiles[m+1][t+1] = [c, s, f]: the corner of  *)
(* the first pixel and the steps of a pixel in slow and fast scan          *)
(* direction, each <<x, y, z>>.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

U == 768

Dets == [
    agipd |-> [nt |-> 8,  ss |-> 64,  fs |-> 128, mss |-> 512, mfs |-> 128, first |-> 1],
    lpd   |-> [nt |-> 16, ss |-> 32,  fs |-> 128, mss |-> 256, mfs |-> 256, first |-> 8],
    dssc  |-> [nt |-> 2,  ss |-> 128, fs |-> 256, mss |-> 128, mfs |-> 512, first |-> 1]]
NM == 16

(* where the tile is in the data of its module (t from 0) *)
TileStart(det, t) ==
    CASE det = "agipd" -> <<64 * t, 0>>
      [] det = "lpd" -> IF t < 8 THEN <<32 * (7 - t), 0>> ELSE <<32 * (t - 8), 128>>
      [] det = "dssc" -> <<0, 256 * t>>
TileAt(det, s, f) ==
    CHOOSE t \in 0..Dets[det].nt - 1 :
        LET a == TileStart(det, t)
        IN  a[1] <= s /\ s < a[1] + Dets[det].ss /\ a[2] <= f /\ f < a[2] + Dets[det].fs

Add(p, q) == <<p[1] + q[1], p[2] + q[2], p[3] + q[3]>>
Times(n, p) == <<n * p[1], n * p[2], n * p[3]>>
Div(p, n) == <<p[1] \div n, p[2] \div n, p[3] \div n>>

(***************************************************************************)
(* Constructing idealised geometries; positions in units                   *)
(***************************************************************************)
Quad(m) == m \div 4
\* quadrant position: the first pixel of the first module
Agipd(q, agap, pgap) ==
    LET xo(m) == IF Quad(m) < 2 THEN 1 ELSE -1
        yo(m) == IF Quad(m) < 2 THEN -1 ELSE 1
    IN  [m \in 1..NM |-> [t \in 1..8 |->
          [c |-> <<q[Quad(m - 1) + 1][1] + xo(m - 1) * (t - 1) * (64 * U + agap),
                   q[Quad(m - 1) + 1][2] - ((m - 1) % 4) * (128 * U + pgap), 0>>,
           s |-> <<xo(m - 1) * U, 0, 0>>, f |-> <<0, yo(m - 1) * U, 0>>]]]
\* quadrant position: the last corner of tile 16 of module 4; modules go
\* around the quadrant: 4 1 / 3 2, where x increases to the left
Lpd(q, agap, pgap) ==
    LET w == 256 * U + agap + pgap
        h == 256 * U + 7 * agap + pgap
        ax(m) == IF m % 4 < 2 THEN -1 ELSE 0
        ay(m) == IF m % 4 \in {1, 2} THEN -1 ELSE 0
    IN  [m \in 1..NM |-> [t \in 1..16 |->
          [c |-> <<q[Quad(m - 1) + 1][1] + ax(m - 1) * w
                      - (IF t <= 8 THEN 128 * U + agap ELSE 0) - 128 * U,
                   q[Quad(m - 1) + 1][2] + ay(m - 1) * h
                      - (IF t <= 8 THEN t - 1 ELSE 16 - t) * (32 * U + agap) - 32 * U, 0>>,
           s |-> <<0, U, 0>>, f |-> <<U, 0, 0>>]]]
\* from files: the last corner of each tile relative to module and quadrant
LpdFile(q, mo, to) ==
    [m \in 1..NM |-> [t \in 1..16 |->
      [c |-> <<q[Quad(m - 1) + 1][1] + mo[m][1] + to[m][t][1] - 128 * U,
               q[Quad(m - 1) + 1][2] + mo[m][2] + to[m][t][2] - 32 * U, 0>>,
       s |-> <<0, U, 0>>, f |-> <<U, 0, 0>>]]]
\* from files: the corner with the smallest x and y
DsscFile(q, mo, to) ==
    LET xo(m) == IF Quad(m) < 2 THEN -1 ELSE 1
    IN  [m \in 1..NM |-> [t \in 1..2 |->
          [c |-> <<q[Quad(m - 1) + 1][1] + mo[m][1] + to[m][t][1] + (IF xo(m - 1) = -1 THEN 256 * U ELSE 0),
                   q[Quad(m - 1) + 1][2] + mo[m][2] + to[m][t][2] + (IF xo(m - 1) = 1 THEN 128 * U ELSE 0), 0>>,
           s |-> <<0, -xo(m - 1) * U, 0>>, f |-> <<xo(m - 1) * U, 0, 0>>]]]

(***************************************************************************)
(* Where pixels are                                                        *)
(***************************************************************************)
\* i, j: place within the tile in twelfths of a pixel
At12(tile, i, j) == Add(tile.c, Div(Add(Times(i, tile.s), Times(j, tile.f)), 12))
\* odd rows of hexagons are shifted
Shift(det, i) == IF det = "dssc" /\ i % 2 = 1 THEN -6 ELSE 0
\* pixel i, j of a tile: its first corner, or its centre
PixelOn(det, tile, i, j, centre) ==
    At12(tile, 12 * i + (IF ~ centre THEN 0 ELSE IF det = "dssc" THEN 8 ELSE 6),
               12 * j + Shift(det, i) + (IF centre THEN 6 ELSE 0))
Pixel(g, m, s, f, centre) ==
    LET t == TileAt(g.det, s, f) a == TileStart(g.det, t)
    IN  PixelOn(g.det, g.tiles[m + 1][t + 1], s - a[1], f - a[2], centre)

\* corners of a pixel in twelfths from its first corner
CornersOf(det) ==
    IF det = "dssc" THEN <<<<0, 6>>, <<4, 12>>, <<12, 12>>, <<16, 6>>, <<12, 0>>, <<4, 0>>>>
    ELSE <<<<0, 0>>, <<12, 0>>, <<12, 12>>, <<0, 12>>>>
CornerOn(det, tile, i, j, k) ==
    LET o == CornersOf(det)[k] IN At12(tile, 12 * i + o[1], 12 * j + Shift(det, i) + o[2])
Corner(g, m, s, f, k) ==
    LET t == TileAt(g.det, s, f) a == TileStart(g.det, t)
    IN  CornerOn(g.det, g.tiles[m + 1][t + 1], s - a[1], f - a[2], k)
\* the smallest x and y of all corners of pixels (found at the ends of tiles)
Lowest(g) ==
    LET D == Dets[g.det]
        S == {CornerOn(g.det, g.tiles[m][t], i, j, k) :
                m \in 1..NM, t \in 1..D.nt, i \in {0, 1, D.ss - 2, D.ss - 1}, j \in {0, D.fs - 1},
                k \in 1..Len(CornersOf(g.det))}
    IN  <<Min({p[1] : p \in S}), Min({p[2] : p \in S}), 0>>

\* data coordinates (in twelfths of a pixel) anywhere in a module
Coords(g, m, s12, f12) ==
    LET t == TileAt(g.det, s12 \div 12, f12 \div 12) a == TileStart(g.det, t)
    IN  At12(g.tiles[m + 1][t + 1], s12 - 12 * a[1], f12 - 12 * a[2])

TileCorners(g, m, t) ==
    LET x == g.tiles[m][t] D == Dets[g.det]
    IN  <<x.c, Add(x.c, Times(D.fs, x.f)), Add(Add(x.c, Times(D.ss, x.s)), Times(D.fs, x.f)),
          Add(x.c, Times(D.ss, x.s))>>
TileCentre2(g, m, t) ==     \* twice the centre
    LET x == g.tiles[m][t] D == Dets[g.det]
    IN  Add(Times(2, x.c), Add(Times(D.ss, x.s), Times(D.fs, x.f)))

(***************************************************************************)
(* Snapped to a grid of pixels                                             *)
(***************************************************************************)
Round(x) == (x + U \div 2) \div U       \* the generator avoids halves
SnapTile(x) == [c |-> <<Round(x.c[1]), Round(x.c[2])>>,
                s |-> <<Round(x.s[1]), Round(x.s[2])>>, f |-> <<Round(x.f[1]), Round(x.f[2])>>]
CanSnap(x) == LET y == SnapTile(x)
                  a(v) == <<IF v[1] < 0 THEN -v[1] ELSE v[1], IF v[2] < 0 THEN -v[2] ELSE v[2]>>
              IN  {a(y.s), a(y.f)} = {<<0, 1>>, <<1, 0>>}
\* the cell <<y, x>> of pixel i, j: the one between its corner and the next ones
Cell(y, i, j) ==
    LET lo(k) == LET p == y.c[k] + i * y.s[k] + j * y.f[k] IN IF y.s[k] + y.f[k] < 0 THEN p - 1 ELSE p
    IN  <<lo(2), lo(1)>>
CellOf(g, snapped, m, s, f) ==
    LET t == TileAt(g.det, s, f) a == TileStart(g.det, t)
    IN  Cell(snapped[m + 1][t + 1], s - a[1], f - a[2])
=============================================================================
