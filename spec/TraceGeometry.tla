----------------------------- MODULE TraceGeometry -----------------------------
(***************************************************************************)
(* Judges positions, images, plots and CrystFEL files recorded from the    *)
(* real code: total verdicts.  Maps from pixels to places are given as 512 *)
(* blocks of 16 x 128 pixels (every other row): <<first, step, step>>.     *)
(***************************************************************************)
EXTENDS Geometry, Json, IOUtils, TLC

Trace == JsonDeserialize(IOEnv.TRACE)
VARIABLES sc, l, g, sn
vars == <<sc, l, g, sn>>

If(b, x) == IF b THEN {x} ELSE {}
Raised(o) == o.k = "exc"
Is(o, c) == \E i \in 1..Len(o.t) : o.t[i] = c
SetOf(s) == {s[i] : i \in 1..Len(s)}

XY(p) == <<p[1], p[2], 0>>
Made(e) ==
    [det |-> e.det,
     tiles |-> CASE e.how = "quad" /\ e.det = "agipd" -> Agipd(e.q, e.agap, e.pgap)
                 [] e.how = "quad" /\ e.det = "lpd" -> Lpd(e.q, e.agap, e.pgap)
                 [] e.how = "file" /\ e.det = "lpd" -> LpdFile(e.q, e.mo, e.to)
                 [] e.how = "file" /\ e.det = "dssc" -> DsscFile(e.q, e.mo, e.to)
                 [] e.how = "tiles" -> e.tiles]
Snapped(x) == [m \in 1..NM |-> [t \in 1..Dets[x.det].nt |-> SnapTile(x.tiles[m][t])]]

(***************************************************************************)
(* Blocks of pixels: module, rows and columns of its first pixel           *)
(***************************************************************************)
NRows(det) == Dets[det].mss \div 32
NCols(det) == Dets[det].mfs \div 128
BlockM(det, i) == (i - 1) \div (2 * NRows(det) * NCols(det))
BlockS(det, i) ==
    LET r == (i - 1) % (2 * NRows(det) * NCols(det))
    IN  32 * (r \div (2 * NCols(det))) + ((r \div NCols(det)) % 2)
BlockF(det, i) == 128 * ((i - 1) % NCols(det))
Blocks == 1..512
BlockTile(x, i) ==
    LET m == BlockM(x.det, i) IN x.tiles[m + 1][TileAt(x.det, BlockS(x.det, i), BlockF(x.det, i)) + 1]

\* pixels at P(m, s, f), with the steps of their tiles
PlacedLike(x, b, P(_, _, _)) ==
    /\ Len(b) = 512
    /\ \A i \in Blocks :
        LET t == BlockTile(x, i)
        IN  b[i] = <<P(BlockM(x.det, i), BlockS(x.det, i), BlockF(x.det, i)), Times(2, t.s), t.f>>

PositionsFails(e) ==
    LET o == e.obs P(m, s, f) == Pixel(g, m, s, f, e.centre = 1) IN
    IF Raised(o) THEN {"raised"} ELSE IF o.k # "blocks" THEN {"shape"}
    ELSE If(~ PlacedLike(g, o.b, P), "place")

CoordsFails(e) ==
    LET o == e.obs IN
    IF Raised(o) THEN {"raised"} ELSE IF o.k # "pts" \/ Len(o.p) # Len(e.m) THEN {"shape"}
    ELSE If(\E i \in 1..Len(e.m) : o.p[i] # Coords(g, e.m[i], e.s[i], e.f[i]), "place")

DistortFails(e) ==
    LET o == e.obs
        low == IF e.neg = 1 THEN <<0, 0, 0>> ELSE Lowest(g)
        Q(k, m, s, f) == Add(Corner(g, m, s, f, k), Times(-1, low))
    IN
    IF Raised(o) THEN {"raised"} ELSE IF o.k # "corners" \/ Len(o.c) # Len(CornersOf(g.det)) THEN {"shape"}
    ELSE If(\E k \in 1..Len(o.c) : LET P(m, s, f) == Q(k, m, s, f) IN ~ PlacedLike(g, o.c[k], P), "place")

(***************************************************************************)
(* Images                                                                  *)
(***************************************************************************)
\* index <<y, x>> in the image of each block, and its steps; cen added to cells
ImageBlock(x, snapped, cen, i) ==
    LET m == BlockM(x.det, i) s == BlockS(x.det, i) f == BlockF(x.det, i)
        y == snapped[m + 1][TileAt(x.det, s, f) + 1]
        c == CellOf(x, snapped, m, s, f)
    IN  <<<<c[1] + cen[1], c[2] + cen[2]>>, <<2 * y.s[2], 2 * y.s[1]>>, <<y.f[2], y.f[1]>>>>
Nowhere == <<<<-1, -1>>, <<0, 0>>, <<0, 0>>>>
\* the ends of a block are inside of the image
Inside(b, size) ==
    \A u \in {0, 15}, v \in {0, 127} : \A k \in {1, 2} :
        LET p == b[1][k] + u * b[2][k] + v * b[3][k] IN 0 <= p /\ p < size[k]

FrameFails(x, snapped, fr, cen, size, miss, floats) ==
    LET there == {i \in Blocks : \A k \in 1..Len(miss) : miss[k] # BlockM(x.det, i)}
        want == [i \in Blocks |-> IF i \in there THEN ImageBlock(x, snapped, cen, i) ELSE Nowhere]
    IN  IF Len(fr.b) # 512 THEN {"shape"}
        ELSE If(\E i \in Blocks : fr.b[i] # want[i] /\ (floats \/ i \in there), "place")
             \cup If(\E i \in there : ~ Inside(want[i], size), "outside")
             \cup If(floats /\ (fr.filled # 2048 * Cardinality(there) \/ fr.known # fr.filled), "blank")
             \cup If(floats /\ fr.distinct # fr.known, "twice")

ImageFails(e) ==
    LET o == e.obs IN
    IF e.out = "size" THEN If(~ Raised(o), "accepted")
    ELSE IF e.out = "type" /\ e.dt # e.odt /\ Raised(o) THEN If(~ Is(o, "TypeError"), "other_error")
    ELSE IF Raised(o) THEN {"raised"} ELSE IF o.k # "img" THEN {"shape"}
    ELSE If(Len(o.frames) # e.frames, "shape") \cup If(e.blank = 0, "not_blank")
         \cup UNION {FrameFails(g, sn, o.frames[i], o.centre, o.size, e.miss, e.float = 1) : i \in 1..Len(o.frames)}

PlotFails(e) ==
    LET o == e.obs IN
    IF Raised(o) THEN {"raised"} ELSE IF Len(o.frames) # 1 THEN {"shape"}
    ELSE LET b == o.frames[1].b[1]
             c == ImageBlock(g, sn, <<0, 0>>, 1)[1]
             cen == <<b[1][1] - c[1], b[1][Len(b[1])] - c[2]>>
             near(a, z) == a - z \in -101..101
         IN  FrameFails(g, sn, o.frames[1], cen, o.size, <<>>, TRUE)
             \cup If(o.up # 1, "upside_down") \cup If(o.flip # e.front, "view")
             \cup If(~ (near(o.edge[1], -100 * cen[1]) /\ near(o.edge[2], 100 * (o.size[1] - cen[1]))
                        /\ near(o.edge[3], -100 * cen[2]) /\ near(o.edge[4], 100 * (o.size[2] - cen[2]))), "scale")

InterpolateFails(e) ==
    LET o == e.obs IN
    IF Raised(o) THEN {"raised"}
    ELSE If(\E i \in 1..Len(o.v) :
              LET p == o.v[i] IN p[5] - 16 * (8 * p[3] + p[4] + 2000 * p[1]) \notin -150..150, "place")
         \cup If(o.covered \notin 950..1020, "blank")

(* the older interface: images of LPD, not flipped in x and y *)
OldFails(e) ==
    LET o == e.obs
        Px(v) == v \div U
        at(m, t) == <<Px(e.q[Quad(m) + 1][2] + e.mo[m + 1][2] + e.to[m + 1][t + 1][2]),
                      Px(e.q[Quad(m) + 1][1] + e.mo[m + 1][1] + e.to[m + 1][t + 1][1])>>
        there == {i \in Blocks : \A k \in 1..Len(e.miss) : e.miss[k] # BlockM("lpd", i)}
        want == [i \in Blocks |->
                  IF i \notin there THEN Nowhere
                  ELSE LET m == BlockM("lpd", i) s == BlockS("lpd", i) f == BlockF("lpd", i)
                           t == TileAt("lpd", s, f) a == TileStart("lpd", t)
                           p == at(m, t)
                       IN  <<<<p[1] + 31 - (s - a[1]) + o.centre[1], p[2] + 127 - (f - a[2]) + o.centre[2]>>,
                             <<-2, 0>>, <<0, -1>>>>]
        Frame(fr) == If(Len(fr.b) # 512 \/ \E i \in Blocks : fr.b[i] # want[i], "place")
                     \cup If(\E i \in there : ~ Inside(want[i], o.size), "outside")
                     \cup If(fr.filled # 2048 * Cardinality(there) \/ fr.known # fr.filled, "blank")
                     \cup If(fr.distinct # fr.known, "twice")
    IN  IF Raised(o) THEN {"raised"} ELSE IF o.k # "img" \/ Len(o.frames) # e.frames THEN {"shape"}
        ELSE UNION {Frame(o.frames[i]) : i \in 1..Len(o.frames)}

(***************************************************************************)
(* Plots of the layout                                                     *)
(***************************************************************************)
P2(p) == <<p[1], p[2]>>
InspectFails(e) ==
    LET o == e.obs D == Dets[g.det]
        Tiles == (1..NM) \X (1..D.nt)
        corners(k) == [i \in 1..4 |-> P2(TileCorners(g, k[1], k[2])[i])]
        first(m) == g.tiles[m][D.first]
        row(m) == {P2(first(m).c), P2(Add(first(m).c, Times(D.fs, first(m).f)))}
        mid(m, t) == P2(TileCentre2(g, m, t))
        at(lb) == <<lb[3], lb[4]>>
        mods == {i \in 1..Len(o.labels) : o.labels[i][1] > 0}
    IN
    IF Raised(o) THEN {"raised"}
    ELSE If(Len(o.polys) # NM * D.nt \/ {SetOf(o.polys[i]) : i \in 1..Len(o.polys)} # {SetOf(corners(k)) : k \in Tiles},
            "tiles")
         \cup If(SetOf(o.firsts) # {P2(first(m).c) : m \in 1..NM}, "first_pixel")
         \cup If({SetOf(o.lines[i]) : i \in 1..Len(o.lines)} # {row(m) : m \in 1..NM}, "first_row")
         \cup If({o.labels[i][1] : i \in mods} # 1..NM \/ Cardinality(mods) # NM
                 \/ \E i \in mods : \A t \in 1..D.nt : at(o.labels[i]) # mid(o.labels[i][1], t), "module_labels")
         \cup If(\E i \in (1..Len(o.labels)) \ mods :
                    \A m \in 1..NM : o.labels[i][2] \notin 1..D.nt \/ at(o.labels[i]) # mid(m, o.labels[i][2]),
                 "tile_labels")
         \cup If(o.flip # e.front, "view")

CompareFails(e) ==
    LET o == e.obs IN
    IF Raised(o) THEN {"raised"}
    ELSE If(o.tiles # NM * Dets[g.det].nt, "tiles") \cup If(o.arrows # 2 * e.shifted, "arrows")
         \cup If(o.inside # 1 \/ o.wide < 50 \/ o.high < 50, "scale")

(***************************************************************************)
(* CrystFEL geometry files                                                 *)
(***************************************************************************)
WriteFails(e) ==
    LET o == e.obs D == Dets[g.det]
        has(d) == \E i \in 1..Len(e.dims) : e.dims[i] = d
        dims(m) == [i \in 1..Len(e.dims) |->
                      IF e.dims[i] = "frame" THEN "%" ELSE IF e.dims[i] = "modno" THEN ToString(m) ELSE e.dims[i]]
        off(m) == IF has("modno") THEN 0 ELSE m * D.mss
        want == {LET x == g.tiles[k[1] + 1][k[2] + 1] a == TileStart(g.det, k[2])
                 IN  [m |-> k[1], t |-> k[2], dims |-> dims(k[1]),
                      ss |-> <<a[1] + off(k[1]), a[1] + off(k[1]) + D.ss - 1>>, fs |-> <<a[2], a[2] + D.fs - 1>>,
                      c |-> x.c, s |-> x.s, f |-> x.f] : k \in (0..NM - 1) \X (0..D.nt - 1)}
        of(m) == {<<m, t>> : t \in 0..D.nt - 1}
        gq == {[n |-> "q" \o ToString(q), v |-> UNION {of(m) : m \in 4 * q..4 * q + 3}] : q \in 0..3}
        gp == {[n |-> "p" \o ToString(m), v |-> of(m)] : m \in 0..NM - 1}
    IN
    IF ~ has("frame") THEN (IF ~ Raised(o) THEN {"accepted"} ELSE If(~ Is(o, "ValueError"), "other_error"))
    ELSE IF Raised(o) THEN {"raised"}
    ELSE LET got == SetOf(o.panels)
             Proj(S, F(_)) == {<<x.m, x.t, F(x)>> : x \in S}
             dm(x) == x.dims  rg(x) == <<x.ss, x.fs>>  pl(x) == <<x.c, x.s, x.f>>
         IN  If(Len(o.panels) # NM * D.nt \/ {<<x.m, x.t>> : x \in got} # {<<x.m, x.t>> : x \in want}, "panels")
             \cup If(Proj(got, dm) # Proj(want, dm), "dimensions")
             \cup If(Proj(got, rg) # Proj(want, rg), "ranges")
             \cup If(Proj(got, pl) # Proj(want, pl), "place")
             \cup If(o.data # e.data \/ o.mask # e.mask, "paths") \cup If(o.nums # e.nums, "numbers")
             \cup If(o.res # 1000, "resolution")
             \cup If({[n |-> x.n, v |-> SetOf(x.v)] : x \in SetOf(o.groups)} # gq \cup gp, "groups")
             \cup If({SetOf(x) : x \in SetOf(o.coll)}
                        # {{"q" \o ToString(q) : q \in 0..3}, {"p" \o ToString(m) : m \in 0..NM - 1}}, "collections")

(* An XFEL geometry file with all coordinates negated; never over another file *)
InvertFails(e) ==
    LET o == e.obs IN
    IF e.old = 1 THEN If(o.k # "refused", "overwrites")
    ELSE IF o.k # "inv" THEN {o.k}
    ELSE If(o.n # Len(e.rows), "datasets")
         \cup If(o.rows # [i \in 1..Len(e.rows) |-> [j \in 1..Len(e.rows[i]) |-> 0 - e.rows[i][j]]], "values")
         \cup If(o.desc # 1, "description")

Fails(e) ==
    CASE e.op \in {"make", "reload"} -> If(Raised(e.obs), "raised")
      [] e.op = "positions" -> PositionsFails(e)
      [] e.op = "coords" -> CoordsFails(e)
      [] e.op = "distort" -> DistortFails(e)
      [] e.op = "image" -> ImageFails(e)
      [] e.op = "plot" -> PlotFails(e)
      [] e.op = "interpolate" -> InterpolateFails(e)
      [] e.op = "oldimage" -> OldFails(e)
      [] e.op = "inspect" -> InspectFails(e)
      [] e.op = "compare" -> CompareFails(e)
      [] e.op = "write" -> WriteFails(e)
      [] e.op = "invert" -> InvertFails(e)

Report(e, fails) ==
    IF fails = {} THEN TRUE
    ELSE PrintT("@F@" \o ToString(sc) \o "@" \o ToString(l) \o "@" \o
                FoldSet(LAMBDA x, acc : acc \o e.op \o "." \o x \o ",", "", fails) \o "@")

Init == sc \in 1..Len(Trace) /\ l = 1 /\ g = <<>> /\ sn = <<>>
Next == /\ l <= Len(Trace[sc].ev)
        /\ LET e == Trace[sc].ev[l]
           IN  /\ Report(e, Fails(e))
               /\ IF e.op = "make" /\ e.obs.k = "ok"
                  THEN LET x == Made(e) IN g' = x /\ sn' = Snapped(x)
                  ELSE UNCHANGED <<g, sn>>
        /\ l' = l + 1 /\ UNCHANGED sc
Spec == Init /\ [][Next]_vars
=============================================================================
