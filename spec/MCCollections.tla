---------------------------- MODULE MCCollections ----------------------------
(***************************************************************************)
(* The design of collections, explored exhaustively over a small universe  *)
(* of files (read from the JSON file named by the environment variable     *)
(* UNIVERSE), and the source of the histories replayed on the real code:   *)
(* every behaviour of length Depth is printed as a JSON history.           *)
(***************************************************************************)
EXTENDS Collections, Json, IOUtils, TLC

CONSTANTS Depth,      \* number of operations after opening
          Emit,       \* print the histories?
          Mutant      \* "none", or the name of a deliberately broken design

U == JsonDeserialize(IOEnv.UNIVERSE)
D == U.defs
F == U.files
Runs == U.runs           \* sequence of sequences of file indices
Selns == U.selns         \* sequence of selections, see TraceReader
Ranges == U.ranges       \* sequence of ranges of trains
Ops == Rng(U.ops)        \* which operations to explore

VARIABLES colls, hist
vars == <<colls, hist>>

SelOf(c, seln) ==
    IF seln.kind = "dict"
    THEN IF \E i \in 1..Len(seln.d) : seln.d[i].s \notin Visible(D, F, c)
             \/ ~ (Rng(seln.d[i].ks) \subseteq c.sel[seln.d[i].s])
         THEN <<>>
         ELSE [s \in {seln.d[i].s : i \in 1..Len(seln.d)} |->
                 LET it == seln.d[CHOOSE i \in 1..Len(seln.d) : seln.d[i].s = s]
                 IN  IF Len(it.ks) = 0 THEN c.sel[s] ELSE Rng(it.ks)]
    ELSE LET parts == [i \in 1..Len(seln.pats) |-> GlobSel(D, F, c, seln.pats[i].s, seln.pats[i].k)]
         IN  IF \E i \in 1..Len(parts) : DOMAIN parts[i] = {} THEN <<>> ELSE MergeSel(parts)

TrainsOf(c, r) ==
    CASE r.kind = "idslice" -> ByIdSlice(c.tids, r.a, r.b, r.st)
      [] r.kind = "ixslice" -> ByIndexSlice(c.tids, r.a, r.b, r.st)
      [] r.kind = "idlist"  -> ByIdList(c.tids, Rng(r.l))
      [] r.kind = "ixlist"  -> IF \A i \in 1..Len(r.l) : IndexInRange(c.tids, r.l[i])
                               THEN ByIndexList(c.tids, Rng(r.l)) ELSE <<>>

Failed == [failed |-> TRUE]
Ok(c) == c # Failed

\* what each operation gives; Failed if it raises
DoSelect(c, seln) == LET q == SelOf(c, seln) IN
                     IF q = <<>> THEN Failed ELSE RestrictTo(D, F, c, q)
DoDeselect(c, seln) ==
    LET q == SelOf(c, seln) IN
    IF q = <<>> THEN Failed
    ELSE IF Mutant = "deselect_source"
         THEN RestrictTo(D, F, c, [s \in DOMAIN c.sel \ DOMAIN q |-> c.sel[s]])
         ELSE RestrictTo(D, F, c, Subtract(c.sel, q))
DoTrains(c, r) == LET q == TrainsOf(c, r) IN
                  IF q = <<>> THEN Failed ELSE WithTrains(D, F, c, q)
DoUnion(c, d) ==
    LET u == UnionColl(<<c, d>>) IN
    IF Mutant # "union_unchecked" /\ FilesConflict(D, F, u.fs, Visible(D, F, u)) THEN Failed ELSE u

Step(e, c) ==
    /\ hist' = Append(hist, e)
    /\ colls' = IF Ok(c) THEN Append(colls, c) ELSE colls

Init == /\ colls = [i \in 1..Len(Runs) |-> OpenColl(D, F, Rng(Runs[i]))]
        /\ hist = <<>>

Next ==
    /\ Len(hist) < Depth
    /\ \/ /\ "select" \in Ops
          /\ \E c \in 1..Len(colls), i \in 1..Len(Selns) :
               Step([op |-> "select", c |-> c, i |-> i], DoSelect(colls[c], Selns[i]))
       \/ /\ "deselect" \in Ops
          /\ \E c \in 1..Len(colls), i \in 1..Len(Selns) :
               Step([op |-> "deselect", c |-> c, i |-> i], DoDeselect(colls[c], Selns[i]))
       \/ /\ "trange" \in Ops
          /\ \E c \in 1..Len(colls), i \in 1..Len(Ranges) :
               Step([op |-> "trange", c |-> c, i |-> i], DoTrains(colls[c], Ranges[i]))
       \/ /\ "union" \in Ops
          /\ \E c, d \in 1..Len(colls) : c # d /\
               Step([op |-> "union", c |-> c, i |-> d], DoUnion(colls[c], colls[d]))
    /\ IF Emit /\ Len(hist') = Depth THEN PrintT("@H@" \o ToJson(hist') \o "@") ELSE TRUE

Spec == Init /\ [][Next]_vars

(****************************** what must hold *****************************)
\* judged for the newest collection only: the others were judged before
New == colls[Len(colls)]

TrainsAscending == \A i \in 1..(Len(New.tids) - 1) : New.tids[i] < New.tids[i + 1]

\* every selected datum has exactly one place to be read from
Unambiguous ==
    \A s \in Visible(D, F, New) : \A t \in Rng(New.tids) :
        Cardinality({f \in FilesWith(F, New.fs, s) : t \in Rng(F[f].tids)}) <= 1

\* reading whole keys is the concatenation of reading trains one by one
WholeIsSumOfTrains ==
    \A s \in Visible(D, F, New) : \A k \in New.sel[s] :
        ConcatMap(LAMBDA e : RowVals(D, F[e[2]], s, k, e[3]), Entries(D, F, New, s, k))
        = ConcatMap(LAMBDA t : IF FileFor(F, New, s, t) = 0 THEN <<>>
                               ELSE TrainVals(D, F, New, s, k, t), New.tids)

\* a written copy, opened again, holds the same data
WrittenFaithful ==
    LET w == Written(D, F, New)
        G == Append(F, w)
        c == [OpenColl(D, G, {Len(G)}) EXCEPT !.sel = [s \in Visible(D, F, New) |-> New.sel[s]]]
    IN  /\ c.tids = New.tids
        /\ \A s \in Visible(D, F, New) : \A k \in New.sel[s] : \A i \in 1..Len(c.tids) :
              LET t == c.tids[i] IN
              /\ NEntries(D, G, c, s, k, t) = NEntries(D, F, New, s, k, t)
              /\ NEntries(D, F, New, s, k, t) = 0
                 \/ TrainVals(D, G, c, s, k, t) = TrainVals(D, F, New, s, k, t)

\* selecting and deselecting the same thing splits the collection in two
SelectSplits ==
    \A i \in 1..Len(Selns) :
        LET a == DoSelect(New, Selns[i])
            b == DoDeselect(New, Selns[i])
            \* exactly the keys which deselecting takes away
            left == [s \in DOMAIN New.sel |-> New.sel[s] \ (IF s \in DOMAIN a.sel THEN a.sel[s] ELSE {})]
        IN  Ok(a) => /\ a.tids = New.tids /\ b.tids = New.tids
                     /\ \A s \in DOMAIN a.sel : a.sel[s] \subseteq New.sel[s]
                     /\ b.sel = DropEmpty(left)

\* the train selections pick trains of the collection, and only restrict it
RangesRestrict ==
    \A i \in 1..Len(Ranges) :
        LET a == DoTrains(New, Ranges[i])
        IN  Ok(a) => /\ Rng(a.tids) \subseteq Rng(New.tids)
                     /\ a.sel = New.sel
                     /\ \A s \in Visible(D, F, New) : \A t \in Rng(a.tids) :
                           FileFor(F, a, s, t) = FileFor(F, New, s, t)

\* a union reads like its parts
UnionReadsLikeParts ==
    \A i \in 1..Len(colls) :
        LET u == DoUnion(colls[i], New)
        IN  Ok(u) => \A c \in {colls[i], New} :
                /\ Rng(c.tids) \subseteq Rng(u.tids)
                /\ \A s \in Visible(D, F, c) :
                      /\ s \in DOMAIN u.sel /\ c.sel[s] \subseteq u.sel[s]
                      /\ \A t \in Rng(c.tids) :
                            FileFor(F, c, s, t) # 0 => FileFor(F, u, s, t) = FileFor(F, c, s, t)

\* no operation changes a collection which exists already
Immutable == [][\A i \in 1..Len(colls) : colls'[i] = colls[i]]_vars
=============================================================================
